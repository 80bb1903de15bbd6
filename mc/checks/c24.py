"""C24: the string helpers of the generated modules, over all strings up to a
length of alphabets of characters and bytes, all encodings, error modes and
representations of a pointer, and all histories of living pointers.

State: the string so far and the memory that holds it. Transition: one more
character, a conversion, a pointer that is dropped. Oracle: the codecs of
Python and the bytes in memory, read with an own C library.
"""
import ctypes
import gc
import itertools
import os
import subprocess

from .. import engine, impl

# what makes a module have the helpers
TRIGGERS = {
    'var': 'char *v;',
    'const': 'const char *v;',
    'unsigned': 'unsigned char *v;',
    'member': 'struct S { int a; char *p; char b; };',
    'result': 'char *echo(const char *p); unsigned char *uecho(unsigned char *p); int same(const char *a, const char *b);',
    'typedef': 'typedef char *str_t; struct S { str_t p; };',
    'array': 'char *v[3];',
    'two': 'char **v;',
    'callback': 'typedef char *(*cb_t)(char *);',
    'both': 'struct S { int a; char *p; unsigned char *q; char b; }; char *v; char *echo(const char *p); enum E { A };',
}
CHARS = ['a', "'", '\\', '\n', '\x01', '\x7f', '\x80', 'é', 'ÿ', 'Ž', '€', '中', '\ufeff', '\ufffd', '\U0001f600', '\udc80', '\ud800']
BYTES = [0x01, 0x20, 0x41, 0x5c, 0x7f, 0x80, 0x8e, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xe4, 0xed, 0xf0, 0x9f, 0x98, 0xef, 0xbb, 0xbf, 0xff]
FEW = [0x41, 0x80, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xff]
ENCODINGS = ['utf-8', 'ascii', 'latin-1', 'cp1252', 'shift_jis', 'utf-8-sig', 'utf-7', 'gb18030', 'cp437', None]
ERRORS = ['strict', 'ignore', 'replace', 'surrogateescape', 'backslashreplace', 'surrogatepass']
SRC = r'''
#include <string.h>
char *echo(const char *p) { return (char *)p; }
unsigned char *uecho(unsigned char *p) { return p; }
int same(const char *a, const char *b) { return !strcmp(a, b); }
unsigned long len(void *p) { return p ? strlen(p) : (unsigned long)-1; }
void put(char *d, void *s) { memcpy(d, s, strlen(s) + 1); }
'''


def outcome(f):
    try:
        return ('value', f())
    except Exception as e:
        return ('raises', type(e).__name__)


class C24(engine.Check):
    id = 'C24'
    technique = 'explicit-state enumeration of all strings, encodings, pointer representations and lifetimes up to a bound, on the helpers of real generated modules, against the codecs and the bytes in memory'
    level_note = 'exhaustive up to the stated lengths'
    rule = ('all strings of up to 3 of 17 characters and all byte strings of up to 3 of 21 bytes (thorough: 4 each), times 9 encodings and none, 6 error modes, 11 representations of the pointer, '
            'in modules that need the helpers for 10 reasons; all histories of 4 (thorough: 5) steps on 2 living pointers')
    assumptions = ['the codecs of Python are right']
    chunk_timeout = 600

    def setup_worker(self):
        self.modules = {}
        self.lib = None

    def cases(self):
        for t in TRIGGERS:
            yield engine.Case('null/' + t, ('null', t))
            yield engine.Case('empty/' + t, ('strings', t, 'utf-8', None))
        for enc in ENCODINGS:
            for e in ERRORS if enc else ['strict']:
                for b in BYTES:
                    yield engine.Case('bytes/%s/%s/%02x' % (enc, e, b), ('bytes', 'both', enc, e, b, 4 if self.thorough else 3))
        for t in TRIGGERS:
            for enc in ENCODINGS:
                for c in CHARS:
                    yield engine.Case('text/%s/%s/%04x' % (t, enc, ord(c)), ('strings', t, enc, c))
                for e in ERRORS if enc else ['strict']:
                    for b in FEW:
                        yield engine.Case('bytes/%s/%s/%s/%02x' % (t, enc, e, b), ('bytes', t, enc, e, b, 2))
        for t in TRIGGERS:
            yield engine.Case('long/' + t, ('long', t))
            yield engine.Case('life/' + t, ('life', t))
        for enc in ENCODINGS[:4]:
            yield engine.Case('echo/%s' % enc, ('echo', enc))

    def module(self, t):
        if self.lib is None:
            d = impl.scratch()
            with open(os.path.join(d, 'str.c'), 'w') as f:
                f.write(SRC)
            so = os.path.join(d, 'str.so')
            subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-o', so, os.path.join(d, 'str.c')], check=True)
            self.lib = ctypes.CDLL(so)
            self.lib.len.argtypes = [ctypes.c_void_p]
            self.lib.len.restype = ctypes.c_ulong
            self.lib.put.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        if t not in self.modules:
            self.modules[t] = impl.load(impl.gen(TRIGGERS[t]))
        return self.modules[t]

    def memory(self, p):
        """the bytes at a pointer up to the 0, as C sees them"""
        a = ctypes.cast(p, ctypes.c_void_p)
        n = self.lib.len(a)
        if n == 2 ** 64 - 1:
            return None
        buf = bytearray(n + 1)
        self.lib.put((ctypes.c_char * (n + 1)).from_buffer(buf), a)
        return bytes(buf[:-1])

    def run_one(self, case):
        kind, *args = case.payload
        try:
            ns = self.module(args[0] if kind != 'echo' else 'result')
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), impl.tb(e))
        if 'string_cast' not in ns or 'char_pointer_cast' not in ns:
            return ('no helpers', str(args))
        try:
            return getattr(self, 'do_' + kind)(ns, *args)
        except Exception as e:
            return ('use:' + impl.exc_sig(e), impl.tb(e))

    @staticmethod
    def pointers(data):
        """the representations of a pointer to bytes -> (name, pointer, what to keep)"""
        buf = ctypes.create_string_buffer(data)
        a = ctypes.addressof(buf)
        yield 'POINTER(c_char)', ctypes.cast(buf, ctypes.POINTER(ctypes.c_char)), buf
        yield 'POINTER(c_ubyte)', ctypes.cast(buf, ctypes.POINTER(ctypes.c_ubyte)), buf
        yield 'POINTER(c_byte)', ctypes.cast(buf, ctypes.POINTER(ctypes.c_byte)), buf
        yield 'c_char_p', ctypes.c_char_p(data), data
        yield 'c_void_p', ctypes.c_void_p(a), buf
        yield 'address', a, buf
        yield 'bytes', data, data
        yield 'array', buf, buf
        u = (ctypes.c_ubyte * (len(data) + 1))(*data)
        yield 'c_ubyte array', u, u
        yield 'pointer()', ctypes.pointer(u), u
        yield 'byref array', ctypes.byref(buf), buf

    def do_bytes(self, ns, t, enc, errors, first, n):
        cast = ns['string_cast']
        count = 0
        for k in range(n):
            for rest in itertools.product(BYTES if t == 'both' else FEW, repeat=k):
                data = bytes((first,) + rest)
                want = outcome(lambda: data if enc is None else data.decode(enc, errors))
                for i, (what, p, keep) in enumerate(self.pointers(data)):
                    if k > 1 and i > 1:
                        break
                    count += 1
                    got = outcome(lambda: cast(p, enc, errors))
                    if got != want:
                        return ('string_cast is wrong', '%s %s %s %s: %s / %s' % (data, enc, errors, what, got, want))
                    if i == 0:
                        if outcome(lambda: cast(p, encoding=enc, errors=errors)) != want or outcome(lambda: cast(char_pointer=p, errors=errors, encoding=enc)) != want:
                            return ('string_cast with keywords', '%s %s %s' % (data, enc, errors))
                        if errors == 'strict' and outcome(lambda: cast(p, enc)) != want:
                            return ('string_cast is not strict', '%s %s' % (data, enc))
                        if enc == 'utf-8' and errors == 'strict' and outcome(lambda: cast(p)) != want:
                            return ('string_cast is not utf-8', '%s' % data)
                        if self.memory(p) != data:
                            return ('string_cast changes the memory', '%s' % data)
        return engine.Held((count, count, count))

    def one(self, ns, s, enc):
        """a string there and back"""
        make, cast = ns['char_pointer_cast'], ns['string_cast']
        want = outcome(lambda: s.encode(enc))
        got = outcome(lambda: make(s, enc))
        if want[0] == 'raises':
            return None if got == want else ('char_pointer_cast is wrong', '%r %s: %s / %s' % (s, enc, got, want))
        if got[0] == 'raises':
            return ('char_pointer_cast raises', '%r %s: %s' % (s, enc, got[1]))
        p = got[1]
        if type(p) is not ctypes.POINTER(ctypes.c_char):
            return ('char_pointer_cast gives another type', '%s' % type(p))
        if '\0' in s or b'\0' in want[1]:
            return None
        for again in (0, 1):
            if self.memory(p) != want[1]:
                return ('char_pointer_cast stores other bytes', '%r %s: %s / %s' % (s, enc, self.memory(p), want[1]))
            back = outcome(lambda: cast(p, enc))
            if back != outcome(lambda: want[1].decode(enc)):
                return ('string_cast does not give the string back', '%r %s: %s' % (s, enc, back))
        raw = cast(p, None)
        if raw != want[1] or type(raw) is not bytes:
            return ('no encoding does not give the bytes', '%r %s: %s' % (s, enc, raw))
        # bytes pass through, with and without an encoding
        for e in (None, enc):
            b = make(want[1], e)
            if type(b) is not ctypes.POINTER(ctypes.c_char) or self.memory(b) != want[1]:
                return ('bytes do not pass through', '%r %s' % (want[1], e))
        if self.memory(make(string=s, encoding=enc)) != want[1] or enc == 'utf-8' and self.memory(make(s)) != want[1]:
            return ('char_pointer_cast with other arguments', '%r %s' % (s, enc))
        return None

    def do_strings(self, ns, t, enc, first):
        n = 0
        if enc is None:
            # only bytes have no need of an encoding
            got = outcome(lambda: ns['char_pointer_cast'](first or '', None))
            return None if got == ('raises', 'TypeError') else ('a string without encoding', '%s' % (got,))
        length = 3 if t == 'both' else 1
        if self.thorough:
            length += 1
        for k in range(length if first else 1):
            for rest in itertools.product(CHARS, repeat=k):
                n += 1
                r = self.one(ns, (first or '') + ''.join(rest), enc)
                if r:
                    return r
        return engine.Held((n, n, 6 * n))

    def do_long(self, ns, t):
        for n in (255, 256, 257, 4095, 4096, 65536, 1 << 20):
            for c in ('x', 'é', '\U0001f600'):
                r = self.one(ns, c * n + 'z', 'utf-8')
                if r:
                    return (r[0], '%d characters' % n)
        return None

    def do_null(self, ns, t):
        make, cast = ns['char_pointer_cast'], ns['string_cast']
        for enc in ENCODINGS:
            for e in ERRORS:
                for p in (None, 0, ctypes.c_char_p(), ctypes.c_void_p(), ctypes.POINTER(ctypes.c_char)(), ctypes.POINTER(ctypes.c_ubyte)(), ctypes.c_void_p(0)):
                    got = outcome(lambda: cast(p, enc, e))
                    if got != ('value', None):
                        return ('a null pointer is not None', '%r %s %s: %s' % (p, enc, e, got))
            got = outcome(lambda: make(None, enc))
            if got[0] == 'raises' or bool(got[1]) or type(got[1]) is not ctypes.POINTER(ctypes.c_char):
                return ('None is not a null pointer', '%s: %s' % (enc, got))
        return engine.Held((len(ENCODINGS) * 43,) * 3)

    def do_life(self, ns, t):
        """histories of two pointers: made, dropped, collected, read"""
        make, cast = ns['char_pointer_cast'], ns['string_cast']
        count = 0
        steps = ['make0', 'make1', 'copy', 'drop0', 'drop1', 'churn']
        for h in itertools.product(steps, repeat=5 if self.thorough else 4):
            slot, want = [None, None], [None, None]
            for n, op in enumerate(h):
                if op.startswith('make'):
                    i = int(op[4])
                    want[i] = 'é%d-%d' % (i, n) + 'x' * (7 * n)
                    slot[i] = make('é%d-' % i + str(n) + 'x' * (7 * n))
                elif op == 'copy':
                    slot[1], want[1] = slot[0], want[0]
                elif op.startswith('drop'):
                    slot[int(op[4])] = want[int(op[4])] = None
                else:
                    junk = [make('y' * k) for k in range(0, 60, 3)]
                    del junk
                    gc.collect(0)
                for i in (0, 1):
                    got = cast(slot[i])
                    if got != want[i]:
                        return ('a pointer does not keep its string', '%s step %d: %r / %r' % (h, n, got, want[i]))
                count += 1
        return engine.Held((count, count, 2 * count))

    def do_echo(self, ns, enc):
        """through the prototypes that the module declares"""
        d = impl.scratch()
        make, cast = ns['char_pointer_cast'], ns['string_cast']
        n = 0
        fs = {}
        for name in ('echo', 'same'):
            f = getattr(self.lib, name)
            f.argtypes, f.restype = ns[name].argtypes, ns[name].restype
            fs[name] = f
        for k in range(3):
            for s in itertools.product(CHARS, repeat=k):
                s = ''.join(s)
                try:
                    s.encode(enc)
                except UnicodeEncodeError:
                    continue
                n += 1
                p = make(s, enc)
                q = fs['echo'](p)
                if cast(q, enc) != s or not fs['same'](p, q) or not fs['same'](q, make(s, enc)) or fs['same'](p, make(s + 'a', enc)):
                    return ('C sees another string', '%r %s' % (s, enc))
        return engine.Held((n, n, 4 * n))


CHECK = C24
