"""C02: bit-fields, over all short member sequences.

State: the member sequence of one struct or union. Transition: appending one
member of the alphabet. For every state the real translator generates the
class, and every named member is read and written with boundary values over an
all-zero and an all-one image; the expected images come from gcc-compiled code
(host) or from clang's record layout (other targets).
"""
import ctypes
import itertools
import os
import subprocess

from clang import cindex

from .. import engine, impl, oracle

ANON = {'anon': ['pre', None, 'post'], 'anon2': ['pre', None, 'other', 'side', 'post'], 'deep': ['pre', None, 'side', 'other', 'post']}
BF = {'i': 'int', 'u': 'unsigned int', 'c': 'signed char', 'C': 'unsigned char', 's': 'short', 'S': 'unsigned short',
      'l': 'long', 'L': 'unsigned long', 'q': 'long long', 'Q': 'unsigned long long', 'b': '_Bool', 'h': 'char',
      'e': 'enum E', 'n': 'enum N', 't': 'T_u', 'k': 'const unsigned', 'j': 'T_e'}
SIGNED = set('icslqnh')
PLAIN = {'C': 'unsigned char %s', 's': 'short %s', 'i': 'int %s', 'q': 'long long %s', 'd': 'double %s',
         'f': 'float %s', 'p': 'int *%s', 'r': 'struct Sub %s', 'a': 'unsigned char %s[3]', 'y': 'short %s[2]',
         'e': 'enum E %s', 'b': '_Bool %s', 'S': 'unsigned short %s', 'h': 'char %s', 't': 'T_u %s'}
INTEGER_PLAIN = set('CsiqSebt')
PRE = ('enum E { E_A, E_B = 5 }; enum N { N_A = -3, N_B = 2 }; typedef unsigned int T_u; typedef enum E T_e;'
       ' struct Sub { unsigned char x; };\n')


def parse(tok):
    """token -> (type letter, width or None, unnamed)"""
    unnamed = tok.endswith('_')
    if unnamed:
        tok = tok[:-1]
    return tok[0], (int(tok[1:]) if len(tok) > 1 else None), unnamed


def members(word, prefix='m'):
    out = []
    for i, tok in enumerate(word):
        t, w, un = parse(tok)
        if w is None:
            out.append(PLAIN[t] % ('%s%d' % (prefix, i)) + ';')
        elif un or w == 0:
            out.append('%s : %d;' % (BF[t], w))
        else:
            out.append('%s %s%d : %d;' % (BF[t], prefix, i, w))
    return ' '.join(out)


def definition(kind, word, attr, tag):
    kw = 'struct' if kind == 's' else 'union'
    if attr == 'anon':      # the members sit in an anonymous record
        return 'struct %s { char pre; %s { %s }; int post; };' % (tag, kw, members(word))
    if attr == 'anon2':     # several of them, next to unnamed bit-fields
        return ('struct %s { char pre; %s { %s }; int : 5; union { int other; unsigned : 9; unsigned side : 3; }; int : 3; int post; };'
                % (tag, kw, members(word)))
    if attr == 'deep':      # one in another
        return 'struct %s { char pre; union { struct { %s { %s }; int : 2; unsigned side : 7; }; char other; }; int post; };' % (tag, kw, members(word))
    if attr == 'typedef':
        return 'typedef %s { %s } %s;' % (kw, members(word), tag)
    a = {'P': ' __attribute__((packed))', 'A8': ' __attribute__((aligned(8)))'}.get(attr, '')
    d = '%s%s %s { %s };' % (kw, a, tag, members(word))
    if attr.startswith('pack'):
        d = '#pragma pack(push, %s)\n%s\n#pragma pack(pop)' % (attr[4:], d)
    return d


def tyexpr(kind, attr, tag):
    if attr == 'typedef':
        return tag
    return ('struct ' if kind == 's' or attr in ANON else 'union ') + tag


def named(word):
    for i, tok in enumerate(word):
        t, w, un = parse(tok)
        if not un and w != 0:
            yield i, t, w


def writable(t, w):
    return w is not None or t in INTEGER_PLAIN


PROLOG = r'''
#include <stdio.h>
#include <string.h>
static void hex(const void *p, unsigned long n) { const unsigned char *b = p; for (unsigned long i = 0; i < n; i++) printf("%02x", b[i]); printf(" "); }
'''


def gcc_masks(cases):
    """gcc: for every record, size and the byte mask of every writable member."""
    src = [PROLOG, PRE]
    body = []
    for n, (_tg, kind, word, attr) in enumerate(cases):
        src.append(definition(kind, word, attr, 'R%d' % n))
        ty = tyexpr(kind, attr, 'R%d' % n)
        body.append('printf("%%lu ", (unsigned long)sizeof(%s));' % ty)
        for i, t, w in named(word):
            if not writable(t, w):
                continue
            v = '1' if t == 'b' else '-1'
            if t == 'k':
                # const members cannot be assigned: initialise instead
                body.append('{ %s r = { .m%d = -1 }; hex(&r, sizeof r); }' % (ty, i))
            else:
                body.append('{ %s r; memset(&r, 0, sizeof r); r.m%d = %s; hex(&r, sizeof r); }' % (ty, i, v))
        body.append('printf("\\n");')
    src.append('int main(void) {\n%s\nreturn 0; }' % '\n'.join(body))
    exe = os.path.join(impl.scratch(), 'masks')
    p = subprocess.run(['gcc', '-x', 'c', '-w', '-O0', '-o', exe, '-'], input='\n'.join(src), text=True,
                       capture_output=True)
    if p.returncode:
        raise RuntimeError(p.stderr[:2000])
    out = subprocess.run([exe], capture_output=True, text=True, check=True).stdout
    res = []
    for line in out.splitlines():
        f = line.split()
        res.append((int(f[0]), [int.from_bytes(bytes.fromhex(x), 'little') for x in f[1:]]))
    return res


def clang_masks(cases, opts):
    src = PRE + '\n'.join(definition(k, w, a, 'R%d' % n) for n, (_t, k, w, a) in enumerate(cases)) + '\n'
    tu = cindex.TranslationUnit.from_source('o.c', list(opts) + ['-w'], unsaved_files=[('o.c', src)])
    assert not [d for d in tu.diagnostics if d.severity > 2], [d.spelling for d in tu.diagnostics][:3]
    recs = {}

    def fields(t):
        for f in t.get_fields():
            if f.is_anonymous() and not f.is_bitfield():
                yield from fields(f.type)
            else:
                yield f
    for c in tu.cursor.get_children():
        if c.is_definition() and c.spelling[:1] == 'R' and c.kind.is_declaration():
            t = c.type
            d = {}
            for f in fields(t):
                if f.spelling:
                    d[f.spelling] = (t.get_offset(f.spelling), f)
            recs[c.spelling] = (t.get_size(), d)
    res = []
    for n, (_t, _k, word, _a) in enumerate(cases):
        size, d = recs['R%d' % n]
        ms = []
        for i, t, w in named(word):
            if not writable(t, w):
                continue
            off, f = d['m%d' % i]
            bits = f.get_bitfield_width() if f.is_bitfield() else (1 if t == 'b' else f.type.get_size() * 8)
            ms.append(((1 << bits) - 1) << off)
        res.append((size, ms))
    return res


def path_type(cls, name):
    """(type, is bit-field) of a member, through anonymous ones"""
    for f in getattr(cls, '_fields_', ()):
        if f[0] == name:
            return f[1], len(f) > 2
        if f[0] in getattr(cls, '_anonymous_', ()):
            r = path_type(f[1], name)
            if r:
                return r
    return None


def members_order(cls):
    out = []
    for f in getattr(cls, '_fields_', ()):
        if f[0].startswith('PADDING_'):
            continue
        if f[0] in getattr(cls, '_anonymous_', ()):
            out += members_order(f[1])
        else:
            out.append(f[0])
    return out


def check_class(cls, kind, word, attr, size, masks):
    if ctypes.sizeof(cls) != size:
        return 'sizeof'
    want = ['m%d' % i for i, _, _ in named(word)]
    if attr in ANON:
        a = ANON[attr]
        want = a[:1] + want + a[2:]
    # (unnamed bit-fields are kept under generated names)
    got = [n for n in members_order(cls) if not (n.startswith('_') and n[1:].isdigit())]
    if got != want:
        return 'members'
    mi = iter(masks)
    full = (1 << (8 * size)) - 1
    for i, t, w in named(word):
        if not writable(t, w):
            continue
        mask = next(mi)
        name = 'm%d' % i
        shift = (mask & -mask).bit_length() - 1
        boolean = t == 'b'
        width = 1 if boolean else bin(mask).count('1')
        if boolean and w is None:
            mask = 0xff << shift
        ftype, isbit = path_type(cls, name)
        ones = (1 << width) - 1
        # reads: every member from images with only its bits, and all but its bits
        vals = {0, 1, ones, ones >> 1, 1 << (width - 1), 0x5555555555555555 & ones, 0xaaaaaaaaaaaaaaaa & ones}
        for fill in (0, full):
            for v in vals:
                pv = v
                if t in SIGNED and v >> (width - 1):
                    pv = v - (1 << width)
                o = cls.from_buffer_copy(fill.to_bytes(size, 'little'))
                try:
                    setattr(o, name, bool(pv) if boolean else pv)
                except Exception as e:
                    return 'write:' + type(e).__name__
                img = int.from_bytes(bytes(o), 'little')
                if img != (fill & ~mask) | (v << shift):
                    return 'write' if fill == 0 else 'write-neighbour'
                o = cls.from_buffer_copy(((fill & ~mask) | (v << shift)).to_bytes(size, 'little'))
                got = getattr(o, name)
                if got != pv:
                    return 'read'
    return None


class C02(engine.Check):
    id = 'C02'
    technique = 'explicit-state bounded enumeration of bit-field member sequences, every state replayed on the real translator and compared with gcc-compiled code'
    level_note = 'exhaustive within the stated alphabets and lengths'
    batch = 60
    rule = ('state = member sequence of one struct/union over bit-field, plain, unnamed and zero-width members '
            '(BFS by length, families by attribute, nesting and target); per state every named integer member is '
            'written and read back with boundary values over all-zero and all-one images; oracle: images produced '
            'by gcc-compiled code (host), clang record layout (other targets)')
    assumptions = ['little-endian targets', 'unnamed bit-fields may appear under generated names _N',
                   'a plain member may be represented as a bit-field of its full width']

    def cases(self):
        def mk(fam, kind, word, attr='', tg='host'):
            return engine.Case('%s/%s/%s%s:%s' % (fam, tg, kind, attr and '-' + attr, ','.join(word)),
                               (tg, kind, tuple(word), attr))
        yield from self.explore(mk)

    def explore(self, mk):
        bit = lambda w: any(len(x) > 1 for x in w)
        prod = itertools.product
        w1 = ['i1', 'i3', 'i8', 'i13', 'i16', 'i24', 'i31', 'i32', 'u1', 'u7', 'u9', 'u17', 'u32', 'C1', 'C4', 'C8', 'c3', 's5',
              'S9', 'S16', 'l33', 'L40', 'L64', 'Q64', 'q12', 'b1', 'e3', 'n3', 't7', 'h5', 'k6', 'j4']
        pl = ['C', 's', 'i', 'q', 'd', 'p', 'e', 'b', 'f']
        unn = ['i0', 'C0', 'q0', 'i3_', 'u20_', 'C8_']
        if self.thorough:
            w1 = sorted(set(w1) | {'i%d' % n for n in range(1, 33)} | {'Q%d' % n for n in (2, 8, 31, 33, 48, 63)}
                        | {'C%d' % n for n in range(1, 9)} | {'S%d' % n for n in (1, 8, 10, 15)} | {'n2', 'n32', 'e32', 'b1'})
            pl = pl + ['S', 't']
        for n in (1, 2):
            for w in prod(w1 + pl + unn, repeat=n):
                if bit(w):
                    yield mk('seq', 's', w)
                    if n == 1 or self.thorough or w[0] in ('i3', 'u17', 'C', 'L40', 'C4'):
                        yield mk('seq', 'u', w)
        a3 = ['u1', 'i8', 'u17', 'S9', 'C4', 'L40', 'C', 'i', 's', 'i0', 'i5_', 'b1', 'n3']
        if self.thorough:
            a3 += ['Q33', 'C7', 'i23', 'i32', 'q', 'C0', 'd', 'e2', 'l20', 'h3', 'p']
        for w in prod(a3, repeat=3):
            if bit(w):
                yield mk('seq', 's', w)
        a4 = ['u1', 'i9', 'u23', 'C', 's', 'C5', 'L40'] if self.thorough else ['u1', 'i9', 'u23', 'C', 'C5']
        for w in prod(a4, repeat=4):
            if bit(w):
                yield mk('seq', 's', w)
        for w in prod(['u4', 'i12', 'C', 'u23', 's'] if self.thorough else ['u4', 'i13', 'C'], repeat=5):
            if bit(w):
                yield mk('seq', 's', w)
        # attributes and nesting
        small = ['u1', 'i7', 'u9', 'S9', 'C4', 'L40', 'i24', 'C', 's', 'i', 'i0', 'b1']
        for attr in ('P', 'A8', 'pack1', 'pack2', 'pack4', 'anon', 'typedef'):
            for n in (1, 2) + ((3,) if self.thorough and attr != 'pack1' else ()):
                for w in prod(small, repeat=n):
                    if bit(w) and w != ('i0',):
                        yield mk('attr', 's', w, attr)
        for w in prod(['u1', 'i7', 'S9', 'C4', 'C', 'i'], repeat=3):
            if bit(w) and not self.thorough:
                yield mk('attr', 's', w, 'P')
        for attr in ('P', 'anon', 'typedef'):
            for w in prod(small, repeat=2):
                if bit(w):
                    yield mk('attr', 'u', w, attr)
        for attr in ('anon2', 'deep'):
            for kind in 'su':
                for n in (1, 2, 3) if self.thorough else (1, 2):
                    for w in prod(small if kind == 's' else ['u1', 'i7', 'S9', 'C', 'i', 'i5_'], repeat=n):
                        if bit(w) and any(True for _ in named(w)):
                            yield mk('attr', kind, w, attr)
        # neighbours that are no integers
        for n in (2, 3):
            for w in prod(['u3', 'i20', 'C8', 'r', 'a', 'y', 'd', 'h'] if n == 2 else ['u3', 'i20', 'r', 'a'], repeat=n):
                if bit(w):
                    yield mk('agg', 's', w)
        # targets
        tgs = ['i386-linux', 'arm', 'aarch64', 'x86_64-windows', 'x32', 'riscv32']
        ct = ['u1', 'i8', 'u17', 'S9', 'C4', 'Q33', 'L20', 'C', 's', 'i', 'q', 'i0', 'b1', 'n3', 'i5_']
        for tg in tgs:
            for n in (1, 2) + ((3,) if self.thorough else ()):
                for w in prod(ct, repeat=n):
                    if bit(w):
                        yield mk('tgt', 's', w, '', tg)
            for w in prod(ct[:8], repeat=2):
                if bit(w):
                    yield mk('tgt', 'u', w, '', tg)
                    if tg in ('i386-linux', 'x86_64-windows', 'arm') or self.thorough:
                        for attr in ANON:
                            yield mk('tgt', 's', w, attr, tg)

    def group(self, case):
        return case.payload[0]

    def run_batch(self, cases):
        tg = cases[0].payload[0]
        opts = oracle.TARGETS[tg]
        P = [c.payload for c in cases]
        masks = gcc_masks(P) if tg == 'host' else clang_masks(P, opts)
        text = PRE + '\n'.join(definition(k, w, a, 'R%d' % n) for n, (_t, k, w, a) in enumerate(P)) + '\n'
        try:
            out = impl.gen(text, opts)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-1500:]))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + impl.strip_text(out)[-3000:]))
        res = []
        for n, ((_t, kind, word, attr), (size, m)) in enumerate(zip(P, masks)):
            cls = ns.get('R%d' % n if attr == 'typedef' else
                         ('struct_' if kind == 's' or attr in ANON else 'union_') + 'R%d' % n)
            try:
                bad = 'class missing' if cls is None else check_class(cls, kind, word, attr, size, m)
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            res.append(None if bad is None else (bad, '%s\n%s' % (definition(kind, word, attr, 'R'),
                                                                  getattr(cls, '_fields_', None))))
        return res

    def stats(self, case):
        return (1, 1, 28 * sum(1 for _ in named(case.payload[2])))


CHECK = C02
