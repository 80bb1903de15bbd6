"""C06: function bindings, over all prototypes of a bounded shape.

State: a prototype (return type, parameter types). Transition: one more
parameter. Every state is compiled into a shared library whose functions check
the values they receive and return chosen ones; the real translator binds the
declaration to that library, the binding is compared with the prototype term
and called with every row of boundary values.
"""
import ctypes
import itertools
import os
import re
import subprocess

from .. import cgen, engine, impl, oracle

B = lambda s: ('b', s)
INF = float('inf')

PRELUDE = '''struct S0 { char sc; short ss; };
struct W0 { long w[4]; char t; };
struct G0 { int ga; double gd; char *gp; };
struct H0 { float hf; double hd; };
struct Q0 { float qx; float qy; };
struct N0 { char nc; double nd; };
union U0 { char uc; int ui; };
enum E0 { E0_A, E0_B = 7, E0_C = 70000 };
enum E1 { E1_A = -3, E1_B = 2147483647 };
struct O0;
typedef short T0; typedef char *TP0; typedef int TA0[2]; typedef int (*TF0)(char); typedef struct S0 TS0;
typedef unsigned char uint8_t; typedef unsigned long my_size; typedef enum E0 TE0; typedef TS0 *TSP0;
typedef double TD0(int);
'''
TYPEDEFS = {'T0': B('short'), 'TP0': ('p', B('char')), 'TA0': ('a', B('int'), 2),
            'TF0': ('p', ('f', B('int'), (B('char'),))), 'TS0': ('s', 'S0'), 'uint8_t': B('unsigned char'),
            'my_size': B('unsigned long'), 'TE0': ('e', 'E0'), 'TSP0': ('p', ('s', 'S0')),
            'TD0': ('f', B('double'), (B('int'),))}
# key: type, C expressions of the three values
INT = {'a': ('signed char', 8, 1), 'h': ('unsigned char', 8, 0), 's': ('short', 16, 1), 't': ('unsigned short', 16, 0),
       'i': ('int', 32, 1), 'j': ('unsigned int', 32, 0), 'l': ('long', 64, 1), 'm': ('unsigned long', 64, 0),
       'x': ('long long', 64, 1), 'y': ('unsigned long long', 64, 0)}
TYPES, CVAL, PYVAL = {}, {}, {}
for _k, (_t, _b, _s) in INT.items():
    TYPES[_k] = B(_t)
    PYVAL[_k] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1, -2) if _s else ((1 << _b) - 1, 1 << (_b - 1), 5)
    CVAL[_k] = tuple('(%s)%s' % (_t, ('(%dll-1)' % (v + 1)) if v < 0 else '%dull' % v) for v in PYVAL[_k])
for _k, _t, _c, _p in (
        ('c', B('char'), ("'a'", '(char)0', '(char)255'), (b'a', b'\0', b'\xff')),
        ('b', B('_Bool'), ('1', '0', '1'), (True, False, True)),
        ('f', B('float'), ('1.5f', '-0.25f', '3.0e38f'), (1.5, -0.25, ctypes.c_float(3.0e38).value)),
        ('d', B('double'), ('1.5e300', '-0.1', '0.0'), (1.5e300, -0.1, 0.0)),
        ('D', B('long double'), ('1.5L', '-0.25L', '(long double)1e300'), (1.5, -0.25, 1e300)),
        ('E', ('e', 'E0'), ('E0_A', 'E0_B', 'E0_C'), (0, 7, 70000)),
        ('e', ('e', 'E1'), ('E1_A', 'E1_B', '(enum E1)5'), (-3, 2147483647, 5)),
        ('T', ('t', 'T0'), ('(-32768)', '32767', '-2'), (-32768, 32767, -2)),
        ('8', ('t', 'uint8_t'), ('255', '128', '1'), (255, 128, 1)),
        ('M', ('t', 'my_size'), ('~0ul', '1ul<<63', '1'), ((1 << 64) - 1, 1 << 63, 1)),
        ('Z', ('t', 'TE0'), ('E0_A', 'E0_B', 'E0_C'), (0, 7, 70000)),
        ('k', ('q', 'const', B('int')), ('-1', '2147483647', '7'), (-1, 2147483647, 7))):
    TYPES[_k], CVAL[_k], PYVAL[_k] = _t, _c, _p
# records by value: expressions over global objects, and their members
REC = {'S': ('S0', ('sc', 'ss'), ((b'a', -32768), (b'\0', 32767), (b'\xff', -2))),
       'W': ('W0', ('w', 't'), (((1, -2, 3, -4), b'z'), ((0, 0, 0, 0), b'\0'), ((1 << 62, -1, 7, 8), b'a'))),
       'G': ('G0', ('ga', 'gd'), ((5, 0.5), (-1, -2.5), (2147483647, 1e300))),
       'H': ('H0', ('hf', 'hd'), ((1.5, 2.5), (-0.25, 1e300), (0.0, -1.0))),
       'Q': ('Q0', ('qx', 'qy'), ((1.5, 2.5), (-0.25, 4.0), (0.0, -1.0))),
       'N': ('N0', ('nc', 'nd'), ((b'a', 2.5), (b'\0', 1e300), (b'\xff', -1.0))),
       'R': ('S0', ('sc', 'ss'), ((b'a', -32768), (b'\0', 32767), (b'\xff', -2)))}
for _k, (_n, _m, _v) in REC.items():
    TYPES[_k] = ('t', 'TS0') if _k == 'R' else ('s', _n)


def clit(v):
    if isinstance(v, bytes):
        return '(char)%d' % v[0]
    if isinstance(v, tuple):
        return '{' + ','.join(clit(x) for x in v) + '}'
    return repr(v)


# pointers: (type, pointee global array element)
PTR = {'p': ('p', B('int')), '1': ('p', B('char')), 'K': ('p', ('q', 'const', B('char'))), 'v': ('p', B('void')),
       'P': ('p', ('s', 'S0')), 'o': ('p', ('s', 'O0')), 'u': ('p', ('u', 'U0')), 'I': ('p', ('p', B('int'))),
       'J': ('p', ('a', B('int'), 2)), 'V': ('t', 'TP0'), 'X': ('t', 'TSP0'), 'w': ('p', B('double')),
       'B': ('p', ('p', ('q', 'const', B('char')))), 'L': ('p', B('long double')),
       # arrays and functions as parameters
       '3': ('a', B('int'), 3), '0': ('a', B('char'), None), 'A': ('t', 'TA0'), '5': ('a', ('a', B('int'), 2), 3),
       '6': ('a', ('s', 'S0'), 2), '7': ('a', ('p', B('char')), None)}
ARR = '30A567'
FN = {'F': ('p', ('f', B('int'), (B('char'),))), 'Y': ('t', 'TF0'), 'g': ('f', B('int'), (B('char'),)),
      'z': ('p', ('f', B('void'), ())), 'q': ('p', ('f', B('double'), (B('double'), ('p', B('int'))))),
      'C': ('p', ('f', ('p', B('void')), (('p', ('s', 'S0')),))), 'n': ('t', 'TD0')}
# callbacks of all signatures over an alphabet, by a character of their own
CB = {}
CBA = {'i': B('int'), 'p': ('p', B('int')), 'c': B('char'), '1': ('p', B('char')), 'S': ('s', 'S0'), 'P': ('p', ('s', 'S0')),
       'd': B('double'), 'w': ('p', B('double')), 'v': ('p', B('void')), 'I': ('p', ('p', B('int'))), 'E': ('e', 'E0'), 'T': ('t', 'T0'),
       'F': ('p', ('f', B('int'), (B('char'),))), 'K': ('p', ('q', 'const', B('char'))), 'X': ('t', 'TSP0')}
CBR = {'-': B('void'), 'i': B('int'), 'p': ('p', B('int')), 'P': ('p', ('s', 'S0')), 'd': B('double'), 'E': ('e', 'E0'), 'F': CBA['F']}


def _cb(r, ps):
    k = chr(0x4e00 + len(CB))
    CB[k] = '%s(%s)' % (r, ps)
    FN[k] = ('p', ('f', CBR[r], tuple(CBA[x] for x in ps)))
    return k


CB1 = [_cb(r, p) for r in CBR for p in CBA]
CB2 = [_cb('i', a + b) for a in CBA for b in CBA]
CB3 = [_cb('i', a + b + c) for a in 'ipcPdF' for b in 'ipcPdF' for c in 'ipcPdF']
CB4 = [_cb(r, a + b) for r in CBR for a in CBA for b in CBA if r != 'i']
TYPES.update(PTR)
TYPES.update(FN)
NOCALL_FN = 'zqCn' + ''.join(CB)
NORET = ARR + 'gn'
SUPPORT = '''int mc_sel; int mc_ok; char mc_mem[256];
static int fn_a(char c) { return c + 1; } static int fn_b(char c) { return c - 1; } static int fn_c(char c) { return 99; }
typedef int (*mc_fn)(char); mc_fn mc_fns[3] = { fn_a, fn_b, fn_c };
'''
for _k, (_n, _m, _v) in REC.items():
    SUPPORT += 'struct %s mc_rec_%s[3] = { %s };\n' % (_n, _k, ', '.join(clit(x) for x in _v))


def conv(t, k, name):
    """a check on parameter `name` of kind k for row r"""
    if k in CVAL:
        return '(%s)' % ' || '.join('(mc_r == %d && %s == %s)' % (i, name, v) for i, v in enumerate(CVAL[k]))
    if k in REC:
        _, members, vals = REC[k]
        out = []
        for i, row in enumerate(vals):
            cond = ['mc_r == %d' % i]
            for m, v in zip(members, row):
                if isinstance(v, tuple):
                    cond += ['%s.%s[%d] == %s' % (name, m, j, clit(x)) for j, x in enumerate(v)]
                else:
                    cond.append('%s.%s == %s' % (name, m, clit(v)))
            out.append('(%s)' % ' && '.join(cond))
        return '(%s)' % ' || '.join(out)
    if k in PTR:
        return '((char *)%s == (mc_r == 2 ? (char *)0 : mc_mem + 16 * (mc_r + 1)))' % name
    return '(mc_r == 2 ? !%s : (void *)%s == (void *)mc_fns[mc_r])' % (name, name)


def retval(t, k, r='mc_sel'):
    if k in CVAL:
        return '%s == 0 ? %s : %s == 1 ? %s : %s' % ((r, CVAL[k][0], r) + CVAL[k][1:])
    if k in REC:
        return 'mc_rec_%s[%s]' % (k, r)
    if k in PTR:
        return '(%s == 2 ? (void *)0 : (void *)(mc_mem + 16 * (%s + 1)))' % (r, r)
    return '(%s == 2 ? (void *)0 : (void *)mc_fns[%s])' % (r, r)


FORMS = {
    'plain': '%s;', 'extern': 'extern %s;', 'twice': '%s; extern %s;', 'attr': '__attribute__((visibility("default"))) %s;',
    'nothrow': '%s __attribute__((nothrow));', 'def': '%s { extern void abort(void); abort(); }',
    'unnamed': '%s;', 'inline': 'inline %s;', 'noreturn': '%s;', 'decl2': 'char mc_nb@, *mc_nc@; %s, *mc_nd@;',
}


class C06(engine.Check):
    id = 'C06'
    technique = 'explicit-state enumeration of prototypes, every state bound by the real translator to a compiled library and called'
    level_note = 'exhaustive within the stated type alphabets, arity and value rows'
    batch = 60
    rule = ('state = C prototype (return type, parameter types; BFS by arity) in a declaration form; each is compiled '
            'into a library that checks what it receives; oracle: the type term for the binding and the C code for the '
            'calls with three rows of boundary values')
    assumptions = ['records passed by value hold no unions and no bit-fields (ctypes does not support these)',
                   'calls are made for the host ABI; prototypes of other targets are compared without calling']

    def cases(self):
        allk = [k for k in TYPES if k not in CB]
        ret = ['-'] + [k for k in allk if k not in NORET]

        def mk(tg, form, r, ps, var=''):
            ps = ''.join(ps)
            name = ','.join('{%s}' % CB[k] for k in ps) if any(k in CB for k in ps) else ps
            return engine.Case('%s/%s/%s(%s%s)' % (tg, form, CB.get(r, r), name, var), (tg, form, r, ps, var))
        for r in ret:
            yield mk('host', 'plain', r, '')
        for r in ret:
            for p in allk:
                yield mk('host', 'plain', r, p)
        for a, b in itertools.product(allk, repeat=2):
            yield mk('host', 'plain', 'i', a + b)
        sub = 'cildfSQpKF3E' if not self.thorough else 'cbhiltjldfDSQNGpKvF3Eg0X8'
        sub = ''.join(dict.fromkeys(sub))
        for ps in itertools.product(sub, repeat=3):
            yield mk('host', 'plain', 'l' if 'd' in ps else 'd', ps)
        for ps in itertools.product('clfdSp' if not self.thorough else 'clifdSNpQ', repeat=4):
            yield mk('host', 'plain', 'i', ps)
        for base in ('i', 'd', 'c', 'S', 'f', 'p', 'D', 'W', 'G'):
            for n in (6, 7, 8, 9, 10, 12):
                yield mk('host', 'plain', 'l', base * n)
                for other in 'dcSpl':
                    if n % 2 == 0 and base != other:
                        yield mk('host', 'plain', 'S', (base + other) * (n // 2))
                    if other != base or n % 2:
                        yield mk('host', 'plain', 'd', base * (n - 1) + other)
        # callbacks of all signatures, as a parameter and as the result
        for k in CB1 + CB2 + (CB3 + CB4 if self.thorough else []):
            yield mk('host', 'plain', 'i', k)
            if k in CB1 or self.thorough:
                yield mk('host', 'plain', k, '')
                yield mk('i386-linux', 'plain', 'i', k)
        # variadic functions: the fixed part
        for r in ('i', '-', 'p', 'd'):
            for n in (1, 2):
                for ps in itertools.product('iKpdlFS', repeat=n):
                    yield mk('host', 'plain', r, ps, ',...')
        # no prototype
        for r in ret:
            yield mk('host', 'plain', r, '', '?')
        # declaration forms
        for form in FORMS:
            if form == 'plain':
                continue
            for r in ('-', 'i', 'd', 'p', 'S', 'F', 'K', 'E', 'T'):
                for n in (0, 1, 2):
                    for ps in itertools.product('idpSF3KT' if n < 2 or self.thorough else 'dpF', repeat=n):
                        yield mk('host', form, r, ps)
        # parameter spellings
        for sp in SPELL:
            for pos in range(3):
                yield engine.Case('host/spell/%s/%d' % (sp, pos), ('host', 'spell', sp, pos, ''))
        # tags and other declarations of one name
        for tag in ('struct', 'union'):
            for o in SAME:
                for order in ('ot', 'to', 'fot', 'o', 'tof'):
                    yield engine.Case('host/same/%s/%s/%s' % (tag, o, order), ('host', 'same', tag, (o, order), ''))
        # not exported by the listed library
        for nm in ABSENT:
            for r in ('i', 'p', 'd', '-', 'S'):
                for ps in ('', 'i', 'pi', 'S', 'FK'):
                    yield engine.Case('host/absent/%s/%s(%s)' % (nm, r, ps), ('host', 'absent', nm, (r, ps), ''))
        # other targets: the prototype only
        tgs = ('i386-linux', 'x86_64-windows', 'arm', 'avr') + (('i686-windows', 'x32', 'aarch64', 'm68k', 'mips', 'riscv32') if self.thorough else ())
        for tg in tgs:
            for r in ret:
                for p in allk:
                    if self.thorough or r in 'ilpSF-' or p in 'iplSF':
                        yield mk(tg, 'plain', r, p)
            for a, b in itertools.product(allk, repeat=2):
                if self.thorough or b in 'dFp':
                    yield mk(tg, 'plain', 'i', a + b)

    def stats(self, case):
        p = case.payload
        n = len(p[3]) if isinstance(p[3], str) else 100 if p[1] == 'same' else 1
        return (1, 1 + n, (n + 2) * (4 if p[0] == 'host' else 1))

    def group(self, case):
        p = case.payload
        return (p[0], p[1] if p[1] in ('spell', 'absent', 'same') else '')

    # ------------------------------------------------------------------
    def proto(self, i, payload):
        """-> declaration text, type term of the function, params"""
        tg, form, r, ps, var = payload
        name = 'fn%d' % i
        rt = B('void') if r == '-' else TYPES[r]
        params = [TYPES[k] for k in ps]
        pl = ', '.join(cgen.decl(t, '' if form == 'unnamed' else 'par%d' % n) for n, t in enumerate(params))
        if var == ',...':
            pl += ', ...'
        elif not ps:
            pl = '' if var == '?' else 'void'
        d = cgen.decl(rt, '%s(%s)' % (name, pl))
        return name, d, rt, params

    def run_batch(self, cases):
        p0 = cases[0].payload
        if p0[1] == 'spell':
            return [self.run_spell(c) for c in cases]
        if p0[1] == 'same':
            return [self.run_same(c) for c in cases]
        if p0[1] == 'absent':
            return [self.run_absent(c) for c in cases]
        tg = p0[0]
        target = oracle.target(tg)
        head, body, items = [PRELUDE], [PRELUDE, SUPPORT], []
        for i, c in enumerate(cases):
            _, form, r, ps, var = c.payload
            name, d, rt, params = self.proto(i, c.payload)
            f = FORMS[form]
            head.append(f.replace('%s', d).replace('@', str(i)))
            if tg == 'host':
                pl = ', '.join(cgen.decl(t, 'par%d' % n) for n, t in enumerate(params)) or 'void'
                if var == ',...':
                    pl += ', ...'
                body.append('%s { int mc_r = 0; mc_ok = 1;' % cgen.decl(rt, '%s(%s)' % (name, pl)))
                for n, k in enumerate(ps):
                    body.append(' mc_r = (mc_sel + %d) %% 3; mc_ok &= %s;' % (n, conv(params[n], k, 'par%d' % n)))
                if r != '-':
                    body.append(' return %s;' % retval(rt, r))
                body.append('}\n')
            items.append((name, rt, params, r, ps, var))
        src = '\n'.join(head) + '\n'
        lib = None
        libs = []
        if tg == 'host':
            lib = self.compile(''.join(x if x.endswith('\n') else x for x in body))
            libs = [lib]
        try:
            try:
                out = impl.gen(src, target.opts, searched_dlls=self.libs(libs))
            except Exception as e:
                raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + '\n'.join(head[1:])[-1500:]))
            try:
                ns = impl.load(out)
            except Exception as e:
                raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + impl.strip_text(out)[-3000:]))
            cdll = ctypes.CDLL(lib) if lib else None
            env = cgen.Env(ns, target, TYPEDEFS)
            res = []
            for i, it in enumerate(items):
                try:
                    bad = self.compare(ns, env, it, cdll)
                except Exception as e:
                    bad = ('use:' + impl.exc_sig(e), impl.tb(e))
                if bad:
                    if isinstance(bad, str):
                        bad = (bad, '')
                    bad = (bad[0], '%s\n%s\n%s' % (head[i + 1], bad[1], '\n'.join(
                        l for l in out.splitlines() if re.search(r'\bfn%d\b' % i, l))))
                res.append(bad or None)
            return res
        finally:
            if lib:
                os.unlink(lib)

    _n = 0

    def compile(self, text):
        C06._n += 1
        so = os.path.join(impl.scratch(), 'lib%d.so' % C06._n)
        p = subprocess.run(['gcc', '-w', '-O0', '-shared', '-fPIC', '-x', 'c', '-o', so, '-'], input=text,
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('harness library: ' + p.stderr[:2000] + text[-2000:])
        return so

    @staticmethod
    def libs(paths):
        from ctypeslib.library import Library
        return [Library(p, nm='nm') for p in paths]

    def compare(self, ns, env, it, cdll):
        name, rt, params, r, ps, var = it
        if name not in ns:
            return 'function missing'
        if name not in ns['__all__']:
            return 'function not exported'
        fn = ns[name]
        b = cgen.match(fn.restype, rt, env)
        if b:
            return 'restype ' + b
        args = fn.argtypes
        if args is None:
            return 'argtypes not set'
        if len(args) != len(params):
            return 'argument count %d not %d' % (len(args), len(params))
        for n, (a, t) in enumerate(zip(args, params)):
            b = cgen.match(a, t, env, param=True)
            if b:
                return 'arg%d %s: %s' % (n, ps[n], b)
        if cdll is None:
            return None
        if ctypes.cast(fn, ctypes.c_void_p).value != ctypes.cast(cdll[name], ctypes.c_void_p).value:
            return 'bound to another symbol'
        sel = ctypes.c_int.in_dll(cdll, 'mc_sel')
        ok = ctypes.c_int.in_dll(cdll, 'mc_ok')
        mem = ctypes.addressof(ctypes.c_char.in_dll(cdll, 'mc_mem'))
        fns = (ctypes.c_void_p * 3).in_dll(cdll, 'mc_fns')
        if any(k in NOCALL_FN for k in ps):
            rows = (2,) if len(ps) == 1 else ()
        else:
            rows = (0, 1, 2)
        for row in rows:
            sel.value = row
            ok.value = 9
            vals = []
            for n, k in enumerate(ps):
                q = (row + n) % 3
                if k in NOCALL_FN:
                    if q != 2:
                        q = 2
                        sel.value = (2 - n) % 3
                    vals.append(ctypes.cast(None, fn.argtypes[n]))
                else:
                    vals.append(self.pyval(ns, k, q, fn.argtypes[n], mem, fns))
            got = fn(*vals)
            if ok.value != 1:
                return 'arguments changed'
            b = self.retcheck(ns, r, sel.value, got, mem, fns)
            if b:
                return 'return: ' + b
        return None

    def pyval(self, ns, k, q, argtype, mem, fns):
        if k in CVAL:
            return PYVAL[k][q]
        if k in REC:
            n, members, vals = REC[k]
            obj = ns['struct_' + n]()
            for m, v in zip(members, vals[q]):
                if isinstance(v, tuple):
                    for j, x in enumerate(v):
                        getattr(obj, m)[j] = x
                else:
                    setattr(obj, m, v)
            return obj
        if k in PTR:
            addr = None if q == 2 else mem + 16 * (q + 1)
            return ctypes.cast(addr, argtype)
        return ctypes.cast(None if q == 2 else fns[q], argtype)

    def retcheck(self, ns, r, q, got, mem, fns):
        if r == '-':
            return None if got is None else 'void returned %r' % (got,)
        if r in CVAL:
            want = PYVAL[r][q]
            return None if got == want and (type(got) is type(want)) else 'got %s' % type(got).__name__
        if r in REC:
            n, members, vals = REC[r]
            if type(got) is not ns['struct_' + n]:
                return 'type %s' % type(got).__name__
            for m, v in zip(members, vals[q]):
                g = getattr(got, m)
                g = tuple(g) if isinstance(v, tuple) else g
                if g != v:
                    return 'member %s' % m
            return None
        a = ctypes.cast(got, ctypes.c_void_p).value
        if r in PTR:
            return None if a == (None if q == 2 else mem + 16 * (q + 1)) else 'pointer'
        if a != (None if q == 2 else fns[q]):
            return 'function pointer'
        if a and r in 'FY' and got(b'd') != {0: 101, 1: 99}[q]:
            return 'callable'
        return None

    # ------------------------------------------------------------------
    def run_spell(self, case):
        _, _, sp, pos, _ = case.payload
        decl, t = SPELL[sp]
        ps = ['int pa', 'double pb']
        ts = [B('int'), B('double')]
        ps.insert(pos, decl)
        ts.insert(pos, t)
        src = PRELUDE + 'int fn0(%s);\nint fn1(int);\n' % ', '.join(ps)
        try:
            ns = impl.load(impl.gen(src))
            env = cgen.Env(ns, oracle.target('host'), TYPEDEFS)
            fn = ns['fn0']
            if len(fn.argtypes) != 3:
                return ('argument count %d' % len(fn.argtypes), src)
            for n, (a, x) in enumerate(zip(fn.argtypes, ts)):
                b = cgen.match(a, x, env, param=True)
                if b:
                    return ('arg%d: %s' % (n, b), src)
            if [cgen.match(a, B('int'), env) for a in ns['fn1'].argtypes] != [None]:
                return ('neighbour', src)
        except Exception as e:
            return ('fails:' + impl.exc_sig(e), src[len(PRELUDE):] + impl.tb(e))
        return None

    def run_same(self, case):
        _, _, tag, (o, order), _ = case.payload
        text, what = SAME[o]
        forms = ['%s n' % tag, '%s n *' % tag, '%s n **' % tag, 'const %s n *' % tag] + (['n', 'n *', 'const n *'] if what == 'type' else [])
        if 't' not in order:
            forms.remove('%s n' % tag)
            if o == 'itself':
                forms.remove('n')
        ts = {'o': text.replace('TAG', tag), 't': '%s n { long x, y; };' % tag, 'f': '%s n;' % tag}
        src = 'struct m { char c[3]; };\n%s\n' % '\n'.join(ts[c] for c in order)
        fns = []
        for a in forms:
            fns.append(('void', [a], 'x'))
            fns.append((a, [], 'x'))
            fns.append(('int', [a], 'n'))
            for b in forms:
                fns.append((b, [a, b], 'x'))
        for i, (r, ps, last) in enumerate(fns):
            src += '%s f%d(%s);\n' % (r, i, ', '.join('%s %s' % (q, last if j == len(ps) - 1 else 'x%d' % j) for j, q in enumerate(ps)) or 'void')
        try:
            ns = impl.load(impl.gen(src))
        except Exception as e:
            return ('fails:' + impl.exc_sig(e), src[:400] + impl.tb(e))
        rec = ns['%s_n' % tag]
        if 't' in order and (not issubclass(rec, ctypes.Structure if tag == 'struct' else ctypes.Union) or [f[0] for f in rec._fields_ if f[0] in 'xy'] != ['x', 'y']):
            return ('another record', src[:400])
        if what == 'type' and not (ns['n'] is {'itself': rec, 'other': ns['struct_m'], 'int': ctypes.c_int32}.get(o, ns['n'])):
            return ('another typedef', src[:400])
        if what == 'type' and o in ('pointer', 'own pointer') and ns['n'] is not ctypes.POINTER(ctypes.c_char if o == 'pointer' else rec):
            return ('another typedef', src[:400])

        def type_of(form):
            t = rec if ' n' in form.replace('const n', 'n') else ns['n']
            for _ in range(form.count('*')):
                t = ctypes.POINTER(t)
            return t
        for i, (r, ps, last) in enumerate(fns):
            fn = ns['f%d' % i]
            want = [type_of(q) for q in ps]
            if len(fn.argtypes) != len(ps) or any(a is not b for a, b in zip(fn.argtypes, want)):
                return ('argument of another type', '%s\n%s f(%s): %s' % (src[:400], r, ps, fn.argtypes))
            if r not in ('void', 'int') and fn.restype is not type_of(r):
                return ('result of another type', '%s\n%s f(%s): %s' % (src[:400], r, ps, fn.restype))
        return None

    def run_absent(self, case):
        _, _, nm, (r, ps), _ = case.payload
        d = self.proto(0, ('host', 'plain', r, ps, ''))
        src = PRELUDE + d[1].replace('fn0', nm) + ';\nint fn1(int);\n'
        lib = self.compile(PRELUDE + 'int fn1(int x) { return x + 1; }\nint mc_other(void) { return 3; }\n')
        try:
            for libs in ([], [lib]):
                out = impl.gen(src, ['-fno-builtin'], searched_dlls=self.libs(libs))
                ns = impl.load(out)
                fn = ns[nm]
                if isinstance(fn, ctypes._CFuncPtr) or 'CDLL' in str(type(fn)):
                    return ('bound although no listed library exports it', src + impl.strip_text(out)[-1500:])
                if libs and ns['fn1'](4) != 5:
                    return ('neighbour', src)
                env = cgen.Env(ns, oracle.target('host'), TYPEDEFS)
                if cgen.match(fn.restype, d[2], env) or [cgen.match(a, t, env, param=True) for a, t in zip(fn.argtypes, d[3])] != [None] * len(ps):
                    return ('prototype', src)
        except Exception as e:
            return ('fails:' + impl.exc_sig(e), src[len(PRELUDE):] + impl.tb(e))
        finally:
            os.unlink(lib)
        return None


PI = ('p', B('int'))
SPELL = {
    'register': ('register int x', B('int')), 'const': ('const int x', B('int')), 'volatile': ('volatile short x', B('short')),
    'arr': ('int x[3]', PI), 'arr0': ('int x[]', PI), 'static3': ('int x[static 3]', PI), 'const3': ('int x[const 3]', PI),
    'star': ('int x[*]', PI), 'vla': ('int x[pz]'.replace('pz', 'sizeof(int)'), PI), 'restrict': ('int * restrict x', PI),
    'constptr': ('int * const x', PI), 'constarr': ('const int x[2]', PI), 'arr2': ('int x[2][3]', ('p', ('a', B('int'), 3))),
    'arr2i': ('int x[][3]', ('p', ('a', B('int'), 3))), 'fn': ('int x(char)', ('p', ('f', B('int'), (B('char'),)))),
    'fnunnamed': ('int (char)', ('p', ('f', B('int'), (B('char'),)))), 'fnp': ('int (*x)(char)', ('p', ('f', B('int'), (B('char'),)))),
    'fnarr': ('int (*x[2])(char)', ('p', ('p', ('f', B('int'), (B('char'),))))), 'fnret': ('int (*(*x)(char))(short)', ('p', ('f', ('p', ('f', B('int'), (B('short'),))), (B('char'),)))),
    'implicit': ('unsigned x', B('unsigned int')), 'longint': ('long int unsigned x', B('unsigned long')), 'attr': ('int x __attribute__((unused))', B('int')),
    'parr': ('int (*x)[4]', ('p', ('a', B('int'), 4))), 'tagptr': ('struct S0 *x', ('p', ('s', 'S0'))), 'tag': ('struct S0 x', ('s', 'S0')),
    'uni': ('union U0 x', ('u', 'U0')), 'enum': ('enum E0 x', ('e', 'E0')), 'paren': ('int (x)', B('int')), 'ptrparr': ('char *x[]', ('p', ('p', B('char')))),
    'typeof': ('__typeof__(int *) x', PI), 'fnarg_arr': ('void (*x)(int q[3])', ('p', ('f', B('void'), (('a', B('int'), 3),)))),
    'fnarg_fn': ('void (*x)(int q(char))', ('p', ('f', B('void'), (('f', B('int'), (B('char'),)),)))),
    'vptr': ('volatile void *x', ('p', B('void'))), 'TAarr': ('TA0 x[3]', ('p', ('a', B('int'), 2))), 'TDptr': ('TD0 *x', ('p', ('f', B('double'), (B('int'),)))),
    'opaque_new': ('struct NEWTAG *x', ('p', ('s', 'NEWTAG'))),
}
SAME = {'none': ('', ''), 'int': ('typedef int n;', 'type'), 'pointer': ('typedef char *n;', 'type'), 'other': ('typedef struct m n;', 'type'),
        'own pointer': ('typedef TAG n *n;', 'type'), 'itself': ('typedef TAG n n;', 'type'), 'variable': ('int n;', ''), 'own variable': ('extern TAG n n;', ''),
        'function': ('int n(int);', ''), 'own function': ('int n(TAG n *n);', ''), 'constant': ('enum { n = 3 };', ''), 'constant of a tag': ('enum en { n = 3, k };', ''),
        'macro': ('#define k n', ''), 'member': ('struct k { int n; TAG n *m; };', '')}
ABSENT = ('nothere', 'abs', 'malloc', 'strlen', 'fn2', 'mc_othe', 'printf', '_init', '_edata')
CHECK = C06
