"""C08: macro constants, over all bodies of a bounded token length and all
short histories of definitions.

State: the token sequence of a macro body (or a history of #define/#undef
lines). Every state is translated with macro parsing on; the value of each
exported name is compared with the value gcc computes for the macro at the end
of the source.
"""
import itertools
import os
import re
import struct
import subprocess

from .. import engine, impl
from . import c07

STR = ('a', ' ', '\\"', '\\n', '\\\\', '\\0', '\\x41', '\\101', '\u00e9', "'", '%', '\\t', '#', '//', '/*', ';', '{', ',', '(', ')', '\\?', '\\e', '0', 'L', 'u')
TOK = ('1', '0x1fu', '017', '1.5', "'a'", '"s"', '(', ')', '-', '+', '*', '/', '<<', '~', '!', 'A@', 'S@', 'int', 'sizeof', 'nope', ',', '{', '}', ';', '#', 'struct',
       '==', '.', 'F@', '[', ']', '?', ':', '&', '\\', '@', '`', 'E@', 'return', 'None', 'f', '$', '=')


class C08(engine.Check):
    id = 'C08'
    technique = 'explicit-state enumeration of macro bodies and definition histories, every state replayed on the real translator and compared with gcc'
    level_note = 'exhaustive within the stated token alphabets and lengths'
    batch = 60
    rule = ('state = macro body as a token sequence (BFS by length) or a history of define/undef lines; value bodies '
            '(literals, signs, parentheses, strings, names of macros) are compared with gcc, all other bodies must '
            'load and export only defined names')
    assumptions = ['a character constant may be the character itself (as the existing tests require)',
                   'a body that is not a literal, a signed or parenthesised literal, strings or a macro name has no required value']

    def cases(self):
        seen = set()

        def mk(kind, text, pre=''):
            k = '%s/%s%s' % (kind, pre, text)
            if k in seen:
                return []
            seen.add(k)
            return [engine.Case(k, (kind, pre, text))]
        th = self.thorough
        V, SUF, B = c07.VALUES, c07.SUFFIX + ('z', 'uz', 'Z')[:0], c07.BASES
        for v in V:
            for b in B:
                for s in SUF:
                    x = c07.spell(v, b, s)
                    yield from mk('val', x)
                    for sign in ('-', '+', '- ', '~', '!') if th or s in ('', 'u', 'LL', 'ull') else ('-',):
                        yield from mk('val' if sign[0] in '-+' else 'expr', sign + x)
                    for w in ('(%s)', '(-%s)', '( %s )', '(+%s)') + (('((%s))', '((-%s))', '-(%s)', '(((%s)))', '(-(%s))', '(~%s)') if s in ('', 'UL') or th else ()):
                        yield from mk('val' if '~' not in w else 'expr', w % x)
        for v in c07.FLOATS:
            for s in c07.FSUF:
                if v == '1e300' and s in 'fF' and s:
                    continue
                for w in ('%s', '-%s', '+%s', '- %s', '(%s)', '(-%s)', '((%s))', '-(%s)', '(+%s)', '( -%s )'):
                    yield from mk('val', w % (v + s))
        for c in c07.CHARS:
            for w in ('%s', '(%s)', '((%s))', 'L%s', 'u%s', 'U%s', '-%s'):
                yield from mk('val' if w[0] != '-' else 'expr', w % c)
        for n in range(0, 4 if th else 3):
            for chs in itertools.product(STR, repeat=n):
                s = ''.join(chs)
                if re.search(r'\\x[0-9a-f]{2}[0-9a-fA-F]', s):
                    continue
                for w in ('"%s"', '("%s")', 'u8"%s"', '(("%s"))') if n < 2 else ('"%s"',):
                    yield from mk('val', w % s)
        for n in (2, 3):
            for parts in itertools.product(('"a"', '""', '"b c"', '"\\n"', '"1"', '"(\'"', 'S@', 'A@') if n == 2 or th else ('"a"', '""', '"b c"', 'S@'), repeat=n):
                if 'A@' in parts:
                    continue
                for sep in (' ', '', ' /* c */ ', ' \\\n '):
                    if sep == '' and 'S@' in parts:
                        continue
                    yield from mk('val', sep.join(parts), '#define S@ "str"\n' if 'S@' in parts else '')
                    if sep == ' ':
                        yield from mk('val', '(%s)' % sep.join(parts), '#define S@ "str"\n' if 'S@' in parts else '')
        # names of earlier macros
        for lit in ('1', '0x1fU', '017', '-5', '(7)', '(-7)', '1.5f', '-0.25', "'a'", '"s"', '"a" "b"', '("q")', '((3))', '0b11', '1e3L', '18446744073709551615ull', "'\\n'", '"\\t"'):
            for use in ('A@', '(A@)', '((A@))', '-A@', '+A@', '(-A@)', '- A@', '-(A@)'):
                if '-' in use + '+' and '"' in lit or ('+' in use and '"' in lit):
                    continue
                if lit[0] == "'" and re.search('[-+]', use):
                    continue        # an expression of a character
                yield from mk('val', use, '#define A@ %s\n' % lit)
                yield from mk('val', use.replace('A@', 'B@'), '#define A@ %s\n#define B@ A@\n' % lit)
            for use in ('A@', '(A@)'):
                yield from mk('val', use.replace('A@', 'C@'), '#define A@ %s\n#define B@ (A@)\n#define C@ B@\n' % lit)
        # comments and spacing
        for lit in ('1', '-5', '"s"', '(3)', '1.5', "'c'", '0x10UL'):
            for f in ('%s /* c */', '/* c */ %s', '%s // c', '\t%s  ', '\\\n %s', '%s /* "x" */', '%s // it\'s', '%s /* a */ /* b */', '%s // -*- (('):
                yield from mk('val', f % lit)
        # continued lines
        for lit in ('1', '-12', '(34)', '(-5)', '0x1fUL', '1.5e3', '-2.5f', '"s t"', '"a" "b"', '("q")', 'u8"x"', "'c'", "'\\n'", '"\\n"', 'A@', '(A@)', '-A@', '/* c */ 7', '8 // c', 'B@', '"\\x41"'):
            for i in range(len(lit) + 1):
                for cont in ('\\\n', '\\\n\\\n') if th or i < 3 else ('\\\n',):
                    pre = '#define A@ 3\n#define \\\nB@ A@\n' if '@' in lit else ''
                    yield from mk('val' if lit[0] != '8' or i < 3 else 'any', lit[:i] + cont + lit[i:], pre)
                    if lit[0] not in '/8' and '@' not in lit[i:]:
                        yield from mk('val', 'C@', pre + '#define C@ ' + lit[:i] + cont + lit[i:] + '\n')
        for head in ('(x, y) (x+1)', '() {}', '(x) "a" #x', '(...) f(__VA_ARGS__)', '(x) 0x1f', ' (7)'):
            for i in range(len(head)):
                for cont in ('\\\n', '\\\n ', ' \\\n'):
                    t = head[:i] + cont + head[i:]
                    if head[0] == '(' and t[0] == ' ' or '.' in head[i - 1:i] and '.' in head[i:]:
                        continue
                    yield from mk('fun' if head[0] == '(' and (i or cont[-1] != ' ') else 'any', t)
        # every short token sequence
        toks = TOK
        for n in (1, 2) + ((3,) if th else ()):
            for seq in itertools.product(toks if n < 3 else toks[:30], repeat=n):
                if seq[-1] == '\\' :
                    continue
                yield from mk('any', ' '.join(seq), '#define A@ 3\n#define S@ "s"\n#define F@(x) x\n#define E@\n')
        for seq in itertools.product(TOK[:19], repeat=3):
            if not th:
                yield from mk('any', ' '.join(seq), '#define A@ 3\n#define S@ "s"\n')
        for seq in itertools.product(('1', '(', ')', '-', '+', 'A@', '*') + (('"s"', ',', '/', '1.5') if th else ()), repeat=4):
            yield from mk('any', ' '.join(seq), '#define A@ 3\n')
        for seq in itertools.product(('1', '(', ')', '-') + (('A@', '+') if th else ()), repeat=5):
            yield from mk('any', ''.join(seq), '#define A@ 3\n')
        # function-like macros, flags
        for ps in ('', 'x', 'x,y', 'x, y, z', '...', 'x, ...', 'x ,y', ' x '):
            for body in ('', 'x', '1', '(x)', 'x+1', '(x, y)', '#x', 'x##y', '{x}', '"s"', 'do { } while (0)', '((x)+1)', '__VA_ARGS__', 'f(x)', '(1)', '-1', "'a'"):
                if ('x##y' in body and 'y' not in ps) or ('#x' in body and 'x' not in ps) or (body == '__VA_ARGS__' and '...' not in ps):
                    continue
                yield from mk('fun', '(%s) %s' % (ps, body))
        # histories
        ops = ['#define A@ 1', '#define A@ 2', '#undef A@', '#define B@ A@', '#define C@ B@', '#define A@ "t"', '#define B@ 5', '#define A@', '#define B@ (A@)', '#define A@(x) x']
        for n in range(1, 5 if th else 4):
            for seq in itertools.product(ops, repeat=n):
                d = {}
                ok = True
                for o in seq:
                    m = re.match(r'#(define|undef) ([ABC]@)(.*)', o)
                    if m[1] == 'undef':
                        if m[2] not in d:
                            ok = False
                            break
                        del d[m[2]]
                    else:
                        if m[2] in d:
                            ok = False
                            break
                        d[m[2]] = m[3]
                if ok and d:
                    yield from mk('hist', '\n'.join(seq))
        # macros next to declarations that use them
        for lit in ('3', '(3)', '0x3', '3u', 'K@', '(K@)'):
            for use in ('int v@ = M@;', 'int v@[M@];', 'enum V@ { V@_A = M@ };', 'struct V@ { int a[M@]; int b : M@; };', 'int v@[] = { M@, M@ };', 'int v@ = -M@;', 'int v@ = (M@);', 'int v@ = M@ + M@;'):
                yield engine.Case('use/%s/%s' % (lit, use), ('use', '#define K@ 3\n', (lit, use)))

    def stats(self, case):
        p = case.payload
        t = p[2] if isinstance(p[2], str) else p[2][1]
        return (1, max(1, len(t.split())), 1)

    def group(self, case):
        return case.payload[0]

    _n = 0

    def source(self, i, c):
        kind, pre, text = c.payload
        s = '_%d' % i
        if kind == 'hist':
            return text.replace('@', s)
        if kind == 'fun':
            return '#define M%s%s' % (s, text)
        if kind == 'use':
            lit, use = text
            return (pre + '#define M@ ' + lit + '\n' + use).replace('@', s)
        return pre.replace('@', s) + '#define M%s %s' % (s, text if text.strip() == '@' else re.sub(r'(?<=[A-Z])@|(?<=[A-Z]\\\n)@|(?<=[A-Z]\\\n\\\n)@', s, text))

    def run_batch(self, cases):
        parts = [self.source(i, c) for i, c in enumerate(cases)]
        src = '\n'.join(parts) + '\nint mc_last;\n'
        try:
            out = impl.gen(src, kinds='cdefstum')
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + '\n'.join(parts[:3])))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + re.sub(r'_\d+|#', '', impl.exc_sig(e)), impl.tb(e) + '\n' + impl.strip_text(out)[-1500:]))
        undefined = [n for n in ns['__all__'] if n not in ns]
        vals = self.oracle(cases, parts)
        res = []
        for i, c in enumerate(cases):
            try:
                bad = self.compare(ns, i, c, vals.get(i), [u for u in undefined if re.search(r'_%d$' % i, u)])
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            if not bad and i == len(cases) - 1 and ns.get('mc_last', None) != 0:
                bad = 'declaration after the macros lost'
            res.append(None if not bad else (bad, parts[i] + '\n' + '\n'.join(
                l for l in impl.strip_text(out).splitlines() if re.search(r'_%d\b' % i, l))[:700] + '\nC: %r' % (vals.get(i),)))
        return res

    def names(self, i, c):
        kind = c.payload[0]
        s = '_%d' % i
        if kind == 'val':
            return ['M' + s]
        if kind == 'hist':
            d = {}
            for o in c.payload[2].split('\n'):
                m = re.match(r'#(define|undef) ([ABC])@(.*)', o)
                if m[1] == 'undef':
                    d.pop(m[2], None)
                else:
                    d[m[2]] = m[3].strip()

            def valued(n, depth=0):
                b = d.get(n, '').strip('()').replace('@', '')
                if depth > 3 or b in ('', 'x) x') or '(x' in d.get(n, ''):
                    return False
                return valued(b, depth + 1) if b in 'ABC' else True
            return [n + s for n in d if valued(n)]
        if kind == 'use':
            return ['M' + s, 'K' + s]
        return []

    @staticmethod
    def forward(c):
        """names whose macro is defined before one it needs"""
        seen, out = set(), set()
        for o in c.payload[2].split('\n'):
            m = re.match(r'#(define|undef) ([ABC])@(.*)', o)
            if m[1] == 'undef':
                seen.discard(m[2])
                continue
            out.discard(m[2])
            b = m[3].strip(' ()').replace('@', '')
            if b in ('A', 'B', 'C') and (b not in seen or b in out):
                out.add(m[2])
            if not m[3].startswith('('):
                seen.add(m[2])
        return out

    def oracle(self, cases, parts):
        want = [(i, n) for i, c in enumerate(cases) for n in self.names(i, c)]
        if not want:
            return {}
        C08._n += 1
        so = os.path.join(impl.scratch(), 'm%d' % C08._n)
        text = ['extern int printf(const char *, ...); extern unsigned long strlen(const char *);',
                'static void si(long long v) { printf("i %lld\\n", v); } static void su(unsigned long long v) { printf("i %llu\\n", v); }',
                'static void sf(float v) { printf("f %a\\n", v); } static void sd(double v) { printf("d %a\\n", v); } static void sl(long double v) { printf("d %a\\n", (double)v); }',
                'static void ss(const char *s, unsigned long n) { printf("s "); for (unsigned long i = 0; i + 1 < n; i++) printf("%02x", (unsigned char)s[i]); printf("\\n"); }',
                '#define SHOW(x) _Generic((x), float: sf, double: sd, long double: sl, unsigned: su, unsigned long: su, unsigned long long: su, default: si)(x)',
                '#define SHOWS(x) ss((const char *)x, sizeof(x))']
        text += parts
        text.append('int main(void) {')
        for i, n in want:
            c = cases[i]
            t = c.payload[2] if isinstance(c.payload[2], str) else c.payload[2][0]
            string = '"' in re.sub(r"'(\\.[^']*|[^'])'", '', re.sub(r'/\*.*?\*/|//.*', '', c.payload[1] + t)) and not (c.payload[0] == 'use')
            if c.payload[0] == 'hist':
                text.append('_Pragma("GCC diagnostic ignored \\"-Wall\\"") { __typeof__((%s) + 0) *mc_p; if (__builtin_types_compatible_p(__typeof__(mc_p), char **)) SHOWS((const char *)(long)%s); else SHOW((long)%s); }' % (n, n, n))
                text[-1] = 'if (__builtin_classify_type(%s) == 5) ss((const char *)(long)%s, strlen((const char *)(long)%s) + 1); else SHOW((long)%s);' % (n, n, n, n)
            else:
                text.append('SHOW%s(%s);' % ('S' if string else '', n))
        text.append('return 0; }\n')
        p = subprocess.run(['gcc', '-w', '-O0', '-x', 'c', '-std=gnu2x', '-o', so, '-'], input='\n'.join(text), capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('oracle: ' + p.stderr[:1500])
        o = subprocess.run([so], capture_output=True, text=True).stdout.split('\n')[:-1]
        os.unlink(so)
        assert len(o) == len(want), (len(o), len(want))
        vals = {}
        for (i, n), l in zip(want, o):
            vals.setdefault(i, []).append((n, l))
        return vals

    def compare(self, ns, i, c, vals, undefined):
        kind = c.payload[0]
        if undefined:
            return 'exported but not defined: %s' % re.sub(r'_\d+', '', ','.join(undefined))
        s = '_%d' % i
        if kind == 'fun':
            return 'function-like macro exported' if 'M' + s in ns['__all__'] else None
        for n, l in vals or ():
            if n not in ns:
                if kind == 'hist' and n[0] in self.forward(c):
                    continue        # used before the definition it needs
                return 'macro missing' if kind != 'hist' else 'macro missing: ' + n[0]
            if n not in ns['__all__']:
                return 'macro not exported'
            b = self.value(ns[n], l)
            if b:
                return b if kind != 'hist' else n[0] + ' ' + b
        if kind == 'use':
            use = c.payload[2][1]
            v = ns.get('v' + s)
            if use.startswith('int') and '[' not in use:
                want = -3 if '= -' in use else 6 if '+' in use else 3
                return None if v == want else 'variable value'
            if '[] =' in use:
                return None if v == [3, 3] else 'array value'
            if 'enum' in use:
                return None if ns['V%s_A' % s] == 3 else 'enum value'
            if 'struct' in use:
                f = ns['struct_V' + s]._fields_
                return None if f[0][1]._length_ == 3 and f[1][2] == 3 else 'record'
        return None

    @staticmethod
    def value(v, l):
        k, _, x = l.partition(' ')
        if k == 's':
            if not isinstance(v, str):
                return '%s for a string' % type(v).__name__
            m = bytes.fromhex(x)
            return None if m in (v.encode('utf-8', 'replace'), v.encode('latin-1', 'replace')) else 'string value'
        if k == 'i':
            x = int(x)
            if isinstance(v, str) and len(v) == 1:
                v = ord(v)
                return None if v & 0xff == x & 0xff or v == x else 'character value'
            if isinstance(v, bool) or not isinstance(v, int):
                return '%s for an integer' % type(v).__name__
            if x < 0 and v == x + (1 << 64):
                return None         # a literal C has no type for
            return None if v == x or (v < 0 and x > 0 and (v & 0xffffffff == x or v & 0xffffffffffffffff == x)) else 'integer value'
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return '%s for a float' % type(v).__name__
        x = float.fromhex(x)
        if v == x or (k == 'f' and struct.unpack('f', struct.pack('f', v))[0] == x):
            return None
        return 'float value'


CHECK = C08
