"""C07: values of variables, over all literal initialisers of a bounded shape.

State: a variable declaration (type, storage, initialiser as a token
sequence). The generated module's value is converted to the declared type and
compared byte for byte with the memory of the variable in the same source
compiled by gcc.
"""
import ctypes
import itertools
import os
import re
import struct
import subprocess

from .. import cgen, engine, impl

INTS = {'char': 'b', 'signed char': 'b', 'unsigned char': 'B', 'short': 'h', 'unsigned short': 'H', 'int': 'i', 'unsigned int': 'I',
        'long': 'q', 'unsigned long': 'Q', 'long long': 'q', 'unsigned long long': 'Q'}
FLT = ('float', 'double', 'long double')
VALUES = ('0', '1', '7', '8', '9', '10', '127', '128', '255', '256', '32767', '65535', '2147483647', '2147483648', '4294967295',
          '9223372036854775807', '18446744073709551615')
SUFFIX = ('', 'u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'LU', 'uL', 'Ul', 'lU', 'Lu', 'll', 'LL', 'ull', 'ULL', 'llu', 'LLU', 'uLL', 'Ull', 'llU', 'LLu')
BASES = {'d': '%d', 'o': '0%o', 'x': '0x%x', 'X': '0X%X', 'b': '0b', 'B': '0B', '0': '00%o'}


def spell(v, base, suf):
    v = int(v)
    if base in 'bB':
        return BASES[base] + bin(v)[2:] + suf
    return BASES[base] % v + suf


FLOATS = ('0.0', '1.5', '.5', '5.', '0.1', '3.14159', '1e0', '1E1', '1e+10', '1.5e-10', '.5E3', '5.e2', '12345678901234567890.0',
          '1e300', '4.9e-324', '0e0', '0x1p3', '0x1.8p1', '0x.8P-2', '0X1.FP+4', '0xfp0', '00.5', '09.5', '1e01')
FSUF = ('', 'f', 'F', 'l', 'L')
CHARS = ["'%s'" % c for c in ('a', 'Z', '0', ' ', '"', '%', '#', '/', '(', '\\n', '\\t', '\\r', '\\\\', "\\'", '\\"', '\\0', '\\a', '\\b', '\\f',
                              '\\v', '\\?', '\\x41', '\\xff', '\\x7f', '\\101', '\\377', '\\7', '\\e', 'u', 'L', 'x', '{', ',', ';')]
SCH = ('a', ' ', '\\"', '\\n', '\\\\', '\\0', '\\x41', '\\101', '\u00e9', "'", '%', '\\t', '#', '//', '/*', ';', '{', ',', 'L', '\\x7f', '??', '0', 'R')


WCH = ('a', '\\x1234', '\\n', '\u00e9', '\U0001f600', '\\0', '\\\\', '\\"', "'", '\\u0416', '\\U0001f600', '\\101', '\\xff', '%', '\\t', '/*', '{', 'R', '\u4e2d')
WTYPES = {'L': ('int', 'TL0'), 'u': ('unsigned short', 'TU0'), 'U': ('unsigned int', 'TV0')}
WFORMS = ('%s @[] = %s', 'const %s *@ = %s', 'const %s @[] = %s', 'static const %s @[] = %s', '%s @[16] = %s', 'const %s *const @ = %s', '%s @[] = {%s}', '%s @[] = (%s)',
          'const %s *@ = (%s)', 'volatile %s @[9] = %s', 'const %s *@ = {%s}', 'const %s *@[] = {%s, 0}'.replace(', 0', ', X'), '%s @[2][16] = {%s, X}')


class C07(engine.Check):
    id = 'C07'
    technique = 'explicit-state enumeration of variable initialisers, every state replayed on the real translator and compared with compiled memory'
    level_note = 'exhaustive within the stated literal grammars'
    batch = 80
    rule = ('state = variable declaration: type, storage and array shape times literal spelling (base, digits, suffix, sign; '
            'mantissa, exponent; escapes; strings of wide characters; list shapes; BFS by length; constant expressions of one to three operands over 18 operators); oracle: bytes of the same variable in the source compiled by gcc')
    assumptions = ['a value outside the range of the declared type is compared after conversion to it, as the existing tests require for -1 in unsigned',
                   'str values stand for their UTF-8 or Latin-1 bytes', 'a list shorter than the array stands for trailing zeros']

    def cases(self):
        seen = set()

        def mk(kind, typ, init, pre='', dims='', post=''):
            if init and re.fullmatch(r'[-+~! (]*(9223372036854775808|18446744073709551615)([lL]*)[) ]*', init):
                return []               # too large for a decimal literal without u
            if init and kind in ('conv', 'arr') and ('unsigned' in typ or 'enum' in typ or 'TE0' in typ) and re.match(r'{?-[0-9]*\.', init):
                return []               # undefined in C
            if init == '1e3' and ('char' in typ or typ == 'TC0'):
                return []
            decl = '%s%s %s%s%s%s' % (pre, typ if '@' not in typ else '', '' if '@' not in typ else typ, '' if '@' in typ else '@', dims, post)
            k = '%s/%s%s' % (kind, ' '.join(decl.split()), '' if init is None else ' = ' + init)
            if k in seen:
                return []
            seen.add(k)
            return [engine.Case(k, (kind, typ, dims, decl, init))]

        th = self.thorough
        # uninitialised, every type and storage
        scal = list(INTS) + list(FLT) + ['_Bool', 'enum E0', 'TI0', 'TE0', 'TD0', 'TC0']
        ptrs = ['int *', 'char *', 'void *', 'const char *', 'double *', 'struct S0 *', 'int **', 'char **', 'TP0', 'union U0 *', 'int (*@)[3]', 'struct O0 *']
        for pre in ('', 'static ', 'extern ', 'const ', 'volatile ', 'static const ', '_Thread_local ', 'extern const ', '_Alignas(16) '):
            for t in scal + ptrs:
                yield from mk('none', t, None, pre)
        for post in (' __attribute__((aligned(16)))', ' __attribute__((section(".mcs")))', ' __attribute__((unused))'):
            for t in scal + ptrs[:4]:
                yield from mk('none', t, None, '', '', post)
                if t in INTS or t in FLT:
                    yield from mk('int', t, '5', '', '', post)
        for t in list(INTS) + ['float', 'double', '_Bool', 'enum E0', 'TI0', 'int *', 'char *', 'struct S0', 'union U0', 'TP0', 'long double']:
            for d in ('[1]', '[2]', '[3]', '[2][2]', '[1+1]', '[sizeof(int)]', '[2][3][2]'):
                yield from mk('none', t, None, '', d)
                yield from mk('none', t, None, 'extern ', d)
            yield from mk('none', t, None, 'extern ', '[]')
        for t in ('struct S0', 'union U0', 'TS0', 'struct N0'):
            for pre in ('', 'static ', 'extern ', 'const '):
                yield from mk('rec', t, None, pre)
            for init in ('{1,2}', '{0}', '{.sc=1}', '{}', '{1}'):
                if t in ('struct S0', 'TS0') or init in ('{0}', '{}', '{1}'):
                    yield from mk('rec', t, init)
            for d in ('[2]', '[]'):
                yield from mk('rec', t, '{{1},{0}}', '', d)
        for f in ('int (*@)(char)', 'void (*@)(void)', 'double (*@)(int, char *)', 'char *(*@)(struct S0 *)'):
            for pre in ('', 'static ', 'extern '):
                yield from mk('fn', f, None, pre)
            for init in ('0', '(void *)0', '{0}'):
                yield from mk('fn', f, init)
        # integers
        itypes = ['int', 'unsigned long', 'long long', 'unsigned char', 'double'] if not th else list(INTS) + ['float', 'double', '_Bool', 'TI0', 'long double']
        for v in VALUES:
            for b in BASES:
                for s in SUFFIX:
                    for t in itypes:
                        yield from mk('int', t, spell(v, b, s))
        for v in VALUES:
            for b in ('d', 'o', 'x', 'b'):
                for s in ('', 'u', 'L', 'ULL', 'll'):
                    for sign in ('-', '+', '~', '!', '- ', '--5-', '-+') if th else ('-', '+', '~', '!', '- '):
                        if sign == '--5-':
                            continue
                        for t in itypes:
                            yield from mk('int', t, sign + spell(v, b, s))
        for wrap in ('(%s)', '((%s))', '-(%s)', '(-%s)', '{%s}', '(int)%s', '/*c*/%s', '%s/*c*/', '+(%s)', '~(%s)', '-(-%s)', '(unsigned char)%s', '(((%s)))'):
            for v in ('0', '1', '10', '017', '0x1f', '0xffu', '255UL', '0b11', '300'):
                for t in scal:
                    yield from mk('wrap', t, wrap % v)
        for t in scal:
            for v in ('0', '1', '5', '-1', '255', "'a'", '1.5', '-2.5', '017', '0xAB', '1e3', "'\\n'", '1.5f', '3000000000', '-129'):
                yield from mk('conv', t, v)
                yield from mk('conv', t, v, 'static const ')
        for t in ptrs:
            for v in ('0', '(void *)0', '{0}', '((void *)0)', '0L'):
                yield from mk('ptr', t, v)
        # floats
        for t in FLT + ('TD0',):
            for v in FLOATS:
                for s in FSUF:
                    if v == '1e300' and s in 'fF' and s:
                        continue        # no float
                    for sign in ('', '-', '+', '- '):
                        yield from mk('flt', t, sign + v + s)
                yield from mk('flt', t, '(%s)' % v)
                yield from mk('flt', t, '(-%s)' % v)
                yield from mk('flt', t, '-(%s)' % v)
        for v in FLOATS:
            if abs(float.fromhex(v) if 'x' in v.lower() else float(v)) < 100:
                for t in ('int', 'unsigned char', 'long', '_Bool'):
                    yield from mk('conv', t, v)
        # characters
        for t in ('char', 'int', 'unsigned char', 'signed char', 'const char', 'long', 'TC0', 'unsigned short'):
            for c in CHARS:
                yield from mk('chr', t, c)
                yield from mk('chr', t, '-' + c)
                yield from mk('chr', t, '(%s)' % c)
        for p in ('L', 'u', 'U'):
            for c in CHARS:
                yield from mk('chr', {'L': 'int', 'u': 'unsigned short', 'U': 'unsigned int'}[p], p + c)
        # strings
        stypes = [('char', '[]'), ('char *', ''), ('const char', '[]'), ('const char *', ''), ('char', '[16]'), ('unsigned char', '[]'),
                  ('signed char', '[]'), ('const char *const', ''), ('TC0', '[]'), ('TP0', '')]
        for n in range(0, 4 if th else 3):
            for chs in itertools.product(SCH, repeat=n):
                if re.search(r'\\x[0-9a-f]{2}[0-9a-fA-F]', ''.join(chs)):
                    continue            # another escape
                for t, d in (stypes if n < 2 or th and n < 3 else stypes[:2]):
                    yield from mk('str', t, '"%s"' % ''.join(chs), '', d)
        for a, b in itertools.product(('', 'a', 'bc', '\\n', '\\x41', '1', ' '), repeat=2):
            for sep in (' ', '', '\\\n', '/*x*/'):
                for t, d in stypes[:5]:
                    yield from mk('str', t, '"%s"%s"%s"' % (a, sep, b), '', d)
        for p in ('u8',):
            for s in ('', 'a', '\u00e9', '\\n'):
                for t, d in stypes[:2]:
                    yield from mk('str', t, '%s"%s"' % (p, s), '', d)
        for s in ('abc', 'ab'):
            yield from mk('str', 'char', '"%s"' % s, '', '[3]')
            yield from mk('str', 'char', '{"%s"}' % s, '', '[]')
            yield from mk('str', 'char *', '("%s")' % s)
            for w in itertools.product(('"%s"', '("%s")', '(("%s"))', '((("%s")))', '(char *)("%s")', '((char *)"%s")', '0', '((void *)0)'), repeat=2):
                for d in ('[]', '[2]', '[3]'):
                    yield from mk('str', 'const char *', '{%s}' % ', '.join(x.replace('%s', s) for x in w), '', d)
        for s in ('', 'a', '\u00e9', '\\n', "'", 'a" "b', 'a\u00e9'):
            for t in ('char', 'const char', 'unsigned char', 'signed char', 'TC0'):
                for init in ('{"%s"}', '("%s")', '{("%s")}', '(("%s"))', '{"%s",}', '{(("%s"))}', '(((("%s"))))'):
                    for d in ('[]', '[9]'):
                        yield from mk('str', t, init % s, '', d)
            yield from mk('str', 'char *', '(char *)"%s"' % s)
        # arrays
        el = ('1', '-2', '0x1f', '017', '0', '5u') if not th else ('1', '-2', '0x1f', '017', '0', '5u', "'a'", '0b11', '(3)', '7LL')
        for n in range(1, 4):
            for es in itertools.product(el, repeat=n):
                for t in ('int', 'unsigned char', 'long', 'double', 'short', '_Bool', 'char') if n < 3 or th else ('int', 'double'):
                    yield from mk('arr', t, '{%s}' % ','.join(es), '', '[]')
                    if n < 3:
                        yield from mk('arr', t, '{%s}' % ','.join(es), '', '[%d]' % n)
                        yield from mk('arr', t, '{%s}' % ','.join(es), '', '[%d]' % (n + 1))
                        yield from mk('arr', t, '{%s,}' % ','.join(es), 'static const ', '[]')
        fel = ('1.5', '-2.5', '1', '.5f', '1e3', '0x1p1')
        for n in (1, 2):
            for es in itertools.product(fel, repeat=n):
                for t in ('double', 'float', 'long double', 'int'):
                    if t != 'int' or '0x1p1' not in es:
                        yield from mk('arr', t, '{%s}' % ','.join(es), '', '[]')
                        yield from mk('arr', t, '{%s}' % ','.join(es), '', '[4]')
        for es in itertools.product(("'a'", "'\\0'", "'\\n'", "'\\''", "66", "'\\xff'", '0'), repeat=2):
            for t in ('char', 'unsigned char', 'int', 'signed char'):
                yield from mk('arr', t, '{%s,%s}' % es, '', '[]')
        for es in itertools.product(('"a"', '"b c"', '""', '0', '"\\n"', '"d" "e"'), repeat=2):
            for t in ('char *', 'const char *', 'TP0'):
                yield from mk('arr', t, '{%s,%s}' % es, '', '[]')
                yield from mk('arr', t, '{%s,%s}' % es, '', '[3]')
        for init, d in (('{{1,2},{3,4}}', '[2][2]'), ('{{1},{2}}', '[2][2]'), ('{1,2,3,4}', '[2][2]'), ('{{1,2},{3,4}}', '[][2]'), ('{{0}}', '[2][2]'), ('{0}', '[3]'),
                        ('{[1]=5}', '[3]'), ('{[2]=5,6}', '[4]'), ('{[0 ... 1]=4}', '[2]'), ('{}', '[2]'), ('{1,[2]=7}', '[]'), ('{{{1}}}', '[1][1][1]'), ('{[1]={1,2}}', '[2][2]'),
                        ('{{1,2},3,4}', '[2][2]')):
            for t in ('int', 'unsigned char', 'double', 'short', 'long', 'char', 'unsigned int'):
                yield from mk('arr', t, init, '', d)
        for init, d in (('{"ab","cd"}', '[2][3]'), ('{"ab","c"}', '[][3]'), ('{{"ab"},{"cd"}}', '[2][3]'), ('{"a"}', '[2][2]')):
            for t in ('char', 'unsigned char'):
                yield from mk('arr', t, init, '', d)
        # constant expressions
        atoms = ['1', '2', '7', '3u', '4L', "'a'", 'E0_B', '1.5', 'sizeof(int)', '0x10', '-3', '017', '(5)', '5ULL', '2.0f', '(char)300', 'E0_A', '(TE0)7', 'sizeof(struct S0)', '0']
        OPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '==', '!=', '<', '>', '<=', '>=', '&&', '||']
        ctypes_ = ['int', 'unsigned int', 'long', 'double', 'unsigned char', '_Bool', 'float', 'enum E0', 'unsigned long', 'char']

        def flt(a):
            return '.' in a
        for a in atoms:
            for un in ('', '-', '+', '~', '!', '(int)', '(unsigned char)', '(double)', '-(', '!!', '(long)-', '(_Bool)', '(unsigned)'):
                if un == '~' and flt(a):
                    continue
                e = un + a + (')' if un.endswith('(') else '')
                e = e.replace('--', '- -')
                for t in ctypes_:
                    if ('unsigned' in t or t == 'char' or 'enum' in t) and (flt(a) or 'double' in un) and '-' in e:
                        continue            # undefined in C
                    yield from mk('expr', t, e)
                    yield from mk('expr', t, e, 'static const ')
                    yield from mk('arrx', t, '{1, %s}' % e, '', '[]')
        for a, op, b in itertools.product(atoms, OPS, atoms):
            if op in ('%', '<<', '>>', '&', '|', '^') and (flt(a) or flt(b)) or op in '/%' and b in ('0', 'E0_A') or op in ('<<', '>>') and (b == '-3' or a == '-3' or b in ("'a'", '(char)300')):
                continue
            e = '%s %s %s' % (a, op, b)
            for t in ctypes_ if th else ctypes_[:4]:
                if t in ('unsigned int', 'unsigned char', 'char', 'enum E0', 'unsigned long') and (flt(a) or flt(b)) and ('-' in e or "'a'" in e):
                    continue
                yield from mk('expr', t, e)
                if th or t == 'int':
                    yield from mk('arrx', t, '{%s, 1}' % e, '', '[]')
                    yield from mk('expr', t, '-(%s)' % e) if not (('unsigned' in t or t in ('char', 'enum E0')) and (flt(a) or flt(b))) else []
        sm = atoms[:6] + ['E0_B', '-3', '1.5']
        for a, o1, b, o2, c in itertools.product(sm, ('+', '-', '*', '<', '&&'), sm, ('+', '*', '==', '||'), sm) if th else itertools.product(sm[:4] + ['E0_B'], '+-*<', sm[:4], '+*', ['2', '3u', '1.5']):
            if not ('1.5' in (a, b, c) and '3u' in (a, b, c) and ('-' in (o1, o2) or '-3' in (a, b, c))):
                # out of the range of int otherwise
                yield from mk('expr', 'int', '%s %s %s %s %s' % (a, o1, b, o2, c))
            yield from mk('expr', 'double', '(%s %s %s) %s %s' % (a, o1, b, o2, c))
            yield from mk('expr', 'long', '%s %s (%s %s %s)' % (a, o1, b, o2, c))
        for a, b, c in itertools.product(atoms, repeat=3) if th else itertools.product(atoms[:8], atoms[:8], ['2', '0', '1.5', '3u']):
            for t in ('int', 'double', 'long') if th else ('long',):
                yield from mk('expr', t, '%s ? %s : %s' % (a, b, c))
        # a scalar in empty braces, and enumerations defined by the declaration
        for t in scal + ptrs:
            for pre in ('', 'static ', 'const ', 'static const '):
                yield from mk('empty', t, '{}', pre)
        for d in ('enum Q@ { QA@, QB@ = 5, QC@ = 9 }', 'enum { QA@, QB@ = 5, QC@ = 9 }', 'enum Q@ { QA@ = 1, QB@ = 5, QC@ = 2 }', 'enum Q@ { QA@ = 1, QB@ = 5, QC@ = 7 } volatile'):
            for pre in ('', 'static ', 'const ', 'static const ', 'extern '):
                for dims, inits in (('', (None, '5', '{5}', '{}', '1', '0x9', '(5)', '0', 'QB@', '{QC@}', '(QA@)', 'QB@ + 1', 'QA@ | QC@')), ('[2]', (None, '{5,1}', '{}', '{0}', '{QB@}', '{QB@,QC@}')), ('[]', ('{5,9,1}', '{5}', '{QA@, 5}', '{QC@,QB@}'))):
                    for init in inits:
                        if pre != 'extern ' or init is None:
                            for post in ('', ', @_m', ', *@_m') if not dims and init is None else ('',):
                                decl = '%s%s @%s%s' % (pre, d, dims, post)
                                yield engine.Case('own/%s%s' % (decl, '' if init is None else ' = ' + init), ('own', 'enum E0', dims, decl, init))
        # atomic variables
        for t in ('int', 'char', 'unsigned char', 'double', '_Bool', 'enum E0', 'long', 'unsigned short', 'float', 'TI0', 'char *', 'int *', 'TP0', 'const char *', 'TE0'):
            at = ['_Atomic(%s)' % t] + (['_Atomic ' + t, 'volatile _Atomic ' + t] if '*' not in t else ['%s _Atomic' % t])
            for a in at:
                for pre in ('', 'static ', 'extern ', 'const ', 'static const '):
                    yield from mk('none', a, None, pre)
                    if pre != 'extern ':
                        for init in ('0',) + (('"ab"',) if 'char *' in t or t == 'TP0' else ('(void *)0',) if '*' in t else ('5', '-3', "'a'", '1.5', 'E0_B', '017', '(7)', '2 + 3', '300')):
                            if (t != 'unsigned char' and t != 'unsigned short') or '-' not in init:
                                yield from mk('atom', a, init, pre)
                for d in ('[2]', '[]'):
                    yield from mk('none', a, None, 'extern ' if d == '[]' else '', d)
                    if '*' not in t and t != 'TP0':
                        for init in ('{1, 2}', '{5}', '{}', "{'a', 'b'}", '{E0_B}'):
                            if d != '[]' or init != '{}':
                                yield from mk('arr', a, init, '', d)
        # values that are not of the language of the module: the module loads and has the variable
        for t, inits in (('_Complex double', ('1.0', '{1.0, 2.0}', '1.0 + 2.0i', '0', '3', '2.0i', '-3i', '-(1 + 2i)', '2i * 2i', '(2.0i)', '~2i', '{1, 2i}', '(_Complex double)1', '(float)2i')), ('_Complex float', ('1.0f', '0', '2.0fi')), ('_Complex int', ('1', '3i', '2 - 3i')), ('int', ('5 + 3i', '2i')), ('double', ('2i', '1.5 + 2i')), ('V0', ('{1, 2, 3, 4}', '{}', '{1}')), ('W0', ('{1, 2}', '{0}')),
                         ('__int128', ('5', '-1', '0', '(__int128)1 << 100')), ('unsigned __int128', ('5', '0')), ('long', ('(long)&ga', '(long)"x"', '(long)gf', '1 + (long)&ga')),
                         ('int *', ('&ga', 'gar', 'gar + 1', '&gar[1]', '(int *)&gs', '(int *)16')), ('struct S0 *', ('&gs', '&(struct S0){1, 2}')), ('void *', ('&ga', 'gf', '&&ga' if 0 else '(void *)gf', '"abc"', '(void *)-1')),
                         ('int (*@)(int)', ('gf', '&gf', '*gf')), ('char *', ('gca', '&gca[1]', '"abc" + 1', '&"abc"[1]')), ('int', ('__builtin_offsetof(struct S0, ss)', '_Generic(1, int: 5, default: 6)', '__builtin_bswap32(1)', '__builtin_constant_p(1)', '__builtin_choose_expr(1, 2, 3)', '(int){5}', '__builtin_popcount(255)', '__alignof__(int)', '_Alignof(double)', 'sizeof(int[3])', 'sizeof gar / sizeof *gar', "'ab'", '__INT_MAX__', '__builtin_strlen("abc")')),
                         ('double', ('__builtin_inf()', '-__builtin_inf()', '__builtin_nan("")', '__builtin_huge_val()', '1.0 / 0.0', '1e400')), ('float', ('__builtin_inff()', '1e39f')), ('struct N0', ('{1, {2, 3}, {4, 5}}', '{.nc = 1, .na = {[1] = 2}}', '{1, gs2}' if 0 else '{}'))):
            for pre in ('', 'static ', 'const ', 'static const '):
                if '@' in t and 'const' in pre:
                    continue
                yield from mk('load', t, None, pre)
                for init in inits:
                    yield from mk('load', t, init, pre)
                    if '@' not in t and '__int128' not in t:
                        yield from mk('load', t, '{%s}' % init, pre, '[]')
                        yield from mk('load', t, '{%s, %s}' % (init, init), pre, '[3]')
        # strings of wide characters
        for p, n in (('L', 1), ('u', 2), ('U', 3)):
            strs = [''.join(x) for k in range(0, 4 if th else 3) for x in itertools.product(WCH[:n + 10] if k == 2 and not th else WCH, repeat=k)]
            strs += ['%s" %s"%s' % (a, q, b) for a in ('', 'a', '\\x12', '\u00e9') for b in ('', 'b', '1', '\\n') for q in (p, '', '"x" ' + p)]
            for w in strs:
                if re.search(r'\\x[0-9a-fA-F]{5}', w):
                    continue
                lit = '%s"%s"' % (p, w)
                for t in WTYPES[p]:
                    for form in WFORMS:
                        if len(w) < 3 or t == WTYPES[p][0] and form in ('%s @[] = %s', 'const %s *@ = %s'):
                            yield engine.Case('wstr/%s' % (form % (t, lit)), ('wstr', t, '', form, lit))
        # several declarators and neighbours
        for a, b in itertools.product(('5', "'a'", '"x"', '1.5', '0x10', '017'), repeat=2):
            ta, tb = [{'"x"': 'char *', '1.5': 'double'}.get(x, 'int') for x in (a, b)]
            if ta == tb:
                yield from mk('multi', ta + (' @' if ta != 'char *' else '@'), a + ', %s@_n = %s' % ('*' if ta == 'char *' else '', b))

    def stats(self, case):
        return (1, max(1, len(case.payload[4] or '')), 1)

    def group(self, case):
        return case.payload[0] if case.payload[0] in ('rec', 'fn', 'multi', 'wrap', 'load', 'wstr') else ''

    PRE = '''struct S0 { char sc; short ss; }; union U0 { char uc; int ui; }; struct N0 { char nc; struct S0 ns; int na[2]; }; struct O0;
enum E0 { E0_A, E0_B = 7 }; typedef int TI0; typedef enum E0 TE0; typedef double TD0; typedef char TC0; typedef char *TP0; typedef struct S0 TS0;
typedef float V0 __attribute__((vector_size(16))); typedef int W0 __attribute__((vector_size(8)));
typedef __WCHAR_TYPE__ TL0; typedef unsigned short TU0; typedef unsigned int TV0;
int ga, gar[3]; struct S0 gs; int gf(int); char gca[4];
'''
    _n = 0

    def run_wide(self, cases):
        lines, refs = [], []
        for i, c in enumerate(cases):
            _, t, _, form, lit = c.payload
            lines.append((form % (t, lit.replace('@', '\\100'))).replace('X}', lit + '}').replace('@', 'v%d' % i) + ';')
            refs.append('static const %s r%d[] = %s;' % (t, i, lit))
        src = self.PRE + '\n'.join(lines) + '\n'
        try:
            ns = impl.load(impl.gen(src))
        except Exception as e:
            raise self.BatchFailed(('wide:' + re.sub(r'\bv\d+\b', 'v', impl.exc_sig(e)), impl.tb(e) + '\n'.join(lines[:3])))
        C07._n += 1
        so = os.path.join(impl.scratch(), 'v%d' % C07._n)
        body = [self.PRE, 'extern int printf(const char *, ...);'] + refs + ['int main(void) {']
        body += ['for (unsigned k = 0; k < sizeof r%d / sizeof *r%d; k++) printf("%%x ", (unsigned)r%d[k] & (sizeof *r%d == 2 ? 0xffff : 0xffffffff)); printf("\\n");' % (i, i, i, i) for i in range(len(cases))]
        p = subprocess.run(['gcc', '-w', '-O0', '-x', 'c', '-std=gnu2x', '-o', so, '-'], input='\n'.join(body) + 'return 0; }\n', capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('oracle: ' + p.stderr[:1500])
        want = [[int(x, 16) for x in l.split()][:-1] for l in subprocess.run([so], capture_output=True, text=True).stdout.splitlines()]
        os.unlink(so)
        res = []
        for i, c in enumerate(cases):
            bad, v, form = None, ns.get('v%d' % i), c.payload[3]
            if 'v%d' % i not in ns or 'v%d' % i not in ns['__all__']:
                bad = 'variable missing'
            for x in (v if '][' in form or '*@[' in form else [v]) if not bad else []:
                if isinstance(x, str):
                    b = x.encode('utf-16-le' if 'short' in c.payload[1] or 'TU' in c.payload[1] else 'utf-32-le', 'surrogatepass')
                    n = 2 if 'short' in c.payload[1] or 'TU' in c.payload[1] else 4
                    x = [int.from_bytes(b[k:k + n], 'little') for k in range(0, len(b), n)]
                if '*@ ' in form or '* const @' in form.replace('*const', '* const'):
                    if isinstance(x, ctypes._Pointer) and not x:
                        # required by the existing tests
                        continue
                if not isinstance(x, list) or x + [0] * (len(want[i]) - len(x)) != want[i]:
                    bad = 'wide string value'
            if not bad and ('][' in form or '*@[' in form) and len(v) != 2:
                bad = 'wide string value'
            res.append((bad, '%s\nvalue %r, C %r' % (lines[i], v, want[i])) if bad else None)
        return res

    def run_batch(self, cases):
        if cases[0].payload[0] == 'wstr':
            return self.run_wide(cases)
        lines = []
        for i, c in enumerate(cases):
            _, _, _, decl, init = c.payload
            lines.append('%s%s;' % (decl.replace('@', 'v%d' % i), '' if init is None else ' = ' + init.replace('@', 'v%d' % i)))
        src = self.PRE + '\n'.join(lines) + '\n'
        try:
            out = impl.gen(src)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + '\n'.join(lines[:3])))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + re.sub(r'\bv\d+\b', 'v', impl.exc_sig(e)), impl.tb(e) + '\n' + impl.strip_text(out)[-1500:]))
        mem = self.memory(cases, lines)
        res = []
        for i, c in enumerate(cases):
            try:
                bad = self.compare(ns, i, c.payload, mem)
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            if bad:
                bad = (bad, lines[i] + '\n' + '\n'.join(l for l in out.splitlines() if re.search(r'\bv%d(_n)?\b' % i, l))[:600]
                       + '\nC bytes: %s' % (mem.get(i) if not isinstance(mem.get(i), str) else repr(mem[i])))
            res.append(bad or None)
        return res

    def memory(self, cases, lines):
        """the bytes each variable has in the compiled program"""
        C07._n += 1
        so = os.path.join(impl.scratch(), 'v%d' % C07._n)
        body = [self.PRE]
        want = []
        for i, c in enumerate(cases):
            kind, typ, dims, decl, init = c.payload
            if kind in ('rec', 'fn', 'load'):
                continue
            line = lines[i]
            if init is None:
                line = re.sub(r'^extern ', '', line)
                if dims == '[]':
                    continue
            body.append(line)
            want.append((i, 'v%d' % i))
            if kind == 'multi':
                want.append(((i, 'n'), 'v%d_n' % i))
        body.append('extern int printf(const char *, ...);\nstatic void mc_d(int k, const void *p, unsigned long n, int s) { const unsigned char *b = p; '
                    'const char *const *q = p;\n printf("%d ", k); for (unsigned long i = 0; i < n; i++) printf("%02x", b[i]);\n'
                    ' if (s) for (unsigned long j = 0; j < n / 8; j++) { printf("|"); if (!q[j]) printf("0"); else for (unsigned long i = 0; i < s || q[j][i]; i++) printf("%02x", (unsigned char)q[j][i]); }\n printf("\\n"); }\n')
        body.append('int main(void) {')
        for k, (i, name) in enumerate(want):
            # string literals: print pointee up to sizeof of the literal is unknown, print to NUL
            j = i if isinstance(i, int) else i[0]
            t = cases[j].payload[1]
            strp = cases[j].payload[4] and '"' in cases[j].payload[4] and ('*' in t or 'TP0' in t)
            n = 1
            if strp and not cases[j].payload[2] and cases[j].payload[0] == 'str':
                n = None
            s = '0' if not strp else ('(int)sizeof(%s)' % re.sub(r'^\(char \*\)', '', cases[j].payload[4]) if n is None else '0+(%s!=0)*0' % name)
            if strp and n is not None:
                s = '-1'
            body.append('mc_d(%d, (const void *)&%s, sizeof(%s), %s);' % (k, name, name, s))
        body.append('return 0; }\n')
        text = '\n'.join(body).replace('i < s || q[j][i]', '(s > 0 && i < s - 1) || (s < 0 && q[j][i])')
        p = subprocess.run(['gcc', '-w', '-O0', '-x', 'c', '-std=gnu2x', '-o', so, '-'], input=text, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('oracle: ' + p.stderr[:1500])
        o = subprocess.run([so], capture_output=True, text=True).stdout
        os.unlink(so)
        mem = {}
        for l in o.splitlines():
            k, _, h = l.partition(' ')
            parts = h.split('|')
            i = want[int(k)][0]
            mem[i] = bytes.fromhex(parts[0]) if len(parts) == 1 else [None if x == '0' else bytes.fromhex(x) for x in parts[1:]]
        return mem

    def compare(self, ns, i, payload, mem):
        kind, typ, dims, decl, init = payload
        name = 'v%d' % i
        if name not in ns:
            return 'variable missing'
        if name not in ns['__all__']:
            return 'variable not exported'
        v = ns[name]
        if kind in ('rec', 'fn', 'load'):
            return None
        if i not in mem:
            return None
        b = self.cmp(v, typ, dims, mem[i])
        if b:
            return b
        if kind == 'multi':
            if name + '_n' not in ns:
                return 'second variable missing'
            return self.cmp(ns[name + '_n'], typ, dims, mem[(i, 'n')])
        return None

    def cmp(self, v, typ, dims, m):
        t = re.sub(r'_Atomic|volatile|const\b|@|\(|\)', ' ', typ) if '_Atomic' in typ else typ.replace('const', '').replace('@', '')
        t = ' '.join(t.split())
        t = {'TI0': 'int', 'TE0': 'enum E0', 'TD0': 'double', 'TC0': 'char', 'TP0': 'char *', 'TS0': 'struct S0'}.get(t, t)
        if isinstance(v, type):
            return 'value is a class'
        if dims:
            return self.array(v, t, m, dims)
        return self.scalar(v, t, m)

    def array(self, v, t, m, dims):
        if isinstance(m, list):
            if not isinstance(v, list) or len(v) > len(m):
                return 'array of strings: %s' % type(v).__name__
            for x, y in itertools.zip_longest(v, m):
                if y is None:
                    if x not in (None, 0):
                        return 'array element'
                elif not isinstance(x, str) or self.text(x, y):
                    return 'array element'
            return None
        if isinstance(v, ctypes.Array):
            if any(m) or any(ctypes.string_at(ctypes.addressof(v), ctypes.sizeof(v))) or ctypes.sizeof(v) != len(m):
                return 'ctypes array value'
            return None
        if isinstance(v, str):
            if t not in ('char', 'unsigned char', 'signed char'):
                return 'string for %s array' % t
            for enc in ('utf-8', 'latin-1'):
                try:
                    b = v.encode(enc)
                except UnicodeError:
                    continue
                if b == m[:len(b)] and not any(m[len(b):]):
                    return None
            return 'string value'
        if not isinstance(v, list):
            return 'array value is %s' % type(v).__name__
        es = 1 if 'char' in t and '*' not in t else None
        size = {'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'enum E0': 4, 'float': 4, 'long double': 16, '_Bool': 1,
                'struct S0': 4, 'union U0': 4}.get(t, es or 8)
        flat = []

        def walk(x):
            for y in x:
                walk(y) if isinstance(y, list) else flat.append(y)
        if any(isinstance(y, list) for y in v) or (es and len(re.findall(r'\[', dims)) > 1 and any(
                isinstance(y, str) and len(y) != 1 for y in v)):
            return self.nested(v, t, m, size)
        walk(v)
        if len(flat) * size > len(m):
            return 'too many elements'
        for k, x in enumerate(flat):
            r = self.scalar(x, t, m[k * size:(k + 1) * size])
            if r:
                return 'element: ' + r
        if any(m[len(flat) * size:]):
            return 'elements missing'
        return None

    def nested(self, v, t, m, size):
        # only regular shapes [r][c](...) of known total length
        rows = len(v)
        if not all(isinstance(r, (list, str)) for r in v) or len(m) % rows:
            return 'shape'
        n = len(m) // rows
        for k, r in enumerate(v):
            b = self.array(r, t, m[k * n:(k + 1) * n], '')
            if b:
                return b
        return None

    @staticmethod
    def text(x, m):
        for enc in ('utf-8', 'latin-1'):
            try:
                if x.encode(enc) == m:
                    return None
            except UnicodeError:
                pass
        return 'string value'

    def scalar(self, v, t, m):
        if isinstance(m, list):
            if not isinstance(v, str):
                return 'string is %s' % type(v).__name__
            return self.text(v, m[0])
        if '*' in t:
            if v is None or v == 0 or (isinstance(v, ctypes._Pointer) and not v) or (isinstance(v, ctypes.c_void_p) and not v.value):
                return None
            return 'null pointer is %s' % type(v).__name__
        if t in INTS or t == 'enum E0':
            o = v
            if isinstance(v, str):
                if len(v) != 1:
                    return 'character %d long' % len(v)
                v = ord(v)
            elif isinstance(v, bool) or not isinstance(v, int):
                return '%s for an integer' % type(v).__name__
            bits = len(m) * 8
            if v & ((1 << bits) - 1) != int.from_bytes(m, 'little'):
                return 'integer value'
            # a test of the repository has -1 for an unsigned variable
            return None if isinstance(o, str) or 'unsigned' in t or t == 'enum E0' or v == int.from_bytes(m, 'little', signed=True) else 'integer out of range'
        if t == '_Bool':
            if not isinstance(v, (int, float)):
                return '%s for a bool' % type(v).__name__
            return None if v == m[0] else 'bool value'
        if not isinstance(v, (int, float)):
            return '%s for a float' % type(v).__name__
        try:
            if t == 'float':
                return None if struct.pack('f', v) == m else 'float value'
            if t == 'double':
                return None if struct.pack('d', float(v)) == m else 'float value'
        except OverflowError:
            return None if struct.unpack('f', m)[0] in (float('inf'), float('-inf')) else 'float value'
        return None if ctypes.c_longdouble.from_buffer_copy(m).value == float(v) else 'float value'


CHECK = C07
