"""Independent oracles: constants evaluated by the compilers."""
import functools
import os
import re
import subprocess

from clang import cindex

HOST = 'x86_64-linux-gnu'
TARGETS = {
    'host': [],
    'x86_64-linux': ['-target', 'x86_64-linux-gnu'],
    'i386-linux': ['-target', 'i386-linux-gnu'],
    'i686-windows': ['-target', 'i686-pc-windows-msvc'],
    'x86_64-windows': ['-target', 'x86_64-pc-windows-msvc'],
    'arm': ['-target', 'arm-linux-gnueabihf'],
    'aarch64': ['-target', 'aarch64-linux-gnu'],
    'm68k': ['-target', 'm68k-linux-gnu'],
    'x32': ['-target', 'x86_64-linux-gnux32'],
    'mips': ['-target', 'mips-linux-gnu'],
    'ppc64': ['-target', 'powerpc64-linux-gnu'],
    'riscv32': ['-target', 'riscv32-linux-gnu'],
    'avr': ['-target', 'avr'],
    'msp430': ['-target', 'msp430'],
}


class OracleError(Exception):
    pass


def clang_consts(src, exprs, opts=(), lang='c'):
    """Evaluate constant expressions after the given source with libclang's
    constant evaluator; sign-preserving."""
    body = src + '\nenum __mc_oracle { ' + ', '.join(
        '__mc_k%d = (%s)' % (i, e) for i, e in enumerate(exprs)) + ' };\n'
    name = 'oracle.c' if lang == 'c' else 'oracle.cpp'
    args = list(opts) + ['-w']
    tu = cindex.TranslationUnit.from_source(name, args, unsaved_files=[(name, body)])
    for d in tu.diagnostics:
        if d.severity > 2:
            raise OracleError('%s at %s\n%s' % (d.spelling, d.location.line, body[:3000]))
    vals = None
    for c in tu.cursor.get_children():
        if c.spelling == '__mc_oracle':
            vals = [k.enum_value for k in c.get_children() if k.kind == cindex.CursorKind.ENUM_CONSTANT_DECL]
    if vals is None or len(vals) != len(exprs):
        raise OracleError('oracle produced no constants')
    return vals


def gcc_consts(src, exprs, opts=(), lang='c'):
    """Evaluate constant expressions with gcc (host) via -S."""
    body = src + '\nconst long long __mc_tab[] = { ' + ', '.join('(long long)(%s)' % e for e in exprs) + ' };\n'
    if lang != 'c':
        body = src + '\nextern "C" const long long __mc_tab[]; const long long __mc_tab[] = { ' + ', '.join(
            '(long long)(%s)' % e for e in exprs) + ' };\n'
    p = subprocess.run(['gcc' if lang == 'c' else 'g++', '-x', 'c' if lang == 'c' else 'c++', '-S', '-w', '-O0',
                        '-fno-merge-constants'] + list(opts) + ['-o', '-', '-'],
                       input=body, capture_output=True, text=True)
    if p.returncode:
        raise OracleError(p.stderr[:2000] + body[:2000])
    vals = []
    on = False
    for line in p.stdout.splitlines():
        line = line.strip()
        if line == '__mc_tab:':
            on = True
        elif on:
            m = re.match(r'\.quad\s+(-?\d+)$', line)
            z = re.match(r'\.zero\s+(\d+)$', line)
            if m:
                vals.append(int(m.group(1)))
            elif z:
                vals.extend([0] * (int(z.group(1)) // 8))
            elif line.startswith('.') and (vals):
                break
    if len(vals) != len(exprs):
        raise OracleError('gcc table has %d of %d' % (len(vals), len(exprs)))
    return vals


def consts(src, exprs, target='host', opts=(), lang='c'):
    if not exprs:
        return []
    if target == 'host':
        return gcc_consts(src, exprs, opts, lang)
    return clang_consts(src, exprs, TARGETS[target] + list(opts), lang)


BASES = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long',
         'unsigned long', 'long long', 'unsigned long long', '_Bool', 'float', 'double', 'long double']


class Target:
    def __init__(self, name, opts=()):
        self.name = name
        self.opts = TARGETS[name] + list(opts)
        exprs = ['sizeof(%s)' % b for b in BASES] + ['sizeof(void*)', '(char)-1 > 0']
        vals = clang_consts('', exprs, self.opts)
        self._sizes = dict(zip(BASES, vals))
        self._sizes['__int128'] = self._sizes['unsigned __int128'] = 16
        self._sizes['bool'] = self._sizes['_Bool']
        self.ptr = vals[len(BASES)]
        self.char_unsigned = bool(vals[-1])

    def sizeof(self, b):
        return self._sizes[b]


@functools.lru_cache(None)
def target(name, opts=()):
    return Target(name, opts)
