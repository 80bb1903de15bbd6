"""C11: include filtering and multi-file runs, over all include graphs and
listings of a small set of files.

State: (include graph over N guarded files, ordered listing, includes on/off,
spelling of the paths). Each file declares one of everything, using what it
includes. The module is compared with a model of what is listed or needed and
with the translation of the same declarations from a single file.
"""
import io
import itertools
import os
import re
import shutil

import ctypeslib

from .. import canon, engine, impl

ALL = 'cdefstum'
SPELL = ('abs', 'rel', 'dot', 'updown', 'symdir', 'mixed', 'symmix')
# the same file name in other directories
SAME = ('same', 'nest')


def decls(i, inc):
    """declarations of file i, whose direct includes are inc"""
    l = ['#define M%d %d' % (i, i + 10)]
    for j in inc:
        l.append('#define N%d_%d M%d' % (i, j, j))
        l.append('#define O%d_%d (-%d)' % (i, j, j))
    l += ['enum E%d { K%d = %d, L%d };' % (i, i, i + 3, i),
          'struct O%d;' % i,
          'struct S%d { int a%d; %s struct S%d *self; struct O%d *o; };' % (i, i, ' '.join(
              'struct S%d s%d; T%d *t%d; enum E%d e%d;' % ((j,) * 6) for j in inc), i, i),
          'typedef struct S%d T%d;' % (i, i),
          'union U%d { T%d t; %s };' % (i, i, ' '.join('union U%d u%d;' % (j, j) for j in inc)),
          'typedef int (*F%d)(T%d *%s);' % (i, i, ''.join(', union U%d *' % j for j in inc)),
          'int f%d(T%d *%s);' % (i, i, ''.join(', struct S%d, F%d' % (j, j) for j in inc)),
          'static int v%d = %d;' % (i, i + 20),
          'static struct S%d w%d;' % (i, i),
          'typedef enum { a%dx = %d, a%dy } A%d;' % (i, i + 2, i, i),
          'typedef struct { short b%d; } B%d;' % (i, i),
          'typedef struct P%d *R%d;' % (i, i)]
    for j in inc:
        l.append('static struct S%d x%d_%d;' % (j, i, j))
        l.append('static int y%d_%d = M%d + K%d;' % (i, j, j, j))
        l.append('static int z%d_%d[M%d];' % (i, j, j))
        l += ['int g%d_%d(A%d);' % (i, j, j), 'B%d *h%d_%d(void);' % (j, i, j), 'typedef A%d *C%d_%d;' % (j, i, j),
              'typedef void (*D%d_%d)(B%d *, R%d);' % (i, j, j, j), 'int q%d_%d(R%d);' % (i, j, j), 'struct V%d_%d { A%d a[2]; B%d b; R%d r; };' % (i, j, j, j, j)]
    return l


def model(n, inc):
    """name -> (file, needs)"""
    m = {}
    for i in range(n):
        js = inc[i]
        m['M%d' % i] = (i, [])
        for j in js:
            m['N%d_%d' % (i, j)] = (i, ['M%d' % j])
            m['O%d_%d' % (i, j)] = (i, [])
        m['E%d' % i] = (i, ['K%d' % i, 'L%d' % i])
        m['K%d' % i] = m['L%d' % i] = (i, ['E%d' % i])
        m['struct_O%d' % i] = (None, [])
        m['struct_S%d' % i] = (i, ['struct_O%d' % i] + [x % j for j in js for x in ('struct_S%d', 'T%d', 'E%d')])
        m['T%d' % i] = (i, ['struct_S%d' % i])
        m['union_U%d' % i] = (i, ['T%d' % i] + ['union_U%d' % j for j in js])
        m['F%d' % i] = (i, ['T%d' % i] + ['union_U%d' % j for j in js])
        m['f%d' % i] = (i, ['T%d' % i] + [x % j for j in js for x in ('struct_S%d', 'F%d')])
        m['v%d' % i] = (i, [])
        m['w%d' % i] = (i, ['struct_S%d' % i])
        m['A%d' % i] = (i, ['a%dx' % i, 'a%dy' % i])
        m['a%dx' % i] = m['a%dy' % i] = (i, ['A%d' % i])
        m['struct_P%d' % i] = (None, [])
        m['B%d' % i] = (i, ['struct_B%d' % i])
        m['struct_B%d' % i] = (i, ['B%d' % i])
        m['R%d' % i] = (i, ['struct_P%d' % i])
        for j in js:
            m['g%d_%d' % (i, j)] = m['C%d_%d' % (i, j)] = (i, ['A%d' % j])
            m['h%d_%d' % (i, j)] = (i, ['B%d' % j])
            m['q%d_%d' % (i, j)] = (i, ['R%d' % j])
            m['D%d_%d' % (i, j)] = (i, ['B%d' % j, 'R%d' % j])
            m['struct_V%d_%d' % (i, j)] = (i, ['A%d' % j, 'B%d' % j, 'R%d' % j])
        for j in js:
            m['x%d_%d' % (i, j)] = (i, ['struct_S%d' % j])
            m['y%d_%d' % (i, j)] = (i, [])
            m['z%d_%d' % (i, j)] = (i, [])
    return m


class C11(engine.Check):
    id = 'C11'
    technique = 'explicit-state enumeration of include graphs and listings, replayed on the real translator against a reachability model and the single-file translation'
    level_note = 'exhaustive for the stated number of files'
    batch = 1
    rule = ('every include graph (edges to later files) of 3 guarded files (thorough: 4) x every ordered listing x includes '
            'on/off x path spellings; a header that is included under different conditions')
    assumptions = ['an opaque record of a file is required only where it is used']

    def cases(self):
        th = self.thorough

        def graphs(n):
            pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
            for bits in itertools.product((0, 1), repeat=len(pairs)):
                inc = tuple(tuple(j for (a, j), b in zip(pairs, bits) if b and a == i) for i in range(n))
                yield ''.join(map(str, bits)), inc

        def listings(n):
            for k in range(1, n + 1):
                yield from itertools.permutations(range(n), k)
        for n in (1, 2, 3) + ((4,) if th else ()):
            for g, inc in graphs(n):
                for l in listings(n):
                    for filt in (1, 0):
                        for sp in (SPELL if n < 4 and (th or n < 3 or len(l) < 3) else SPELL[:1]) + (SAME if n in (2, 3) else ()):
                            for ext in ('c', 'h') if n < 3 or (th and n == 3) else ('h',):
                                for kinds in (ALL, 'cdefstu') if n < 3 or sp == 'abs' else (ALL,):
                                    yield engine.Case('%d/%s/%s/%s/%s/%s/%s' % (n, g, ''.join(map(str, l)), 'fi'[1 - filt], sp, ext, kinds),
                                                      (n, inc, l, filt, sp, ext, kinds))
                if n < 4:
                    for l in listings(n):
                        for rep in dict.fromkeys([l + (x,) for x in l] + [(l[0],) + l]):
                            for filt in (1, 0):
                                yield engine.Case('%d/%s/rep%s/%s' % (n, g, ''.join(map(str, rep)), 'fi'[1 - filt]), (n, inc, rep, filt, 'abs', 'h', ALL))
        # a listed macro that uses a macro of an included file
        for ext in 'ch':
            for sp in SPELL:
                yield engine.Case('macro/%s/%s' % (sp, ext), ('macro', sp, ext))
        # one header, included under different conditions
        for l in itertools.chain.from_iterable(itertools.permutations('abk', k) for k in (1, 2, 3)):
            for filt in (1, 0):
                for order in ('ab', 'ba'):
                    yield engine.Case('cond/%s/%s/%s' % (''.join(l), 'fi'[1 - filt], order), ('cond', l, filt, order))

    def run_one(self, case):
        d = os.path.join(impl.scratch(), 'c11')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        cwd = os.getcwd()
        try:
            os.chdir(d)
            if case.payload[0] == 'cond':
                return self.cond(d, *case.payload[1:])
            if case.payload[0] == 'macro':
                return self.files(d, 2, ((1,), ()), (0,), 1, *case.payload[1:], ALL, True)
            return self.files(d, *case.payload)
        except AssertionError as e:
            return (str(e).split('\n')[0][:120], str(e))
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def paths(d, names, sp):
        os.mkdir('sub')
        os.symlink(d, 'sym')
        out = []
        for k, n in enumerate(names):
            s = {'mixed': SPELL[k % 4], 'symmix': ('symdir', 'abs')[k % 2]}.get(sp, sp)
            out.append({'abs': os.path.join(d, n), 'rel': n, 'dot': './' + n, 'updown': 'sub/../' + n, 'symdir': 'sym/' + n}[s])
        return out

    @staticmethod
    def gen(files, filt, kinds):
        cfg = impl.make_cfg(kinds=kinds)
        cfg.filter_location = bool(filt)
        out = io.StringIO()
        ctypeslib.translate_files(list(files), out, cfg)
        return out.getvalue()

    def single(self, n, inc):
        cache = self.__dict__.setdefault('_single', {})
        if (n, inc) not in cache:
            text = '\n'.join('\n'.join(decls(i, inc[i])) for i in reversed(range(n)))
            cache[n, inc] = canon.module(impl.load(impl.gen(text, kinds=ALL)))
        return cache[n, inc]

    def files(self, d, n, inc, listing, filt, sp, ext, kinds, macros=False):
        names = [{'same': 'd%d/file.' % i, 'nest': 'n/' * i + 'file.'}.get(sp, 'file%d.' % i) + ext for i in range(n)]
        for i in range(n):
            here = os.path.dirname(names[i])
            os.makedirs(here or '.', exist_ok=True)
            with open(names[i], 'w') as f:
                f.write('#ifndef G%d\n#define G%d\n%s%s\n#endif\n' % (
                    i, i, ''.join('#include "%s"\n' % os.path.relpath(names[j], here or '.') for j in inc[i]), '\n'.join(decls(i, inc[i]))))
        files = self.paths(d, [names[i] for i in listing], 'rel' if sp == 'nest' else 'abs' if sp == 'same' else sp)
        full = self.single(n, inc)
        try:
            out = self.gen(files, filt, kinds)
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), impl.tb(e))
        try:
            ns = impl.load(out)
        except Exception as e:
            return ('load:' + impl.exc_sig(e), impl.tb(e) + impl.strip_text(out)[-1500:])
        m = model(n, inc)
        inside = set(listing)
        if not filt:
            todo = list(listing)
            while todo:
                for j in inc[todo.pop()]:
                    if j not in inside:
                        inside.add(j)
                        todo.append(j)
        must = {k for k, (f, _) in m.items() if f in inside and (kinds == ALL or k[0] not in 'MNO')}
        allow, todo = set(), list(must)
        if not macros:
            must -= {k for k in must if k[0] == 'N' and int(k.split('_')[1]) not in inside}
        while todo:
            k = todo.pop()
            if k not in allow:
                allow.add(k)
                todo += m[k][1]
        detail = '\n%s\n' % files + '\n'.join(impl.strip_text(out).splitlines()[-40:])
        got = list(ns['__all__'])
        miss = sorted(must - set(got))
        assert not miss, 'not generated: %s%s' % (', '.join(miss[:4]), detail)
        extra = sorted(k for k in set(got) - allow if not re.match(r'G\d$', k))
        assert not extra, 'outside the listed files and not needed: %s%s' % (', '.join(extra[:4]), detail)
        dup = sorted({k for k in got if got.count(k) > 1})
        assert not dup, 'generated more than once: %s%s' % (', '.join(dup[:4]), detail)
        for i in range(n):
            assert len(re.findall(r'(?m)^class struct_S%d\b' % i, out)) <= 1, 'class defined twice' + detail
        mine = canon.module(ns)
        df = canon.diff({k: full.get(k) for k in must}, {k: mine.get(k) for k in must})
        assert not df, 'differs from the translation of a single file: %s%s' % (df, detail)
        return None

    def cond(self, d, listing, filt, order):
        with open('k.h', 'w') as f:
            f.write('#ifdef WANT_A\nstruct KA { int a; };\n#define KMA 1\n#endif\n#ifdef WANT_B\nstruct KB { long b; };\nint kf(struct KB *);\n#endif\n')
        for c in 'ab':
            with open(c + '.c', 'w') as f:
                f.write('#define WANT_%s\n#include "k.h"\nstruct R%s { struct K%s k; };\n' % (c.upper(), c, c.upper()))
        names = {'a': 'a.c', 'b': 'b.c', 'k': 'k.h'}
        files = [os.path.join(d, names[x]) for x in listing]
        try:
            out = self.gen(files, filt, 'cdefstu')
            ns = impl.load(out)
        except Exception as e:
            return ('fails:' + impl.exc_sig(e), impl.tb(e))
        want = set()
        for x in listing:
            want |= {'a': {'struct_Ra', 'struct_KA'}, 'b': {'struct_Rb', 'struct_KB'}, 'k': set()}[x]
        opt = {'kf'} if 'b' in listing and ('k' in listing or not filt) else set()
        got = set(ns['__all__'])
        assert want <= got, 'not generated: %s' % sorted(want - got)
        assert got <= want | opt, 'not needed: %s' % sorted(got - want - opt)
        if opt and not filt:
            assert opt <= got, 'not generated: kf'
        return None


CHECK = C11
