"""C14: the output is a function of the input, over all resolutions of the
nondeterminism a process has.

Part 'order': the translator is loaded through an import hook which makes every
set of ctypeslib (set displays, comprehensions, set(), frozenset()) iterate in
an order chosen by the explorer, and every id()/hash() number objects in an
order chosen by it. Every choice point of a translation is enumerated: each
one alone takes every permutation (all orders up to 4 elements, above that the
adjacent exchanges, rotations and the reversal), and all of them together are
reversed or rotated.

Part 'env': the product of hash seeds, locales, working directories, Python
optimisation levels and allocators, each in a process of its own; byte-wise
comparison of the written file.

Part 'again': every number of earlier runs of the same translation up to n.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import io
import itertools
import operator
import os
import subprocess
import sys

from .. import engine, impl
from . import c12

PKG = os.path.join(os.path.abspath(impl.REPO), 'ctypeslib')

SRC = {
    'c': '''#include "dep.h"
struct A { struct D d; struct E { int z; } e; union { int i; float f; } u; enum { P, Q = 9 } q; unsigned b : 3, c : 5; };
struct B; typedef struct B *Bp; struct C { Bp n; struct B *m; struct A a[3]; }; struct B { struct C c; };
enum Kind { K0, K1 = -5, K2 }; int f(struct B *b, enum Kind k, Bp (*cb)(void *, long double)); extern int ev; char *s = "text"; double d[] = { 1, 2.5 };
#define M1 1
#define M2 (M1 + 2)
#define M3 "x" "y"
#define FN(x) x
int (*fp)(int); const int ci = M1;
''',
    'fwd': 'struct A; struct B; struct C { struct A *a; struct B *b; struct D *d; }; struct A { struct B *x; }; struct B { struct A y; struct C z; }; struct D { int i; };',
    'cpp': '''struct Q1 { int a; }; struct Q2 { int b; }; struct Q3 { char c; }; struct Q4 { struct Q3 q; };
class Base { public: struct Q1 m1; struct Q2 m2; struct Q3 *m3; struct Q4 m4; struct In { int z; } in; struct In2 { long z; } in2; };
class Second { public: struct In3 { int z; } a; struct Q3 b; union In4 { int y; float f; } c; };
class Ext : public Base { public: int e; }; class Two : public Base, public Second { int g; };
namespace ns { struct N { int x; }; class NE : public Second { N n; }; }
''',
    # many declarations that only those of the list need
    'need': '#include "dep.h"\n' + ''.join('struct r%d { int x[%d]; }; struct s%d { struct r%d r; struct r%d *p; struct D *d; }; ' % (i, i + 1, i, i, i) for i in range(4)) +
            'struct all { struct s0 *a; struct s1 *b; struct s2 *c; struct s3 *d; }; int f(struct r3 *, struct s1 *, struct s2); int g(struct r0, di, struct DD *);\n'
            'typedef struct s3 *t3; typedef struct r2 t2[2]; extern t3 v3; extern t2 v2; extern struct all va[2]; typedef int (*cb)(struct r1 *, t3, struct s0); struct h { cb c; };\n',
    'utf': '/** caf\u00e9 \u4e2d */ struct A { int a; /**< \u00fc */ };\nchar *s = "\u00e9\u4e2d"; int f(struct A *);\n#define G "\u00df"\n',
}
DEP = 'struct D { struct DD *p; long l; struct DI { short s; } i; }; typedef int di; struct DD { di x; };\n'
OPTS = {'c': ['m', 'i', 'sym', 'doc', 'rex', 'i386'], 'fwd': ['', 'sym2'], 'cpp': ['', 'sel'], 'need': ['all', 'alli', 'funs', 'vars', 'tds', 'rexn', 'kinds', ''], 'utf': ['doc', 'm']}


def config(name):
    from ctypeslib.codegen import config as cc, typedesc as td
    import re
    cfg = cc.CodegenConfig()
    table = {'c': td.Structure, 'd': td.Variable, 'e': td.Enumeration, 'f': td.Function, 't': td.Typedef, 'u': td.Union, 's': td.Structure}
    cfg.types = list(table.values()) + [td.Macro]
    if name == 'i':
        cfg.filter_location = False
    if name == 'sym':
        cfg.symbols = ['struct_B', 'f', 'M2', 's', 'Kind', 'struct_A']
    if name == 'sym2':
        cfg.symbols = ['struct_C', 'struct_B', 'nope1', 'nope2']
    if name == 'sel':
        cfg.symbols = ['class_Two', 'class_NE', 'class_Ext']
    lists = {'all': ['struct_all'], 'alli': ['struct_all'], 'funs': ['f', 'g'], 'vars': ['v3', 'v2', 'va'], 'tds': ['t3', 'struct_h', 't2']}
    if name in lists:
        cfg.symbols = lists[name]
    if name == 'alli':
        cfg.filter_location = False
    if name == 'rexn':
        cfg.expressions = [re.compile('[cfhv].*'), re.compile('struct_all')]
    if name == 'kinds':
        cfg.types = [td.Function, td.Typedef, td.Variable]
    if name == 'rex':
        cfg.expressions = [re.compile('struct_.*'), re.compile('M.*'), re.compile('[a-f]')]
    if name == 'doc':
        cfg.generate_comments = cfg.generate_docstrings = cfg.generate_locations = True
        cfg.verbose = True
    if name == 'i386':
        cfg.clang_opts = list(cfg.clang_opts) + ['-target', 'i386-linux-gnu']
    return cfg


# ---- controlled sets -----------------------------------------------------
class Oracle:
    """answers of the explorer to the choice points of one execution"""
    def __init__(self):
        self.reset({}, None)

    def reset(self, plan, strategy):
        self.plan = plan
        self.strategy = strategy
        self.sizes = []

    def order(self, items):
        n = len(items)
        if n < 2:
            return items
        i = len(self.sizes)
        self.sizes.append(n)
        if self.strategy == 'reverse':
            return items[::-1]
        if self.strategy == 'rotate':
            return items[1:] + items[:1]
        if i in self.plan:
            return [items[j] for j in self.plan[i]]
        return items


ORACLE = Oracle()


class _Meta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, (set, frozenset))


def _wrap(name):
    op = getattr(set, name)

    def method(self, *others):
        r = op(self, *others)
        if r is NotImplemented or r is None:
            return r
        order = list(self.keys())
        for o in others:
            order += list(o.keys()) if type(o) is MCSet else sorted_items(o)
        return MCSet([x for x in order if set.__contains__(r, x)])
    return method


def sorted_items(o):
    try:
        return list(o)
    except TypeError:
        return []


class MCSet(set, metaclass=_Meta):
    """a set whose iteration order is the explorer's; elements are numbered
    in the order of their first insertion"""
    def __init__(self, items=()):
        super().__init__()
        self._seq = {}
        self.update(items)

    __hash__ = None

    def keys(self):
        return sorted(set.__iter__(self), key=lambda e: self._seq[e])

    def __iter__(self):
        return iter(ORACLE.order(self.keys()))

    def __reduce__(self):
        return (MCSet, (self.keys(),))

    def add(self, x):
        self._seq.setdefault(x, len(self._seq))
        set.add(self, x)

    def update(self, *its):
        for it in its:
            for x in (it.keys() if type(it) is MCSet else it):
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def pop(self):
        k = ORACLE.order(self.keys())
        if not k:
            raise KeyError('pop from an empty set')
        set.remove(self, k[0])
        return k[0]

    def copy(self):
        return MCSet(self.keys())

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self))


for _n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union', 'intersection', 'difference', 'symmetric_difference'):
    setattr(MCSet, _n, _wrap(_n))


def _sym_update(self, o):
    for x in list(o):
        if set.__contains__(self, x):
            set.discard(self, x)
        else:
            self.add(x)


MCSet.symmetric_difference_update = _sym_update
MCSet.__ixor__ = lambda self, o: (_sym_update(self, o), self)[1]


class MCFrozen(MCSet):
    def __hash__(self):
        return hash(frozenset(set.__iter__(self)))


_NUM = {}
_KEEP = []


def mc_id(o):
    k = builtins.id(o)
    if k not in _NUM:
        _NUM[k] = len(_NUM)
        _KEEP.append(o)
    n = _NUM[k]
    return 1000000 - 16 * n if ORACLE.strategy in ('reverse', 'rotate') else 1000000 + 16 * n


class Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('mc__set__', ast.Load()), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('mc__set__', ast.Load()), [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = OPS.get(type(node.op))
        if op is None:
            return node
        return ast.copy_location(ast.Call(ast.Name('mc__binop__', ast.Load()), [ast.Constant(op.__name__), node.left, node.right], []), node)

    def visit_Name(self, node):
        new = {'set': 'mc__set__', 'frozenset': 'mc__frozen__', 'id': 'mc__id__'}.get(node.id)
        if new and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Name(new, ast.Load()), node)
        return node


def mc_op(a, b, r):
    """the sets that operators make of other things, like views of dictionaries"""
    if type(r) not in (set, frozenset):
        return r
    order = []
    for o in (a, b):
        order += o.keys() if isinstance(o, MCSet) else list(o) if not isinstance(o, (set, frozenset)) else []
    return MCSet([x for x in order if x in r] + sorted((x for x in r if x not in order), key=repr))


OPS = {ast.Sub: operator.sub, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor}


def mc_binop(name, a, b):
    return mc_op(a, b, getattr(operator, name)(a, b))


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(self.get_data(path))))
        return compile(tree, path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'ctypeslib' and not name.startswith('ctypeslib.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(name, spec.origin)
        return spec


def instrumented():
    import builtins as b
    setattr(b, 'mc__set__', MCSet)
    setattr(b, 'mc__frozen__', MCFrozen)
    setattr(b, 'mc__id__', mc_id)
    setattr(b, 'mc__binop__', mc_binop)
    for m in list(sys.modules):
        if m.split('.')[0] in ('ctypeslib', 'clang'):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder())
    import ctypeslib
    assert ctypeslib.__file__.startswith(PKG)
    return ctypeslib


def orders(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))[1:]
    base = list(range(n))
    out = [base[::-1]] + [base[k:] + base[:k] for k in range(1, n)]
    for i in range(n - 1):
        out.append(base[:i] + [i + 1, i] + base[i + 2:])
    return [tuple(x) for x in out]


SEEDS, LOCALES, CWDS, OPTIM, ALLOC = ['0', '1', '2', '7'], ['utf', 'ascii', 'home'], ['here', 'else'], ['', '2'], ['', 'debug']


class C14(engine.Check):
    id = 'C14'
    technique = 'model checking of the real translator: enumeration of all resolutions of its nondeterminism (set and identity orders, process environments, earlier runs)'
    level_note = 'exhaustive over single choice points and over the stated environments'
    rule = ('every choice point of the set orders takes every permutation alone (thorough: and every pair of choice points), all of '
            'them together reversed and rotated; product of 4 hash seeds, 3 locales, 2 working directories, 2 optimisation levels, 2 allocators; 0-4 earlier runs')
    assumptions = ['sets made inside the standard library are not controlled', 'dictionaries are ordered by insertion (Python language)']
    chunk_timeout = 400
    batch = 1

    def cases(self):
        for s in SRC:
            for o in OPTS[s]:
                yield engine.Case('order/%s/%s' % (s, o), ('order', s, o))
        for s in SRC:
            for o in OPTS[s]:
                yield engine.Case('again/%s/%s' % (s, o), ('again', s, o))
        seeds = SEEDS + [str(x) for x in range(10, 40)] if self.thorough else SEEDS
        for s in SRC:
            for seed, loc, cwd, opt, al in itertools.product(seeds, LOCALES, CWDS, OPTIM, ALLOC):
                if not self.thorough and (seeds.index(seed) + LOCALES.index(loc) + CWDS.index(cwd) + OPTIM.index(opt) + ALLOC.index(al)) % 2 and s != 'cpp':
                    continue
                yield engine.Case('env/%s/%s.%s.%s.%s.%s' % (s, seed, loc, cwd, opt, al), ('env', s, (seed, loc, cwd, opt, al)))

    def stats(self, case):
        return (1, 1, 1)

    def setup_worker(self):
        c12.quiet_stderr()

    def files(self):
        d = os.path.join(impl.scratch(), 'c14')
        if not os.path.isdir(d):
            os.makedirs(d)
            with open(d + '/dep.h', 'w') as f:
                f.write(DEP)
            for s, t in SRC.items():
                with open('%s/%s' % (d, self.name(s)), 'w', encoding='utf-8') as f:
                    f.write(t)
        return d

    @staticmethod
    def name(s):
        return 'src_%s.%s' % (s, 'cpp' if s == 'cpp' else 'c')

    def run_one(self, case):
        kind, s, x = case.payload
        d = self.files()
        if kind == 'env':
            return self.env(s, x, d)
        r = c12.in_child(lambda: self.order(s, x, d) if kind == 'order' else self.again(s, x, d))
        if isinstance(r, tuple) and r[0] == 'child':
            return ('the translator dies', str(r[1]))
        return r

    def translate(self, ct, s, o):
        out = io.StringIO()
        try:
            ct.translate_files([self.name(s)], out, config(o))
        except Exception as e:
            return 'raised %s' % type(e).__name__
        return out.getvalue()

    def order(self, s, o, d):
        os.chdir(d)
        ct = instrumented()

        def run(plan, strategy=None):
            ORACLE.reset(plan, strategy)
            return self.translate(ct, s, o)
        gold = run({})
        sizes = list(ORACLE.sizes)
        if gold.startswith('raised'):
            return ('the translation fails', gold)
        plans = [({}, 'reverse'), ({}, 'rotate')]
        singles = [(i, p) for i, n in enumerate(sizes) for p in orders(n)]
        plans += [({i: p}, None) for i, p in singles[:3000]]
        if self.thorough:
            plans += [({i: p, j: q}, None) for (i, p), (j, q) in itertools.combinations(singles[:60], 2) if i != j]
        for plan, st in plans:
            r = run(plan, st)
            if r != gold:
                a, b = gold.splitlines(), r.splitlines()
                return ('the output depends on the order of a set', '%s %s: %s %s %s' % (s, o, plan, st, [x for x in zip(a, b) if x[0] != x[1]][:3]))
        return engine.Held((len(plans) + 1, (len(plans) + 1) * len(sizes), len(plans)))

    def again(self, s, o, d):
        os.chdir(d)
        import ctypeslib
        outs = []
        junk = []
        for n in range(5 if not self.thorough else 12):
            outs.append(self.translate(ctypeslib, s, o))
            junk.append([object() for _ in range(1000 + 37 * n)])
        if outs[0].startswith('raised'):
            return ('the translation fails', outs[0])
        for n, r in enumerate(outs):
            if r != outs[0]:
                a, b = outs[0].splitlines(), r.splitlines()
                return ('a later run gives another output', '%s %s run %d: %s' % (s, o, n, [x for x in zip(a, b) if x[0] != x[1]][:3]))
        return None

    def env(self, s, x, d):
        gold = self.__dict__.setdefault('_gold', {})
        first = (SEEDS[0], LOCALES[0], CWDS[0], OPTIM[0], ALLOC[0])
        if s not in gold:
            gold[s] = self.process(s, first, d)
            if isinstance(gold[s], str):
                return ('the translation fails', gold[s])
        r = self.process(s, x, d)
        if isinstance(r, str):
            return ('the translation fails in another environment', '%s %s: %s' % (s, x, r))
        if r != gold[s]:
            a, b = gold[s].splitlines(), r.splitlines()
            return ('the output depends on the environment', '%s %s: %s' % (s, x, [y for y in zip(a, b) if y[0] != y[1]][:3] or (len(a), len(b))))
        return None

    def process(self, s, x, d):
        seed, loc, cwd, opt, al = x
        env = {'PATH': os.environ['PATH'], 'PYTHONHASHSEED': seed, 'PYTHONPATH': impl.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore'}
        if loc == 'utf':
            env.update(LC_ALL='C.UTF-8', HOME='/root')
        elif loc == 'ascii':
            env.update(LC_ALL='POSIX', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', HOME='/nonexistent')
        else:
            env.update(LANG='C', TZ='Asia/Tokyo', COLUMNS='20', HOME=d, TMPDIR=d, USER='x')
        if opt:
            env['PYTHONOPTIMIZE'] = opt
        if al:
            env['PYTHONMALLOC'] = al
        out = '%s/out_%d.py' % (d, os.getpid())
        wd = d
        if cwd == 'else':
            wd = d + '/other'
            os.makedirs(wd, exist_ok=True)
        args = ['-k', 'cdefstum', '-i', '-o', out, os.path.join(d, self.name(s))]
        if s != 'utf':
            args[:0] = ['-e', '-d']
        args[:0] = ['-c'] if s == 'utf' else []
        p = subprocess.run([sys.executable, '-c', 'import sys\nfrom ctypeslib import clang2py\nsys.exit(clang2py.main(sys.argv[1:]))'] + args,
                           cwd=wd, env=env, capture_output=True, timeout=120)
        if p.returncode:
            return p.stderr.decode('utf-8', 'replace')[-600:]
        with open(out, 'rb') as f:
            t = f.read()
        os.unlink(out)
        # the command line is echoed with -c
        return t.replace(out.encode(), b'OUT')


CHECK = C14
