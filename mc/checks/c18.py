"""C18: presentation options, over all combinations of them, of comment texts,
comment styles, declaration kinds and file names.

Oracle: the module generated without any of the options; equal canonical
descriptions. The docstring of a function names it, its file and its line.
"""
import collections
import ctypes
import io
import itertools
import os
import re
import subprocess
import tokenize
import unicodedata

import ctypeslib
from ctypeslib.library import Library

from .. import canon, engine, impl
from . import c12

TEXTS = {
    'plain': 'the comment of @',
    'quotes': '"a" \'b\' of @ "',
    'triple': '""" \'\'\' of @ """',
    'tripleend': 'of @ ends with """',
    'backslash': 'C:\\Users\\new of @ \\',
    'escapes': '\\x41 \\N{DASH} \\u1234 \\U of @ \\n',
    'percent': '100% %s %d {0} {x} of @ $x',
    'hash': '# of @ #!/bin/x',
    'code': 'import os; @ = 5',
    'newline': 'first of @\nx = 1\n\nsecond paragraph\n  indented',
    'crlf': 'first of @\r\nx = 1\r\nlast',
    'cr': 'first of @\rx = 1',
    'unicode': 'caf\u00e9 \u4e2d\u6587 \U0001F600 \u2028 of @ \u0085 x',
    'control': 'a\x0cb\x0bc\x1cd\x1ee of @ \x7f',
    'long': 'word ' * 60 + 'of @',
    'longword': 'w' * 300 + ' of @',
    'doxygen': '\\brief of @ \\param a the a\n@return nothing <b>x</b> \\c code',
    'empty': '',
    'space': '   ',
    'tab': '\tof @\t\ttabs',
    'coding': '-*- coding: latin-1 -*- of @',
    'nested': '// /* of @ // **',
    'all': '__all__ = [] of @',
}
STYLES = {
    'block': lambda t: '/** %s */' % t,
    'qt': lambda t: '/*! %s */' % t,
    'line': lambda t: '\n'.join('/// ' + x for x in t.replace('\r', '\n').split('\n')) + '\n',
    'bang': lambda t: '\n'.join('//! ' + x for x in t.replace('\r', '\n').split('\n')) + '\n',
    'stars': lambda t: '/**\n' + '\n'.join(' * ' + x for x in t.split('\n')) + '\n */',
    'plainc': lambda t: '/* %s */' % t,
}
# name, declaration ('C' is the comment, 'T' the trailing comment)
DECLS = [
    ('struct_Rec', 'C struct Rec { int a; T\n C char b; T\n struct { int c; } d; };'),
    ('union_Uni', 'C union Uni { C int a; T\n float f; };'),
    ('Enu', 'C enum Enu { C E_ONE, T\n E_TWO = 5 T\n };'),
    ('struct_Bits', 'C struct Bits { unsigned a : 3; T\n char c; int d : 9; };'),
    ('td_t', 'C typedef struct Rec td_t; T\n'),
    ('td_fn', 'C typedef int (*td_fn)(int a, C char *b); T\n'),
    ('td_anon', 'C typedef struct { int q; T\n } td_anon; T\n'),
    ('var_i', 'C int var_i = 5; T\n'),
    ('var_s', 'C char *var_s = "some text"; T\n'),
    ('var_fp', 'C int (*var_fp)(int); T\n'),
    ('var_arr', 'C int var_arr[] = { 1, C 2 }; T\n'),
    ('var_ext', 'C extern int var_ext; T\n'),
    ('fun_a', 'C int fun_a(C int a, struct Rec *b); T\n'),
    ('fun_void', 'C void fun_void(void); T\n'),
    ('fun_cb', 'C char *fun_cb(int (*cb)(void *), ...); T\n'),
    ('lambda', 'C int lambda(int def); T\n'),
    ('struct_Fwd', 'C struct Fwd; C int use(struct Fwd *); C struct Fwd { struct Fwd *next; }; T\n'),
    ('M_INT', '#define M_INT 5 C\n'),
    ('M_STR', '#define M_STR "s" C\n'),
    ('M_FN', '#define M_FN(x) x C\n'),
    ('M_EMPTY', '#define M_EMPTY C\n'),
]
FLAGS = ('generate_comments', 'generate_docstrings', 'generate_locations', 'verbose')
# one-line declarations: name, text, the start of the definition in the module,
# whether it has comments
PLACES = [
    ('struct_PRec', 'struct PRec { int a; char b; };', 'class struct_PRec', True),
    ('union_PUni', 'union PUni { int a; float f; };', 'class union_PUni', True),
    ('PEnu', 'enum PEnu { PE_ONE, PE_TWO };', 'PEnu__enumvalues =', True),
    ('PEnu_t', 'typedef enum { PF_ONE } PEnu_t;', 'PEnu_t__enumvalues =', True),
    ('p_int', 'typedef int p_int;', 'p_int =', True),
    ('p_fn', 'typedef int (*p_fn)(int, char *);', 'p_fn =', True),
    ('p_anon', 'typedef struct { int q; } p_anon;', 'class struct_p_anon', True),
    ('p_var', 'int p_var = 7;', 'p_var =', True),
    ('p_str', 'const char *p_str = "text";', 'p_str =', True),
    ('p_arr', 'int p_arr[2] = { 1, 2 };', 'p_arr =', True),
    ('p_ext', 'extern long p_ext;', 'p_ext =', True),
    ('p_fun', 'int p_fun(int a, struct PDep *b);', '    p_fun =', True),
    ('p_void', 'void p_void(void);', '    p_void =', True),
    ('P_MAC', '#define P_MAC 5', 'P_MAC =', False),
    ('P_FUN', '#define P_FUN(x) x', '# def P_FUN', False),
]
# declarations that need PDep: none does, the first, the second or both do
NEEDS = {
    'struct_PRec': 'struct PRec { struct PDep a; char b; };', 'union_PUni': 'union PUni { struct PDep a; float f; };',
    'p_int': 'typedef struct PDep *p_int;', 'p_fn': 'typedef int (*p_fn)(struct PDep *, char *);',
    'p_anon': 'typedef struct { struct PDep q; } p_anon;', 'p_arr': 'struct PDep *p_arr[2];',
    'p_ext': 'extern struct PDep p_ext;', 'p_fun': 'int p_fun(struct PDep a, struct PDep *b);', 'p_void': 'struct PDep *p_void(void);',
}
PARAMS = ['int {}', 'unsigned long {}', 'char {}', 'float {}', 'struct PDep {}', 'struct PDep *{}', 'union PUn *{}', 'enum PEn {}', 'td_i {}', 'td_s *{}',
          'td_p {}', 'const char *{}', 'void *{}', 'int **{}', 'int {}[3]', 'int (*{})(int)', 'td_f {}', 'struct PNo *{}', 'const struct PDep *const *{}']
PTYPES = ('struct PDep { int a; }; union PUn { int a; }; enum PEn { PA }; typedef int td_i; typedef struct PDep td_s; typedef struct PDep *td_p; '
          'typedef int (*td_f)(int); struct PNo;\n')
# names of functions that are no names of Python, or others
FNAMES = ['lambda', 'def', 'None', 'a$b', '$', 'print', '__f', 'f__', 'caf\u00e9', '\u00b5', '\ufb01x', 'p', '_', 'match', 'globals', 'a__x']
NAMES = ['m.c', 'with space.c', 'quote".c', 'q\'uote.c', 'triple""".c', 'back\\slash.c', 'back\\Users.c', 'back\\N.c', 'percent%s.c', 'brace{x}.c',
         'caf\u00e9.c', 'hash#.c', 'end"""x.c', 'new\nline.c', 'dollar$x.c', '-dash.c', 'dir/sub.c', 'dir\\U/x.c', 'tab\t.c', 'cr\r.c']
LIBSRC = 'int fun_a(int a, void *b) { return 0; } void fun_void(void) {} char *fun_cb(void *a, ...) { return 0; } int lambda(int x) { return 0; } int var_ext = 4;'


def added(text):
    """the comments and the docstrings of a module"""
    out = collections.Counter()
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.COMMENT or (t.type == tokenize.STRING and t.string.startswith('"""')):
            out[t.string] += 1
    return out


class C18(engine.Check):
    id = 'C18'
    technique = 'explicit-state exploration of the product of presentation options, comment texts, styles and file names on the real generator, against the bindings without them'
    level_note = 'exhaustive over the stated product'
    rule = ('16 option combinations x 23 comment texts x 6 styles x 2 kind sets, over a source with 21 kinds of declarations, as files and as '
            'strings; x 20 file names; x libraries that export all, some or none of the functions when the module is loaded; the place of the location and comment lines of '
            'all ordered pairs of 15 one-line declarations; the docstrings of functions of all pairs of 19 parameter types and of 16 names')
    chunk_timeout = 300
    batch = 1

    def cases(self):
        for t, s in itertools.product(TEXTS, STYLES):
            for k in ('cdefstu', 'cdefstum'):
                yield engine.Case('text/%s/%s/%s' % (t, s, k), ('text', t, s, k, 0))
        if self.thorough:
            # the texts of two comments
            for t, t2 in itertools.permutations(TEXTS, 2):
                yield engine.Case('two/%s/%s' % (t, t2), ('text', (t, t2), 'block', 'cdefstum', 0))
            for t, s in itertools.product(TEXTS, STYLES):
                yield engine.Case('each/%s/%s' % (t, s), ('text', t, s, 'cdefstum', 1))
        for i, n in enumerate(NAMES):
            for k in ('cdefstu', 'cdefstum'):
                yield engine.Case('name/%d/%s' % (i, k), ('name', n, k))
        for a, b in itertools.permutations(range(len(PLACES)), 2):
            for gap, need in itertools.product((0, 3), range(4)):
                if all(not need >> i & 1 or PLACES[x][0] in NEEDS for i, x in enumerate((a, b))):
                    yield engine.Case('place/%s/%s/%d/%d' % (PLACES[a][0], PLACES[b][0], gap, need), ('place', (a, b), gap, need))
        if self.thorough:
            for w in itertools.permutations(range(len(PLACES)), 3):
                yield engine.Case('place/%s/0/0' % '/'.join(PLACES[a][0] for a in w), ('place', w, 0, 0))
        for r in range(len(PARAMS) - 5):
            for n in range(3):
                for w in itertools.product(range(len(PARAMS)), repeat=n):
                    if r < 3 or n < 2 or self.thorough:
                        yield engine.Case('prototype/%d/%s' % (r, ','.join(map(str, w))), ('prototype', r, w))
        for name in FNAMES:
            for r, lib in itertools.product((0, 6), (False, True)):
                for w in ((), (0,), (5, 11)):
                    yield engine.Case('fname/%s/%d/%d/%d' % (name, r, lib, len(w)), ('prototype', r, w, name, lib))
        for gen, load in itertools.product(('none', 'all', 'some'), repeat=2):
            yield engine.Case('lib/%s/%s' % (gen, load), ('lib', gen, load))

    def stats(self, case):
        n = {'place': 8, 'prototype': 1}.get(case.payload[0], 16)
        return (n, n, n)

    def setup_worker(self):
        c12.quiet_stderr()

    def run_one(self, case):
        self.top = os.path.join(impl.scratch(), 'c18')
        os.makedirs(self.top, exist_ok=True)
        os.chdir(self.top)
        return getattr(self, case.payload[0])(*case.payload[1:])

    def source(self, texts, style, only=None):
        n = itertools.count()
        out = []

        def comment(name, one_line):
            t = texts[next(n) % len(texts)].replace('@', name)
            if one_line and style in ('line', 'bang'):
                t = t.replace('\n', ' ').replace('\r', ' ')
            c = STYLES[style](t)
            return c + '\n' if style in ('line', 'bang') else c

        for i, (name, d) in enumerate(DECLS):
            if only is not None and i != only:
                d = d.replace('C ', '').replace(' T\n', '\n').replace(' C\n', '\n')
                out.append(d)
                continue
            # the first piece is what stands before the first comment
            pieces = d.split('C ')
            r = pieces[0]
            for part in pieces[1:]:
                r += ('\n' if not d.startswith('#') else '') + comment(name, d.startswith('#')) + '\n' + part
            if d.startswith('#'):
                c = comment(name, True).replace('\n', ' ').replace('\r', ' ')
                r = d.replace(' C\n', ' ' + c.replace('\\ ', '\\\\ ').rstrip('\\ ') + '\n')
            if ' T\n' in r:
                trail = {'block': '/**< %s */', 'qt': '/*!< %s */', 'line': '///< %s\n', 'bang': '//!< %s\n', 'stars': '/**< %s */', 'plainc': '/* %s */'}[style]
                t = texts[next(n) % len(texts)].replace('@', name)
                if '%s\n' in trail:
                    t = t.replace('\n', ' ').replace('\r', ' ').rstrip('\\ ')
                r = r.replace(' T\n', ' ' + trail % t + '\n')
            out.append(r)
        return '\n'.join(out) + '\n'

    def compare(self, translate, what, names=()):
        """translate(cfg) -> text"""
        ref = None
        single = {}
        for flags in sorted(itertools.product((False, True), repeat=4), key=sum):
            cfg = impl.make_cfg()
            on = [f for f, v in zip(FLAGS, flags) if v]
            for f in on:
                setattr(cfg, f, True)
            try:
                text = translate(cfg)
            except Exception as e:
                return ('the translation fails with presentation options' if on else 'the translation fails', '%s %s\n%s' % (what, on, impl.tb(e)))
            try:
                # as a module in a file
                ns = impl.load(text.encode('utf-8'))
                m = canon.module(ns)
            except Exception as e:
                return ('the module does not load with presentation options' if on else 'the module does not load', '%s %s\n%s' % (what, on, impl.tb(e)))
            if ref is None:
                ref = m
                missing = [n for n in names if n not in m]
                if missing:
                    raise RuntimeError('the source lacks %s' % missing)
            elif m != ref:
                return ('presentation options change the bindings', '%s %s\n%s' % (what, on, canon.diff(ref, m)))
            # each option adds the same with the others as without them
            got = added(text)
            if len(on) == 1:
                single[on[0]] = got
            for f in on if len(on) > 1 else ():
                lost = single[f] - got
                if lost:
                    return ('an option does not add its text with other options', '%s %s lacks what %s adds: %s' % (what, on, f, list(lost)[:5]))
        return None

    def text(self, t, style, kinds, each):
        texts = [TEXTS[x] for x in (t if isinstance(t, tuple) else (t,))]
        block = style in ('block', 'qt', 'stars', 'plainc')
        if block:
            texts = [x.replace('*/', '* /') for x in texts]
        for only in (range(len(DECLS)) if each else [None]):
            src = self.source(texts, style, only)
            for how in ('file', 'string'):
                with open('m.c', 'w', encoding='utf-8', newline='') as f:
                    f.write(src)

                def translate(cfg):
                    cfg.types = impl.make_cfg((), kinds).types
                    out = io.StringIO()
                    if how == 'file':
                        ctypeslib.translate_files(['m.c'], out, cfg)
                    else:
                        ctypeslib.translate(src, out, cfg)
                    return out.getvalue()
                r = self.compare(translate, '%s %s %s %s' % (t, style, kinds, how), ('struct_Rec', 'fun_a', 'var_i', 'E_TWO', 'td_fn') if style != 'line' else ())
                if r:
                    return r
        return None

    def name(self, name, kinds):
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        src = self.source([TEXTS['plain']], 'block')
        path = os.path.join(self.top, name)
        with open(path, 'w') as f:
            f.write(src)
        last = {}

        def translate(cfg):
            cfg.types = impl.make_cfg((), kinds).types
            out = io.StringIO()
            ctypeslib.translate_files([path], out, cfg)
            last['text'], last['cfg'] = out.getvalue(), cfg
            return out.getvalue()
        try:
            r = self.compare(translate, repr(name), ('struct_Rec',))
            if r:
                return r
            # docstrings
            ns = impl.load(last['text'])
            for fn in ('fun_a', 'fun_void', 'fun_cb', 'lambda'):
                doc = ns[fn].__doc__ or ''
                line = 1 + src[:src.index(' %s(' % fn if fn != 'fun_cb' else '*fun_cb(')].count('\n')
                if fn not in doc or ('%s:%d' % (path, line)).replace('\r', '\n') not in doc:
                    return ('a docstring does not show its function', '%s %s line %d: %r' % (name, fn, line, doc))
        finally:
            os.unlink(path)
        return None

    def place(self, which, gap, need):
        """the location and the comment of a declaration stand before it"""
        lines = ['struct PDep { int dep; };']
        at = {}
        for i, p in enumerate(PLACES[x] for x in which):
            lines += [''] * gap + ['/** about %s here */' % p[0], NEEDS[p[0]] if need >> i & 1 else p[1]]
            at[p[0]] = len(lines)
        with open('place.c', 'w') as f:
            f.write('\n'.join(lines) + '\n')
        for flags in itertools.product((False, True), repeat=3):
            cfg = impl.make_cfg((), 'cdefstum')
            for f, v in zip(FLAGS, flags):
                setattr(cfg, f, v)
            out = io.StringIO()
            ctypeslib.translate_files(['place.c'], out, cfg)
            text = out.getvalue().splitlines()
            for name, _, start, commented in (PLACES[x] for x in which):
                here = [i for i, l in enumerate(text) if l.startswith(start)]
                if len(here) != 1:
                    return ('a declaration is not defined once', '%s %d times' % (name, len(here)))
                before = text[:here[0]]
                if start[0] == ' ':
                    before = before[:-1]        # try:
                # up to the code before it
                code = [i for i, l in enumerate(before) if l and l[0] != '#']
                before = before[code[-1] + 1:]
                if flags[2]:
                    loc = [l for l in before if l.startswith('# place.c')]
                    if ['#', 'place.c', str(at[name])] not in [l.replace(':', ' ').split() for l in loc]:
                        return ('the location before a declaration is not its own', '%s of line %d: %s' % (name, at[name], loc[-1:]))
                elif any('place.c' in l for l in before):
                    return ('a location without its option', name)
                about = [l for l in before if l.startswith('# about ')]
                if flags[0] and commented:
                    if set(about) != {'# about %s here' % name}:
                        return ('the comment before a declaration is not its own', '%s: %s' % (name, about[-1:]))
                elif not flags[0] and about:
                    return ('a comment without its option', name)
        return None

    def prototype(self, r, w, fname='p_fun', lib=False):
        """the docstring of a function has its prototype"""
        names = ['', 'second'] if len(w) > 1 else ['first']
        ret = PARAMS[r].format('%s(%s)' % (fname, ', '.join(PARAMS[p].format(n) for p, n in zip(w, names)) or 'void'))
        with open('proto.c', 'w') as f:
            f.write(PTYPES + ret + ';\n')
        cfg = impl.make_cfg((), 'cdefstu')
        cfg.generate_docstrings = True
        if lib:
            if not os.path.exists('libnames.so'):
                subprocess.run(['gcc', '-shared', '-fPIC', '-fno-builtin', '-x', 'c', '-', '-o', 'libnames.so'], input=''.join('int %s(void) { return 0; }\n' % x for x in FNAMES).encode(), check=True)
            cfg.searched_dlls = [Library('./libnames.so', nm='nm')]
        out = io.StringIO()
        ctypeslib.translate_files(['proto.c'], out, cfg)
        ns = impl.load(out.getvalue())
        # the name as the Python parser has it
        fn = ns.get(fname) or ns[unicodedata.normalize('NFKC', fname)]
        doc = fn.__doc__ or ''
        m = re.fullmatch(r'(\S+) ' + re.escape(fname) + r'\((.*)\)\n    proto.c:2', doc)
        if not m:
            return ('a docstring is no prototype', doc)
        args = m.group(2).split(', ') if m.group(2) else []
        if len(args) != len(w):
            return ('a docstring has other parameters', doc)
        for i, (t, arg, name) in enumerate(zip([fn.restype] + list(fn.argtypes), [m.group(1)] + args, [None] + names)):
            tname, _, aname = arg.partition(' ')
            if name is not None and aname != (name or 'p%d' % i):
                return ('a docstring names another parameter', doc)
            base = tname
            while base.startswith('LP_'):
                base = base[3:]
            if base == 'FP_':
                # a function
                if not issubclass(t, ctypes._CFuncPtr):
                    return ('a docstring has another type', '%s: %s' % (arg, t))
                continue
            want = None if base == 'None' else ns[base] if base in ns else getattr(ctypes, base, base)
            for _ in range((len(tname) - len(base)) // 3):
                want = ctypes.POINTER(want)
            if want is not t:
                return ('a docstring has another type', '%s: %s' % (arg, t))
        return None

    def lib(self, gen, load):
        """libraries that export other functions when the module is loaded"""
        def build(what):
            text = {'none': 'int nothing;', 'all': LIBSRC, 'some': 'int fun_a(int a, void *b) { return 0; } int var_ext = 4;'}[what]
            if os.path.exists('libpres.so'):
                os.unlink('libpres.so')
            subprocess.run(['gcc', '-shared', '-fPIC', '-x', 'c', '-', '-o', 'libpres.so'], input=text.encode(), check=True)
        src = self.source([TEXTS['plain']], 'block')
        with open('m.c', 'w') as f:
            f.write(src)
        texts = {}

        def outcome(fn):
            def go():
                try:
                    return fn()
                except Exception as e:
                    return 'raised %s' % type(e).__name__
            return go
        build(gen)
        for flags in itertools.product((False, True), repeat=4):
            cfg = impl.make_cfg((), 'cdefstum')
            for f, v in zip(FLAGS, flags):
                setattr(cfg, f, v)
            cfg.searched_dlls = [Library('./libpres.so', nm='nm')]
            out = io.StringIO()
            ctypeslib.translate_files(['m.c'], out, cfg)
            texts[flags] = out.getvalue()
        build(load)
        ref = None
        for flags, text in texts.items():
            # in a process of its own: libraries stay loaded
            r = c12.in_child(outcome(lambda: repr(sorted(canon.module(impl.load(text)).items()))))
            if ref is None:
                ref = r
            elif r != ref:
                return ('presentation options change what loads', '%s %s %s: %s / %s' % (gen, load, [f for f, v in zip(FLAGS, flags) if v], ref[:200], r[:200]))
        return None


CHECK = C18
