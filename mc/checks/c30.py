"""C30: the SDK of macOS. The platform is emulated (sys.platform, a stand-in for
xcrun in a PATH of its own); every case is a history of uses of the package in a
forked process, in which the environment changes from step to step. What clang is told
is read where the bindings call libclang.
"""
import io
import itertools
import os
import sys

from .. import engine, impl
from . import c12

# what xcrun does -> (script, the path that it prints or None for no SDK)
XCRUN = {
    'good': ('echo "@/sdk"', '@/sdk'),
    'space': ('echo "@/an sdk"', '@/an sdk'),
    'utf': ('echo "@/sdk \u00e9\u4e2d"', '@/sdk \u00e9\u4e2d'),
    'lines': ('echo; echo "  @/sdk "; echo', '@/sdk'),
    'cut': ('printf "%s" "@/sdk"', '@/sdk'),
    'noise': ('echo "warning: @/other" >&2; echo "@/sdk"', '@/sdk'),
    'input': ('cat >/dev/null </dev/null; echo "@/sdk"', '@/sdk'),
    'fail': ('exit 1', None),
    'failtext': ('echo "@/sdk"; echo "xcrun: error" >&2; exit 72', None),
    'signal': ('kill -9 $$', None),
    'missing': (None, None),
    'noexec': ('#', None),
    'directory': ('/', None),
}
VARS = {'unset': None, '1': '1', 'yes': 'yes', 'true': 'TRUE', 'long': 'x' * 300}
PLATFORMS = ['darwin', 'linux']
ENTRIES = ['config', 'extended', 'translate', 'files', 'stream', 'stepwise', 'main', 'mainargs', 'mainstdin']
SOURCE = 'struct s { char c; int a[3]; }; int v = 3; enum e { A = -1 };\n'


class C30(engine.Check):
    id = 'C30'
    technique = 'explicit-state exploration of configurations and of faults of the helper program on an emulated platform, as histories executed on the real code in forked processes'
    level_note = 'exhaustive over the stated product; the platform is emulated'
    rule = ('%d platforms x %d values of the variable x %d behaviours of xcrun x %d entry points, each also after every other (platform, variable, xcrun) '
            'of a smaller alphabet in the same process (thorough: after each of all of them)' % (len(PLATFORMS), len(VARS), len(XCRUN), len(ENTRIES)))
    assumptions = ['the platform is what sys.platform says after the import', 'empty values of the variable and "0" are not decided, nor is what -t does to the SDK']
    batch = 1
    chunk_timeout = 120

    def cases(self):
        states = list(itertools.product(PLATFORMS, VARS, XCRUN))
        small = [(p, v, x) for p in PLATFORMS for v in ('unset', '1') for x in ('good', 'space', 'fail', 'missing')]
        for s in states:
            for e in ENTRIES:
                yield engine.Case('%s/%s' % ('.'.join(s), e), ((s,), e))
        for a in (states if self.thorough else small):
            for b in small:
                for e in ENTRIES:
                    yield engine.Case('%s/%s/%s' % ('.'.join(a), '.'.join(b), e), ((a, b), e))
        for w in itertools.product([s for s in small if s[0] == 'darwin'], repeat=3):
            yield engine.Case('%s/config' % '/'.join('.'.join(s) for s in w), (w, 'config'))

    def stats(self, case):
        return (len(case.payload[0]), len(case.payload[0]), 4 * len(case.payload[0]))

    def setup_worker(self):
        c12.quiet_stderr()
        self.top = top = os.path.join(impl.scratch(), 'c30')
        for d in ('sdk', 'an sdk', 'sdk \u00e9\u4e2d', 'other'):
            os.makedirs(os.path.join(top, d, 'usr/include'))
        for x, (script, _) in XCRUN.items():
            d = os.path.join(top, 'bin', x)
            os.makedirs(d)
            f = d + '/xcrun'
            if script == '/':
                os.mkdir(f)
            elif script is not None:
                with open(f, 'w') as out:
                    out.write('#!/bin/sh\nPATH=/usr/bin:/bin\necho "$@" >> "$XCRUN_LOG"\n%s\n' % script.replace('@', top))
                os.chmod(f, 0o644 if script == '#' else 0o755)
        self.source = top + '/m.c'
        with open(self.source, 'w') as out:
            out.write(SOURCE)

    def run_one(self, case):
        states, entry = case.payload
        log = os.path.join(self.top, 'log%d' % os.getpid())

        def go():
            # what xcrun says
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            import ctypeslib
            import ctypeslib.clang2py
            from clang import cindex
            from ctypeslib.codegen import codegenerator, config
            told = []
            lib = cindex.conf.lib
            real = lib.clang_parseTranslationUnit

            def parse(index, filename, args, n, *rest):
                told.append([a.decode('utf-8', 'replace') for a in (args or [])][:n])
                return real(index, filename, args, n, *rest)
            lib.clang_parseTranslationUnit = parse
            os.environ['XCRUN_LOG'] = log
            out = []
            for i, (platform, var, xcrun) in enumerate(states):
                del told[:]
                if os.path.exists(log):
                    os.unlink(log)
                sys.platform = platform
                os.environ.pop('CTYPESLIB2_SKIP_MACOS_SDK', None)
                if VARS[var] is not None:
                    os.environ['CTYPESLIB2_SKIP_MACOS_SDK'] = VARS[var]
                os.environ['PATH'] = '%s/bin/%s' % (self.top, xcrun)
                try:
                    ns = self.use(entry, ctypeslib, config, codegenerator, log + '.py')
                    r = ('ok', (ns['v'], ns['A']))
                except Exception as e:
                    r = ('raised', type(e).__name__, str(e))
                calls = open(log).read() if os.path.exists(log) else ''
                out.append((r, told[-1] if told else None, calls))
            return out
        result = c12.in_child(go)
        if isinstance(result, tuple):
            return ('the process dies', repr(result))
        for state, (r, told, calls) in zip(states, result):
            bad = self.judge(state, entry, r, told, calls)
            if bad:
                return (bad, '%s: %s %s %s' % (state, r, told, calls))
        return None

    def use(self, entry, ct, config, codegenerator, outname):
        if entry in ('config', 'extended'):
            cfg = config.CodegenConfig()
            if entry == 'extended':
                cfg.clang_opts.extend(['-DMC=1'])
            out = io.StringIO()
            ct.translate_files([self.source], out, cfg)
            return impl.load(out.getvalue())
        if entry == 'translate':
            m = ct.translate(SOURCE)
            return {'v': m.v, 'A': m.A}
        if entry == 'files':
            m = ct.translate_files([self.source])
            return {'v': m.v, 'A': m.A}
        if entry == 'stream':
            out = io.StringIO()
            ct.translate(io.StringIO(SOURCE), out)
            return impl.load(out.getvalue())
        if entry == 'stepwise':
            tr = codegenerator.CodeTranslator(config.CodegenConfig())
            tr.preload_dlls()
            tr.parse_input_string(SOURCE)
            out = io.StringIO()
            tr.generate_code(out)
            return impl.load(out.getvalue())
        args = ['-o', outname]
        if entry == 'mainargs':
            args += ['--clang-args=-DMC=1 -Wall']
        if entry == 'mainstdin':
            sys.stdin = io.TextIOWrapper(io.BytesIO(SOURCE.encode()))
            args += ['-']
        else:
            args += [self.source]
        if os.path.exists(outname):
            os.unlink(outname)
        r = ct.clang2py.main(args)
        if r:
            raise ValueError('status %r' % r)
        with open(outname) as f:
            return impl.load(f.read())

    def judge(self, state, entry, r, told, calls):
        platform, var, xcrun = state
        wanted = platform == 'darwin' and var == 'unset'
        path = XCRUN[xcrun][1]
        if not wanted and calls:
            return 'xcrun is run although it is not needed'
        if wanted and path is None:
            if r[0] == 'ok':
                return 'a missing SDK is not reported'
            if r[1] != 'RuntimeError' or 'CTYPESLIB2_SKIP_MACOS_SDK' not in r[2]:
                return 'a missing SDK is not explained'
            return None
        if r[0] != 'ok':
            return 'the translation fails'
        if r[1] != (3, -1):
            return 'the values are wrong'
        roots = [told[i + 1] for i, a in enumerate(told[:-1]) if a == '-isysroot']
        if roots != ([path.replace('@', self.top)] if wanted else []):
            return 'clang gets the wrong SDK'
        if entry in ('extended', 'mainargs') and '-DMC=1' not in told:
            return 'clang does not get the options'
        return None


CHECK = C30
