"""Access to the code under test, through its public entry points only."""
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import traceback
import warnings

REPO = os.environ.get('MC_REPO', '/repo')
warnings.simplefilter('ignore')
import ctypeslib                                                    # noqa: E402
from ctypeslib.codegen import config as ct_config                   # noqa: E402
from ctypeslib.codegen import typedesc                              # noqa: E402
from ctypeslib.codegen.codegenerator import CodeTranslator          # noqa: E402
from ctypeslib.codegen.handler import InvalidTranslationUnitException  # noqa: E402

if not os.path.abspath(ctypeslib.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError('ctypeslib imported from %s, not from %s' % (ctypeslib.__file__, REPO))
logging.disable(logging.CRITICAL)

_scratch = None


def scratch():
    """Per-process scratch directory, removed at exit by the engine's parent."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = os.environ['MC_SCRATCH']
        d = tempfile.mkdtemp(prefix='w', dir=base)
        _scratch = (os.getpid(), d)
    return _scratch[1]


def write_src(src, name='m.c'):
    path = os.path.join(scratch(), name)
    if isinstance(src, bytes):
        with open(path, 'wb') as f:
            f.write(src)
    else:
        with open(path, 'w', encoding='utf-8') as f:
            f.write(src)
    return path


def make_cfg(opts=(), kinds=None, **attrs):
    cfg = ct_config.CodegenConfig()
    cfg.clang_opts = list(cfg.clang_opts) + list(opts)
    if kinds is not None:
        table = {'a': typedesc.Alias, 'c': typedesc.Structure, 'd': typedesc.Variable,
                 'e': typedesc.Enumeration, 'f': typedesc.Function, 'm': typedesc.Macro,
                 's': typedesc.Structure, 't': typedesc.Typedef, 'u': typedesc.Union}
        cfg.types = [table[k] for k in kinds]
    for k, v in attrs.items():
        setattr(cfg, k, v)
    return cfg


def gen(src, opts=(), kinds=None, name='m.c', **attrs):
    """translate one source text (through a file) -> generated text"""
    path = write_src(src, name)
    out = io.StringIO()
    ctypeslib.translate_files([path], out, make_cfg(opts, kinds, **attrs))
    return out.getvalue()


def load(text, modname='generated'):
    ns = {'__name__': modname}
    exec(compile(text, '<generated>', 'exec'), ns)
    return ns


def exc_sig(e):
    """signature of an exception: type and the innermost ctypeslib frame's
    function is deliberately left out (refactorings move it)"""
    m = str(e)
    m = re.sub(r'0x[0-9a-f]+', '0x', m)
    m = re.sub(r'/[^\s:]*/', '', m)
    m = re.sub(r'\d+', '#', m)
    return '%s:%s' % (type(e).__name__, m[:80])


def tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]


def strip_text(text):
    """Only the declarations part of a generated module (for details)."""
    text = re.sub(r'(?s)class AsDictMixin:.*?class Union\(ctypes.Union, AsDictMixin\):\n    pass\n', '', text)
    return text
