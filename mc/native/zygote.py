"""Runs translations in forked children with faults armed (see faults.c).

Protocol, on the descriptors MC_FDS (requests, answers): one JSON line
each. Run with LD_PRELOAD=faults.so."""
import ctypes
import json
import os
import sys

import ctypeslib                    # noqa: F401
from ctypeslib import clang2py
from ctypeslib.codegen import config
import traceback                    # noqa: F401
import textwrap, locale, tempfile, subprocess, encodings.ascii, encodings.latin_1, random, shutil  # noqa

shim = ctypes.CDLL(None)
shim.mc_path.restype = ctypes.c_char_p


def api(job):
    cfg = config.CodegenConfig()
    out = open(job['api'], 'w', encoding='utf-8')
    try:
        ctypeslib.translate_files(job['argv'], out, cfg)
    finally:
        out.close()
    return 0


def string(job):
    with open(job['argv'][0]) as f:
        src = f.read()
    out = open(job['string'], 'w', encoding='utf-8')
    try:
        ctypeslib.translate(src, out, config.CodegenConfig())
    finally:
        out.close()
    return 0


def main():
    shim.mc_init(os.environ['MC_DIR'].encode())
    fds = [int(x) for x in os.environ['MC_FDS'].split()]
    req, ans = os.fdopen(fds[0], 'r'), os.fdopen(fds[1], 'w')
    # the lazily imported parts
    null = open(os.devnull, 'w')
    ctypeslib.translate_files(os.environ['MC_WARM'], null)
    null.close()
    while True:
        line = req.readline()
        if not line:
            return 0
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            os.chdir(job['cwd'])
            for fd, name, mode in ((0, job['stdin'], os.O_RDONLY), (1, job['stdout'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                                   (2, job['stderr'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
                f = os.open(name, mode, 0o600)
                os.dup2(f, fd)
                if f != fd:
                    os.close(f)
            tempfile.tempdir = job['tmp']
            n, err, sticky, short = job['fault'][:4]
            shim.mc_arm(n, err, sticky, short, (job['fault'] + [-1])[4])
            if 'api' in job:
                return api(job)
            if 'string' in job:
                return string(job)
            # as the console script does
            return clang2py.main(job['argv'])
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        n = shim.mc_count()
        ev = [(chr(shim.mc_op(i)), shim.mc_path(i).decode()) for i in range(n)] if job.get('events') else n
        ans.write(json.dumps({'status': code, 'events': ev, 'hits': shim.mc_hits()}) + '\n')
        ans.flush()


sys.exit(main())
