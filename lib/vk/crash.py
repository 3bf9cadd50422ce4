"""Running the command line in forked processes that die or fail at a chosen file operation.

`Lab` (in the check) talks to a helper process, started with the shim preloaded, which imports skops once and forks a child for each run."""
from __future__ import annotations

import base64
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
NONE, BEFORE, INSIDE, FAIL, SHORT = range(5)


def build(where):
    so = os.path.join(where, "shim.so")
    for cc in ("gcc", "clang", "cc"):
        try:
            subprocess.run([cc, "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(HERE, "shim.c"), "-ldl"], check=True, capture_output=True, timeout=120)
            return so
        except FileNotFoundError:
            continue
    raise RuntimeError("no C compiler")


class Lab:
    def __init__(self, where):
        self.so = build(where)
        env = dict(os.environ, LD_PRELOAD=self.so, VK_SHIM=self.so)
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        assert self.ask(dict(ping=1)) == dict(pong=1)

    def ask(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the helper died")
        return json.loads(line)

    def run(self, argv, cwd, tmp, target=-1, mode=NONE, err=0, api=None, fsize=None, timeout=60):
        """dict(status=exit status or None when killed, ops=[names], exc=repr or None)"""
        return self.ask(dict(argv=argv, cwd=cwd, tmp=tmp, target=target, mode=mode, err=err, api=api, fsize=fsize, timeout=timeout))

    def close(self):
        self.p.stdin.close()
        self.p.wait(20)


def child(req, out, lib):
    import tempfile
    os.chdir(req["cwd"])
    os.environ["TMPDIR"] = os.environ["TEMP"] = os.environ["TMP"] = req["tmp"]
    tempfile.tempdir = None
    tempfile.gettempdir()  # finding it writes a test file
    import logging
    from pathlib import Path
    from skops.cli.entrypoint import main_cli
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)
    if req.get("fsize"):
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (req["fsize"], req["fsize"]))
    exc = None
    lib.vk_arm(req["target"], req["mode"], req["err"])
    try:
        if req.get("api"):
            from skops.cli._update import _update_file
            a = dict(req["api"])
            conv = Path if a.pop("path", False) else str
            for k in ("input_file", "output_file"):
                if a.get(k) is not None:
                    a[k] = conv(a[k])
            _update_file(**a, logger=logging.getLogger("vk"))
        else:
            main_cli(req["argv"])
    except SystemExit as e:
        exc = f"SystemExit({e.code!r})" if e.code not in (None, 0) else None
    except BaseException as e:  # noqa
        exc = f"{type(e).__name__}: {str(e)[:300]}"
    lib.vk_disarm()
    n = lib.vk_count()
    os.write(out, json.dumps(dict(status=0, exc=exc, ops=[lib.vk_name(i).decode("utf-8", "replace") for i in range(min(n, 4000))])).encode())
    os._exit(0)


def main():
    import ctypes
    import select
    import signal
    import warnings
    warnings.simplefilter("ignore")
    lib = ctypes.CDLL(os.environ["VK_SHIM"])
    lib.vk_name.restype = ctypes.c_char_p
    os.environ.pop("LD_PRELOAD", None)
    import skops.cli.entrypoint  # noqa
    import skops.cli._update  # noqa
    import sklearn.ensemble  # noqa
    import shutil  # noqa
    import tempfile  # noqa
    for line in sys.stdin:
        req = json.loads(line)
        if "ping" in req:
            res = dict(pong=1)
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    child(req, w, lib)
                finally:
                    os._exit(99)
            os.close(w)
            buf, late = b"", False
            while True:
                ready, _, _ = select.select([r], [], [], req["timeout"])
                if not ready:
                    late = True
                    os.kill(pid, signal.SIGKILL)
                    break
                d = os.read(r, 65536)
                if not d:
                    break
                buf += d
            os.close(r)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            res = json.loads(buf) if buf else dict(status=None, code=code, exc=None, ops=[], late=late)
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
