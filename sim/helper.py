"""A second pristine process with other hash seeds and interpreter options, asked for reference answers.

Run as: python -m sim.helper PROP   (JSON lines on stdin/stdout, one fork per question)
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile


class Helper:
    """Client side, created at warm-up; usable from forked runs (one at a time)."""

    def __init__(self, prop, hashseed, flags=()):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TZ="UTC", LC_ALL="C.UTF-8")
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", *flags, "-m", "sim.helper", prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.w, self.r = self.p.stdin.fileno(), self.p.stdout.fileno()
        hello = self._line()
        if hello.get("ready") is not True:
            raise RuntimeError(hello.get("error", "helper did not start"))

    def _line(self):
        buf = b""
        while not buf.endswith(b"\n"):
            b = os.read(self.r, 1 << 20)
            if not b:
                return {"error": "helper died"}
            buf += b
        return json.loads(buf.splitlines()[-1])

    def ask(self, **req):
        req["qid"] = f"{os.getpid()}-{os.urandom(4).hex()}"
        data = json.dumps(req).encode() + b"\n"
        while data:
            data = data[os.write(self.w, data):]
        while True:
            res = self._line()
            if res.get("qid") == req["qid"] or "qid" not in res:
                return res


def main():
    rin = os.fdopen(os.dup(0), "r", encoding="utf-8")
    rout = os.fdopen(os.dup(1), "w", encoding="utf-8")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    from . import site
    scratch = tempfile.mkdtemp(prefix="verif-h-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        mod = importlib.import_module(f"sim.props.{sys.argv[1].lower()}")
        mod.warm_helper()
        clean = site.Clean()
        hello = {"ready": True}
    except BaseException:
        import traceback
        hello = {"ready": False, "error": traceback.format_exc()}
    rout.write(json.dumps(hello) + "\n")
    rout.flush()
    for line in rin:
        req = json.loads(line)
        res = clean.ask(scratch=scratch, **req)
        res["qid"] = req["qid"]
        rout.write(json.dumps(res) + "\n")
        rout.flush()
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
