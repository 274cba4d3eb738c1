"""Talks to the batch driver: every case runs the real program in a child process of its own."""
import json, os, select, shutil, subprocess, tempfile
from . import build as B

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LC_ALL": "C",
})


class Driver:
    """One driver process. run(request) -> reply."""

    def __init__(self, exe, scratch):
        self.exe, self.scratch = exe, scratch
        os.makedirs(scratch, exist_ok=True)
        self.p = None

    def _start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.scratch, env=ENV, bufsize=1 << 20)

    def run(self, req):
        if self.p is None or self.p.poll() is not None:
            self._start()
        req = dict(req)
        files = req.pop("files", None) or {}
        for name, content in files.items():
            with open(os.path.join(self.scratch, name), "wb") as f:
                f.write(content.encode("utf-8", "surrogateescape") if isinstance(content, str) else content)
        req.setdefault("id", 0)
        req["cwd"] = self.scratch
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("driver died")
        return json.loads(line)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


class Result:
    """Outcome of one run of the program."""
    __slots__ = ("status", "code", "exc", "out", "err", "cout", "cerr")

    def __init__(self, status, code, exc, out, err, cout, cerr):
        self.status, self.code, self.exc, self.out, self.err, self.cout, self.cerr = status, code, exc, out, err, cout, cerr

    @property
    def ok(self):
        return self.status == "ok" and self.exc is None and self.code == 0

    @property
    def crashed(self):
        return self.status.startswith(("signal", "exit", "noresult"))

    def brief(self):
        return "status=%s code=%s exc=%r err=%r" % (self.status, self.code, (self.exc or "")[:200], (self.err or "")[:200])


def run_cli(drv, args, stdin="", files=None, cpu=10.0, limit=32 << 20, lines=0):
    rep = drv.run({"runs": [{"args": list(args), "stdin": stdin}], "files": files, "cpu": cpu, "limit": limit, "lines": lines})
    r = (rep.get("runs") or [{}])[0]
    return Result(rep["status"], r.get("code"), r.get("exc"), r.get("out") or "", r.get("err") or "", rep.get("cout", ""), rep.get("cerr", ""))


def run_many(drv, runs, files=None, cpu=20.0, limit=32 << 20):
    """Several runs in one process. -> list of Result or None (missing because an earlier one ended the process)."""
    rep = drv.run({"runs": [{"args": list(a), "stdin": t} for a, t in runs], "files": files, "cpu": cpu, "limit": limit})
    got = rep.get("runs") or []
    out = [Result("ok", r.get("code"), r.get("exc"), r.get("out") or "", r.get("err") or "", "", "") for r in got]
    if len(out) < len(runs):
        out.append(Result(rep["status"] if rep["status"] != "ok" else "noresult", None, None, "", "", "", ""))
    return out + [None] * (len(runs) - len(out))
