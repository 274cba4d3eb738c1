"""Builds the harness binaries from /repo's current working tree (never from a copy), cached by content."""
import hashlib, os, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LSQECC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
COMMON = ["-std=gnu++20", "-DENABLE_BOOST_GRAPH_SEARCH", "-w", "-I", os.path.join(VERIF, "shims"), "-I", os.path.join(REPO, "include"),
          "-I", "/usr/include/postgresql"]
FLAVORS = {
    "fast": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
}
# Not part of the native library: bindings for other hosts.
SKIP = {"emscripten_bindings.cpp", "lsqecclib_pybind.cpp", "lsqecc_slicer_main.cpp"}


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc")) and f not in SKIP:
                out.append(os.path.join(d, f))
    return sorted(out)


def _tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, _, fs in os.walk(root):
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h


def headers_hash():
    return _tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "shims")]).hexdigest()


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def _compile(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    _run(["g++", "-c", src, "-o", tmp] + flags + COMMON)
    os.replace(tmp, obj)


def build(flavor, harness="driver"):
    """Returns the path of the harness binary linked with all of /repo's library sources."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        flags = FLAVORS[flavor]
        hh = headers_hash()
        odir = os.path.join(BUILD, "obj-" + flavor)
        os.makedirs(odir, exist_ok=True)
        srcs = repo_sources() + [os.path.join(VERIF, "harness", harness + ".cpp")]
        jobs, objs = [], []
        for s in srcs:
            with open(s, "rb") as f:
                key = hashlib.sha256((hh + "|" + s + "|" + " ".join(flags)).encode() + f.read()).hexdigest()[:20]
            o = os.path.join(odir, os.path.basename(s) + "." + key + ".o")
            jobs.append((s, o, flags))
            objs.append(o)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(_compile, jobs))
        key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "%s-%s-%s" % (harness, flavor, key))
        if not os.path.exists(exe):
            _run(["g++"] + flags + objs + ["-o", exe + ".tmp", "-lpq"])
            os.replace(exe + ".tmp", exe)
            keep = set(objs)
            # drop stale objects and binaries so the cache does not grow
            for f in os.listdir(BUILD):
                p = os.path.join(BUILD, f)
                if f.startswith("%s-%s-" % (harness, flavor)) and p != exe:
                    os.unlink(p)
            now = time.time()
            for f in os.listdir(odir):
                p = os.path.join(odir, f)
                if p not in keep and now - os.path.getmtime(p) > 3600:
                    os.unlink(p)
        return exe


if __name__ == "__main__":
    for spec in sys.argv[1:] or ["fast:driver", "asan:driver"]:
        fl, _, h = spec.partition(":")
        t = time.time()
        print(build(fl, h or "driver"), "%.1fs" % (time.time() - t))
