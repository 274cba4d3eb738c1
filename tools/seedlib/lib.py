"""Builds the slicer from the repository in the current directory, in a scratch directory, and runs it."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, TMP, True)


def build():
    srcs = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        srcs += [os.path.join(d, f) for f in fs if f.endswith('.cpp') and 'emscripten' not in f and 'pybind' not in f]
    flags = ['-std=gnu++20', '-O0', '-w', '-DENABLE_BOOST_GRAPH_SEARCH', '-I', os.path.join(HERE, 'shims'),
             '-I', os.path.join(REPO, 'include'), '-I', '/usr/include/postgresql', *os.environ.get('DEMO_FLAGS', '').split()]
    objs, todo, live = [], list(enumerate(sorted(srcs))), []
    while todo or live:
        while todo and len(live) < 8:
            i, s = todo.pop()
            o = os.path.join(TMP, '%d.o' % i)
            objs.append(o)
            live.append(subprocess.Popen(['g++', *flags, '-c', s, '-o', o]))
        if live.pop(0).wait():
            sys.exit('build failed')
    exe = os.path.join(TMP, 'slicer')
    if subprocess.call(['g++', *objs, '-o', exe, '-lpq', *os.environ.get('DEMO_FLAGS', '').split()]):
        sys.exit('link failed')
    return exe


EXE = build()


def slicer(args, text='', timeout=60):
    """-> (exit code or None on timeout, stdout, stderr)"""
    try:
        p = subprocess.run([EXE, *args], input=text, capture_output=True, text=True, timeout=timeout, cwd=TMP)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, '', 'timeout'


def put(name, text):
    path = os.path.join(TMP, name)
    with open(path, 'w') as f:
        f.write(text)
    return path


def qasm(n, *gates):
    return 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[%d];\n%s\n' % (n, '\n'.join(g + ';' for g in gates))


def lli(ids, *instrs):
    return 'DeclareLogicalQubitPatches %s\n%s\n' % (','.join(map(str, ids)), '\n'.join(instrs))


def slices(args, text, timeout=60):
    rc, out, err = slicer(args, text, timeout)
    if rc != 0:
        fail('the run should succeed: rc=%s %s' % (rc, err[-300:]))
    return json.loads(out)


def sliced(args, text, timeout=60):
    """instructions of each slice, as printed"""
    rc, out, err = slicer([*args, '--printlli', 'sliced'], text, timeout)
    if rc != 0:
        fail('the run should succeed: rc=%s %s' % (rc, err[-300:]))
    rows = [[i for i in l.split(';') if i] for l in out.split('\n')]
    return rows


def stream(args, text):
    rc, out, err = slicer([*args, '--printlli', 'before'], text)
    if rc != 0:
        fail('the run should succeed: rc=%s %s' % (rc, err[-300:]))
    return [l for l in out.split('\n') if l]


def where(sl, pid):
    return [(r, c) for r, row in enumerate(sl) for c, x in enumerate(row) if x and x.get('text') == 'Id: %d' % pid]


def check(cond, msg):
    if not cond:
        fail(msg)


def fail(msg):
    print('FAIL:', msg)
    sys.exit(1)
