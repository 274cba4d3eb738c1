"""Executable reference model of the lattice, replayed against the observed slices of one run.

Choices the program is free to make (where an ancilla goes, which cells a merge runs through, which neighbour helps a rotation) are
read from the observed slice and checked for legality; everything else is predicted and compared cell by cell.
Violations carry a category: 'space' (C05), 'merge' (C06), 'route' (C07), 'magic' (C08), 'rotate' (C09), 'opid' (C18), 'ystate' (C19), 'local' (C05)."""
from collections import deque

T, B, L, R = 0, 1, 2, 3
SIDES = ("Top", "Bottom", "Left", "Right")
DELTA = ((-1, 0), (1, 0), (0, -1), (0, 1))
OPP = (1, 0, 3, 2)
EDGE = {("N", False): "None", ("N", True): "None", ("C", False): "None", ("C", True): "AncillaJoin", ("X", False): "Dashed",
        ("X", True): "DashedStiched", ("Z", False): "Solid", ("Z", True): "SolidStiched"}
TYPE = {"Qubit": "Qubit", "Routing": "Ancilla", "Busy": "Ancilla", "Dead": "Ancilla", "Dist": "DistillationQubit", "Prep": "DistillationQubit"}


class Cell:
    __slots__ = ("kind", "act", "id", "b", "op")

    def __init__(self, kind, b, act=None, id=None, op=None):
        self.kind, self.b, self.act, self.id, self.op = kind, b, act, id, op

    def active(self):
        return self.act in ("Measurement", "Unitary") or any(a for _, a in self.b)


def square():
    return [["Z", False], ["Z", False], ["X", False], ["X", False]]


class Stop(Exception):
    """The rest of the run cannot be judged (reported as inconclusive unless a violation was recorded)."""


def side(a, b):
    d = (b[0] - a[0], b[1] - a[1])
    return DELTA.index(d) if d in DELTA else None


class Lattice:
    def __init__(self, spec, core_ids, routed_optimal=True, opids=False, local=False):
        self.spec, self.opids, self.local, self.routed_optimal = spec, opids, local, routed_optimal
        self.g = {}
        self.core_ids = list(core_ids)
        for x, i in zip(spec.core, self.core_ids):
            self.g[x] = Cell("Qubit", square(), id=i)
        for x in spec.ystates:
            self.g[x] = Cell("Qubit", square())
        for reg in spec.regions:
            s = set(reg)
            for x in reg:
                self.g[x] = Cell("Dist", [["N" if (x[0] + d[0], x[1] + d[1]) in s else "Z", False] for d in DELTA])
        for x in spec.reserved:
            self.g[x] = Cell("Dist", [["C", False] for _ in range(4)])
        for x in spec.dead:
            self.g[x] = Cell("Dead", [["C", False] for _ in range(4)])
        self.timers = list(spec.times)
        self.busy = {}         # (cell a, cell b) -> dict(patch=Cell, steps=int)
        self.y_avail = len(spec.ystates)
        self.gave_back = -1
        self.ycells = set(spec.ystates)     # cells that hold or held a Y state
        self.seen_ops = set()
        self.v = []            # violations (category, text)
        self.known = []        # occurrences of listed deviations
        self.stats = {}
        self.t = 0
        self.routes = {}       # Bell-style instruction (text) -> all cells its local operations touch, where that is known
        self.resource_cells = set(spec.dead) | {x for r in spec.regions for x in r}

    # ---- helpers
    def n(self, k, d=1):
        self.stats[k] = self.stats.get(k, 0) + d

    def bad(self, cat, msg):
        self.v.append((cat, "slice %d: %s" % (self.t, msg)))

    def free(self, x):
        return x not in self.g

    def find(self, pid):
        return [x for x, c in self.g.items() if c.id == pid]

    def loc(self, pid):
        f = self.find(pid)
        return f[0] if f else None

    def obs_find(self, obs, pid):
        want = "Id: %d" % pid
        return [(r, c) for r, row in enumerate(obs) for c, x in enumerate(row) if x and x.get("text") == want]

    def hidden(self, obs, ins, cand):
        """Cells a patch may be in that starts rotating on the very slice it appeared on (it is then shown as a busy region)."""
        if not any(i.kind == "Rotate" and i.ids == ins.ids[:1] for i in self.instrs):
            return []
        cand = [x for x in cand if self.shown_busy(obs, x)]
        if len(cand) > 1:
            self.n("hidden")
            raise Stop
        return cand

    def shown_busy(self, obs, x):
        o = obs[x[0]][x[1]]
        return o is not None and o["patch_type"] == "Ancilla" and sum(o["edges"][k] == "AncillaJoin" for k in SIDES) == 1

    # ---- what could have been applied on the present state (conservative: False when unsure)
    def feasible(self, ins, twists):
        k = ins.kind
        xs = [self.loc(p) for p in ins.ids]
        if k in ("Measure", "Reset"):
            return xs[0] is not None
        if k in ("XGate", "YGate", "ZGate", "HGate"):
            return xs[0] is not None and not self.g[xs[0]].active()
        if k == "MBM":
            if self.local or len(xs) != 2 or None in xs or self.g[xs[0]].active() or self.g[xs[1]].active():
                return False
            return self.shortest(xs[0], ins.ops[0], xs[1], ins.ops[1]) is not None
        if k == "SGate":
            if xs[0] is None or self.g[xs[0]].active():
                return False
            return self.shortest(xs[0], "X", xs[0], "Z") is not None
        if k == "Init":
            if xs[0] is not None:
                return False
            near = ins.extra[1]
            if near is None:
                return any(self.free(x) for x in self.spec.anc)
            y = self.loc(near[0])
            if any(i.kind == "HGate" and i.ids[0] == near[0] for i in self.instrs):
                return False    # boundaries may have been exchanged after the attempt
            return y is not None and any(self.free(x) and self.boundary_ok(y, x, near[1]) for x in self.spec.neigh(y))
        if k == "Magic":
            return xs[0] is None and self.loc(ins.extra) is not None and any(c.kind == "Prep" for c in self.g.values())
        if k == "Rotate":
            if xs[0] is None:
                return False
            c = self.g[xs[0]]
            act = c.act == "Measurement" or any(a for _, a in c.b)
            return not act and any(self.free(x) for x in self.spec.neigh(xs[0]))
        if k == "YState":
            if xs[0] is not None:
                return True
            y = self.loc(ins.extra)
            if y is None:
                return False
            if self.gave_back == self.t:
                return False    # one given back after the attempt
            if not (self.local and twists) and self.y_avail:
                return any(x in self.g and self.g[x].kind == "Qubit" and self.g[x].id is None and not self.g[x].active() for x in self.spec.ystates)
            return twists and any(self.free(x) and self.boundary_ok(y, x, "Z") for x in self.spec.neigh(y))
        return False

    STALL = {"MBM": "route", "SGate": "route", "Magic": "magic", "Rotate": "rotate", "YState": "ystate"}

    def stalled(self, ins, twists):
        """`ins` was attempted on this slice and not applied; legitimate only if it cannot be applied now either
        (resources of a slice are only taken, never given back, while it is filled)."""
        self.n("stalls")
        self.n("stall_" + ins.kind)
        if self.feasible(ins, twists):
            self.bad(self.STALL.get(ins.kind, "progress"), "%s was not applied on this slice although it could have been" % ins.key())
            raise Stop

    # ---- time step
    def advance(self, obs, instrs):
        for x in list(self.g):
            c = self.g[x]
            if c.kind == "Busy":
                continue
            if c.act == "Unitary":
                c.act = None
            for e in c.b:
                e[1] = False
            if c.kind == "Routing" or c.act == "Measurement":
                del self.g[x]
        sp = self.spec
        if sp.reserved:
            for i, x in enumerate(sp.reserved):
                c = self.g.get(x)
                if c is None:
                    self.g[x] = Cell("Dist", [["C", False] for _ in range(4)])
                    self.timers[i] = sp.times[i]
                elif c.kind == "Dist":
                    self.timers[i] -= 1
                    if self.timers[i] == 0:
                        self.g[x] = Cell("Prep", square())
                        self.n("magic_made")
        else:
            requested = {i.ids[0] for i in instrs if i.kind == "Magic"}
            for i in range(len(self.timers)):
                self.timers[i] -= 1
                if self.timers[i] != 0:
                    continue
                self.timers[i] = sp.times[i]
                cand = [x for x in sp.exits[i] if self.free(x)]
                if not cand:
                    self.n("magic_blocked")
                    continue
                pick = None
                for x in cand:
                    o = obs[x[0]][x[1]]
                    if o is None:
                        continue
                    if o["patch_type"] == "DistillationQubit" or (o["text"].startswith("Id: ") and int(o["text"][4:]) in requested):
                        pick = x
                        break
                if pick is None:
                    rotated = {i.ids[0] for i in instrs if i.kind == "Rotate"} & requested
                    hid = [x for x in cand if self.shown_busy(obs, x)] if rotated else []
                    if len(hid) == 1:
                        pick = hid[0]
                    elif hid:
                        raise Stop
                if pick is None:
                    self.bad("magic", "distillation region %d (%s) was due but no magic state appeared on its free exits %s" % (i, sp.regions[i][0], cand))
                    raise Stop
                self.g[pick] = Cell("Prep", square())
                self.n("magic_made")

    # ---- routing
    def boundary_ok(self, x, y, op):
        """x's patch has on its side towards y the boundary that exposes op."""
        s = side(x, y)
        return s is not None and self.g[x].b[s][0] == op

    def shortest(self, src, sop, dst, top):
        """Fewest chain cells of a legal route, or None. src == dst asks for a loop."""
        if src != dst and side(src, dst) is not None and self.boundary_ok(src, dst, sop) and self.boundary_ok(dst, src, top):
            return 0
        q = deque()
        dist = {}
        for y in self.spec.neigh(src):
            if self.free(y) and self.boundary_ok(src, y, sop):
                dist[y] = 1
                q.append(y)
        while q:
            x = q.popleft()
            if side(x, dst) is not None and self.boundary_ok(dst, x, top):
                return dist[x]
            for y in self.spec.neigh(x):
                if self.free(y) and y not in dist:
                    dist[y] = dist[x] + 1
                    q.append(y)
        return None

    def walk_chain(self, obs, src, dst, loop=False, sop=None):
        """Reads the chain of joined ancilla cells leaving src. -> list of cells from src to dst (exclusive), or None."""
        def edge(x, s):
            o = obs[x[0]][x[1]]
            return o["edges"][SIDES[s]] if o else None

        def is_chain(x):
            o = obs[x[0]][x[1]]
            return o is not None and o["patch_type"] == "Ancilla" and self.free(x)
        s_stitched = [s for s in range(4) if edge(src, s) in ("DashedStiched", "SolidStiched")]
        for s in s_stitched:
            if loop and self.g[src].b[s][0] != sop:
                continue
            x = (src[0] + DELTA[s][0], src[1] + DELTA[s][1])
            if not (0 <= x[0] < self.spec.nrows and 0 <= x[1] < self.spec.ncols):
                continue
            if x == dst and not loop:
                if edge(dst, OPP[s]) in ("DashedStiched", "SolidStiched"):
                    return []
                continue
            path, frm, ok = [], OPP[s], True
            while True:
                if not is_chain(x) or x in path or edge(x, frm) != "AncillaJoin":
                    ok = False
                    break
                path.append(x)
                outs = [k for k in range(4) if k != frm and edge(x, k) == "AncillaJoin"]
                if len(outs) != 1:
                    ok = False
                    break
                y = (x[0] + DELTA[outs[0]][0], x[1] + DELTA[outs[0]][1])
                if y == dst:
                    ok = edge(dst, OPP[outs[0]]) in ("DashedStiched", "SolidStiched")
                    break
                if not (0 <= y[0] < self.spec.nrows and 0 <= y[1] < self.spec.ncols):
                    ok = False
                    break
                x, frm = y, OPP[outs[0]]
            if ok:
                return path
        return None

    def merge(self, obs, ins, a, aop, b, bop):
        loop = a == b
        xa, xb = self.loc(a), self.loc(b)
        if xa is None or xb is None:
            self.bad("space", "%s applied although patch %s is not on the lattice" % (ins, a if xa is None else b))
            raise Stop
        for p, x in ((a, xa), (b, xb)):
            if self.g[x].active():
                self.bad("merge", "%s applied although patch %d at %s is still active on this slice" % (ins, p, x))
                raise Stop
        path = self.walk_chain(obs, xa, xb, loop, aop)
        if path is None:
            self.bad("merge", "%s: no unbroken chain of joined ancilla cells between %s and %s" % (ins, xa, xb))
            raise Stop
        seq = [xa] + path + [xb]
        if not path and not loop:
            self.n("merge_adjacent")
        for x in path:
            if x in self.resource_cells:
                self.bad("merge", "%s runs through reserved cell %s" % (ins, x))
        if not self.boundary_ok(xa, seq[1], aop):
            self.bad("merge", "%s leaves %s through a boundary that is not %s" % (ins, xa, aop))
        if not self.boundary_ok(xb, seq[-2], bop):
            self.bad("merge", "%s enters %s through a boundary that is not %s" % (ins, xb, bop))
        best = self.shortest(xa, aop, xb, bop)
        if best is not None and len(path) != best and self.routed_optimal:
            self.bad("route", "%s uses %d chain cells, %d are enough" % (ins, len(path), best))
        if best is None:
            self.bad("route", "%s routed although no legal route exists" % ins)
        self.n("merge")
        self.n("chain_cells", len(path))
        if len(path) > 1:
            self.n("merge_long")
        op = None
        if self.opids:
            ops = {obs[x[0]][x[1]].get("operation_id") for x in path}
            if path and (len(ops) != 1 or None in ops):
                self.bad("opid", "%s: chain cells carry operation ids %s" % (ins, sorted(map(str, ops))))
            elif path:
                op = ops.pop()
                if op in self.seen_ops:
                    self.bad("opid", "%s reuses operation id %s" % (ins, op))
                self.seen_ops.add(op)
                self.n("opids")
        for i, x in enumerate(path):
            c = Cell("Routing", [["N", False] for _ in range(4)], op=op)
            for y in (seq[i], seq[i + 2]):
                c.b[side(x, y)] = ["C", True]
            self.g[x] = c
        self.g[xa].b[side(xa, seq[1])][1] = True
        self.g[xb].b[side(xb, seq[-2])][1] = True

    # ---- instructions
    def must(self, ins, pid):
        x = self.loc(pid)
        if x is None:
            self.bad("space", "%s applied although patch %d is not on the lattice" % (ins, pid))
            raise Stop
        return x

    def apply(self, obs, ins):
        k = ins.kind
        self.n("i_" + k)
        if k == "Measure":
            self.g[self.must(ins, ins.ids[0])].act = "Measurement"
        elif k in ("XGate", "YGate", "ZGate"):
            x = self.must(ins, ins.ids[0])
            if self.g[x].active():
                self.bad("merge", "%s applied to a patch that is active on this slice" % ins)
        elif k == "HGate":
            x = self.must(ins, ins.ids[0])
            if self.g[x].active():
                self.bad("rotate", "%s applied to a patch that is active on this slice" % ins)
            c = self.g[x]
            c.act = "Unitary"
            c.b = [c.b[L], c.b[R], c.b[B], c.b[T]]
        elif k == "Reset":
            pass
        elif k == "Init":
            where = self.obs_find(obs, ins.ids[0])
            if self.find(ins.ids[0]):
                self.n("init_dup_id")
                raise Stop
            near = ins.extra[1]
            y = self.loc(near[0]) if near else None
            where = where or self.hidden(obs, ins, [x for x in (self.spec.neigh(y) if y else self.spec.anc)
                                                    if self.free(x) and (y is None or self.boundary_ok(y, x, near[1]))])
            if len(where) != 1:
                self.bad("space", "%s: patch shown in %d cells" % (ins, len(where)))
                raise Stop
            x = where[0]
            if not self.free(x):
                self.bad("space", "%s: placed on occupied cell %s" % (ins, x))
                raise Stop
            state, near = ins.extra
            if near:
                y = self.must(ins, near[0])
                if side(y, x) is None or not self.boundary_ok(y, x, near[1]):
                    self.bad("space", "%s: placed at %s, not at the %s boundary of %s" % (ins, x, near[1], y))
            elif x not in self.spec.anc:
                self.bad("space", "%s: placed at %s which is no ancilla location" % (ins, x))
            self.g[x] = Cell("Qubit", square(), id=ins.ids[0])
        elif k == "Magic":
            where = self.obs_find(obs, ins.ids[0]) or self.hidden(obs, ins, [x for x, c in self.g.items() if c.kind == "Prep"])
            if len(where) != 1:
                self.bad("magic", "%s: bound patch shown in %d cells" % (ins, len(where)))
                raise Stop
            x = where[0]
            c = self.g.get(x)
            if c is None or c.kind != "Prep":
                self.bad("magic", "%s: bound to %s where no magic state was available" % (ins, x))
                raise Stop
            y = self.must(ins, ins.extra)
            dist = lambda p: abs(p[0] - y[0]) + abs(p[1] - y[1])
            near = min(dist(p) for p, q in self.g.items() if q.kind == "Prep")
            if dist(x) != near:
                self.bad("magic", "%s: bound to the state at %s, a nearer one was available" % (ins, x))
            c.kind, c.id, c.act = "Qubit", ins.ids[0], None
            self.n("magic_used")
        elif k == "YState":
            self.ystate(obs, ins)
        elif k == "MBM":
            if len(ins.ids) != 2:
                raise Stop
            if self.local:
                self.local_ops(obs, ins)
            else:
                self.merge(obs, ins, ins.ids[0], ins.ops[0], ins.ids[1], ins.ops[1])
        elif k == "SGate":
            self.merge(obs, ins, ins.ids[0], "X", ins.ids[0], "Z")
        elif k == "Rotate":
            self.rotate(obs, ins)
        elif k == "Busy":
            self.busy_step(ins)
        elif k in ("BellCNOT", "BellPairInit"):
            if ins.key() in self.routes:
                self.bell_route(ins, self.routes.pop(ins.key()))
            self.local_ops(obs, ins)
        else:
            raise Stop

    def ystate(self, obs, ins):
        pid = ins.ids[0]
        x = self.loc(pid)
        if x is not None:
            self.g[x].id = None
            self.y_avail += 1
            self.gave_back = self.t
            self.n("y_back" if x in self.spec.ystates else "y_left")
            return
        if ins.local:
            self.n("y_prepared")
            self.local_ops(obs, ins)
            return
        where = self.obs_find(obs, pid) or self.hidden(obs, ins, [x for x in self.spec.ystates if x in self.g and self.g[x].id is None])
        idle = [y for y in self.spec.ystates if y in self.g and self.g[y].kind == "Qubit" and self.g[y].id is None and not self.g[y].active()]
        at = self.must(ins, ins.extra)
        dist = lambda p: abs(p[0] - at[0]) + abs(p[1] - at[1])
        if len(where) != 1 and idle:
            # bound and given back on one slice: nothing shows where it was
            mine = [i for i in self.instrs if pid in i.ids]
            k = next((j for j, i in enumerate(mine) if i is ins), len(mine))
            if any(i.kind == "YState" for i in mine[k + 1:]):
                where = [y for y in idle if dist(y) == min(map(dist, idle))]
                if len(where) > 1 and mine[k + 1].kind != "YState":
                    raise Stop
                where = where[:1]
        if len(where) != 1:
            self.bad("ystate", "%s: bound patch shown in %d cells" % (ins, len(where)))
            raise Stop
        x = where[0]
        c = self.g.get(x)
        if x not in idle:
            self.bad("ystate", "%s: bound to %s where no unbound Y state was available" % (ins, x))
            raise Stop
        if dist(x) != min(map(dist, idle)):
            self.bad("ystate", "%s: bound to the Y state at %s, a nearer one was available" % (ins, x))
        if len({dist(y) for y in idle}) > 1:
            self.n("y_choice")
        c.id = pid
        self.y_avail -= 1
        self.n("y_bound")

    def rotate(self, obs, ins):
        x = self.must(ins, ins.ids[0])
        c = self.g[x]
        o = obs[x[0]][x[1]]
        if c.act == "Unitary":
            c.act = None
        if c.active():
            self.rotate_on_active(ins, x)
        joins = [s for s in range(4) if o and o["patch_type"] == "Ancilla" and o["edges"][SIDES[s]] == "AncillaJoin"]
        if len(joins) != 1:
            self.bad("rotate", "%s: %s is not shown as one half of a two-cell rotation region" % (ins, x))
            raise Stop
        y = (x[0] + DELTA[joins[0]][0], x[1] + DELTA[joins[0]][1])
        if not self.free(y):
            self.bad("rotate", "%s: uses neighbour %s which is occupied" % (ins, y))
            raise Stop
        del self.g[x]
        for p, q in ((x, y), (y, x)):
            b = [["N", False] for _ in range(4)]
            b[side(p, q)] = ["C", True]
            self.g[p] = Cell("Busy", b)
        c.b = [c.b[L], c.b[R], c.b[B], c.b[T]]
        for e in c.b:
            e[1] = False
        self.busy[(x, y)] = {"patch": c, "steps": 2}
        self.n("rotations")

    def rotate_on_active(self, ins, x):
        self.bad("rotate", "%s started while the patch at %s takes part in another operation on this slice" % (ins, x))
        raise Stop

    def busy_step(self, ins):
        cells, steps = ins.extra
        key = tuple(cells)
        st = self.busy.get(key)
        if st is None:
            self.bad("rotate", "%s: no rotation is under way there" % ins)
            raise Stop
        if steps != st["steps"]:
            self.bad("rotate", "%s: expected %d steps left" % (ins, st["steps"]))
            raise Stop
        if steps == 0:
            for x in key:
                del self.g[x]
            self.g[key[0]] = st["patch"]
            del self.busy[key]
            self.n("rotations_done")
        else:
            st["steps"] -= 1

    def bell_route(self, ins, cells):
        """First appearance of a Bell-style instruction: the route chosen now."""
        if ins.kind == "BellCNOT":
            a, b, aop, bop = self.loc(ins.ids[0]), self.loc(ins.ids[1]), "Z", "X"
        else:
            a, b, aop, bop = self.loc(ins.ids[2]), self.loc(ins.ids[3]), ins.ops[0], ins.ops[1]
        if a is None or b is None or a == b:
            return
        n = len(cells - {a, b})
        best = self.shortest(a, aop, b, bop)
        self.n("bell_routes")
        if best is None:
            self.bad("route", "%s routed although no legal route exists" % ins)
        elif n != best:
            self.bad("route", "%s uses %d chain cells, %d are enough" % (ins, n, best))

    def local_ops(self, obs, ins):
        for name, cells in ins.local or []:
            self.local_op(obs, ins, name, cells)

    def local_op(self, obs, ins, name, cells):
        for x in cells:
            if not (0 <= x[0] < self.spec.nrows and 0 <= x[1] < self.spec.ncols):
                self.bad("local", "%s: %s off the grid" % (ins.key(), x))
                raise Stop
        self.n("l_" + name)

        def idle(x):
            c = self.g.get(x)
            if c is None or c.kind not in ("Qubit", "Prep"):
                self.bad("local", "%s: %s %s: no patch at %s" % (ins.key(), name, cells, x))
                raise Stop
            if c.active():
                self.bad("local", "%s: %s %s: patch at %s is active" % (ins.key(), name, cells, x))
                raise Stop
            return c

        def fresh(x, ids):
            if not self.free(x):
                self.bad("ystate" if name == "PrepareY" else "local", "%s: %s %s: cell %s is occupied" % (ins.key(), name, cells, x))
                raise Stop
            o = obs[x[0]][x[1]]
            got = None
            if o and o["text"].startswith("Id: ") and int(o["text"][4:]) in ids:
                got = int(o["text"][4:])
            self.g[x] = Cell("Qubit", square(), id=got)
            return self.g[x]
        if name == "PrepareY":
            c = fresh(cells[0], ())
            c.id = ins.ids[0]
            c.act = "Unitary"
            self.ycells.add(cells[0])
            y = self.loc(ins.extra)
            if y is None or side(y, cells[0]) is None or not self.boundary_ok(y, cells[0], "Z"):
                self.bad("ystate", "%s: Y state not next to a Z boundary of patch %s" % (ins, ins.extra))
            elif not self.boundary_ok(cells[0], y, "Z"):
                # its own Z boundary faces the patch
                for e in c.b:
                    e[0] = "X" if e[0] == "Z" else "Z"
            return
        a, b = cells
        s = side(a, b)
        if s is None:
            self.bad("local", "%s: %s on cells %s and %s that are not adjacent" % (ins.key(), name, a, b))
            raise Stop
        side_ids = ins.ids[2:4] if ins.kind == "BellCNOT" else ins.ids[:2] if ins.kind == "BellPairInit" else ()
        if name == "BellPrepare":
            ca, cb = fresh(a, side_ids), fresh(b, side_ids)
        elif name == "BellMeasure":
            ca, cb = idle(a), idle(b)
            ca.act = cb.act = "Measurement"
        elif name == "Move":
            ca = idle(a)
            cb = fresh(b, tuple(side_ids) + ((ca.id,) if ca.id is not None else ()))
            ca.act, ca.id = "Measurement", None
        elif name == "TwoPatchMeasure":
            ca, cb = idle(a), idle(b)
        elif name == "ExtendSplit":
            ca = idle(a)
            cb = fresh(b, side_ids)
        elif name == "MergeContract":
            ca, cb = idle(a), idle(b)
            cb.act = "Measurement"
        else:
            raise Stop
        ca.b[s][1] = True
        cb.b[OPP[s]][1] = True

    # ---- comparison
    def compare(self, obs):
        sp = self.spec
        if len(obs) != sp.nrows or any(len(r) != sp.ncols for r in obs):
            self.bad("space", "grid is %dx%s, the layout is %dx%d" % (len(obs), sorted({len(r) for r in obs}), sp.nrows, sp.ncols))
            raise Stop
        first = {} if sp.reserved else {reg[0]: i for i, reg in enumerate(sp.regions)}
        ids = {}
        for r, row in enumerate(obs):
            for c, o in enumerate(row):
                x = (r, c)
                m = self.g.get(x)
                if o is None and m is None:
                    continue
                self.n("cells")
                if o is not None and o.get("text", "").startswith("Id: "):
                    ids.setdefault(o["text"], []).append(x)
                if m is None or o is None:
                    self.mismatch(x, m, o, "occupied" if m is None else "empty")
                    continue
                if TYPE[m.kind] != o["patch_type"]:
                    self.mismatch(x, m, o, "type %s" % o["patch_type"])
                    continue
                if x in first:
                    text = "Time to next magic state:%d" % self.timers[first[x]]
                elif m.id is not None:
                    text = "Id: %d" % m.id
                else:
                    text = "Not bound" if m.kind == "Qubit" else ""
                if text != o["text"]:
                    self.mismatch(x, m, o, "text %r instead of %r" % (o["text"], text), "magic" if x in first else None)
                act = o["activity"].get("activity_type") if isinstance(o.get("activity"), dict) else None
                if act != m.act:
                    self.mismatch(x, m, o, "activity %s instead of %s" % (act, m.act))
                for s in range(4):
                    want = EDGE[tuple(m.b[s])]
                    got = o["edges"][SIDES[s]]
                    if want != got:
                        turned = m.kind == "Qubit" and want.replace("Stiched", "") != got.replace("Stiched", "")
                        self.mismatch(x, m, o, "%s edge %s instead of %s" % (SIDES[s], got, want), "rotate" if turned else None)
                        break
                op = o.get("operation_id")
                if op != m.op:
                    self.bad("opid", "cell %s carries operation id %s instead of %s" % (x, op, m.op))
        for t, xs in ids.items():
            if len(xs) > 1:
                self.bad("space", "patch '%s' is shown in cells %s" % (t, xs))

    def mismatch(self, x, m, o, what, cat=None):
        if cat is None:
            if x in self.ycells and m is not None and m.kind == "Qubit" and "Stiched" not in what:
                cat = "ystate"
            elif m is not None and m.kind in ("Dist", "Prep") or (o is not None and o["patch_type"] == "DistillationQubit"):
                cat = "magic"
            elif m is not None and m.kind == "Busy":
                cat = "rotate"
            elif (m is not None and m.kind == "Routing") or "Stiched" in what or (m is None and o["patch_type"] == "Ancilla"):
                cat = "merge"
            else:
                cat = "space"
        self.bad(cat, "cell %s: %s (expected %s)" % (x, what, "free cell" if m is None else "%s id=%s" % (m.kind, m.id)))

    def step(self, t, obs, instrs):
        """One slice. Raises Stop when the rest cannot be judged."""
        self.t = t
        if len(obs) != self.spec.nrows or any(len(r) != self.spec.ncols for r in obs):
            self.compare(obs)
        self.instrs = instrs
        if t:
            self.advance(obs, instrs)
        for i in instrs:
            self.apply(obs, i)
        self.compare(obs)
        if self.v:
            raise Stop
        self.n("slices")
