"""Workload generators (all randomness from the Random passed in)."""

ONE = ["x", "y", "z", "h", "s", "t", "sdg", "tdg"]


def qasm(rng, nq=None, ngates=None, gates=None, two=("cx", "cz"), header=True, annot=False, reg="q", p2=0.4, rz=True):
    nq = nq if nq is not None else rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
    ngates = ngates if ngates is not None else rng.randint(1, 14)
    gates = gates or ONE
    lines = []
    if header:
        lines += ["OPENQASM 2.0;", 'include "qelib1.inc";']
    lines.append("qreg %s[%d];" % (reg, nq))
    glist = []
    for _ in range(ngates):
        if nq > 1 and two and rng.random() < p2:
            a, b = rng.sample(range(nq), 2)
            g = rng.choice(list(two))
            ann = None
            if annot and rng.random() < 0.6:
                ann = ",".join(rng.sample(["ZXWithMBMControlFirst", "ZXWithMBMTargetFirst", "AncillaNextToControl", "AncillaNextToTarget"], rng.randint(1, 2)))
            lines.append("%s %s[%d],%s[%d];%s" % (g, reg, a, reg, b, " // %" + ann if ann else ""))
            glist.append((g, a, b, ann))
        else:
            q = rng.randrange(nq)
            if rz and rng.random() < 0.08:
                f = rng.choice(["pi/2", "pi/4", "1*pi/1", "pi*-1", "1*pi/2", "1*pi/4"])
                lines.append("rz(%s) %s[%d];" % (f, reg, q))
                glist.append(("rz", q, f))
            else:
                g = rng.choice(gates)
                lines.append("%s %s[%d];" % (g, reg, q))
                glist.append((g, q))
    return "\n".join(lines) + "\n", nq, glist


def ascii_layout(rng, nq, kind=None, maze=False):
    """A random custom layout with at least nq core qubit cells. Returns text."""
    kind = kind or rng.choice(["open", "open", "factory", "reserved", "mixed"])
    for _ in range(200):
        rows, cols = rng.randint(3, 9), rng.randint(3, 10)
        g = [["r"] * cols for _ in range(rows)]
        # sparse core qubits: keep a routing moat most of the time
        pos = [(r, c) for r in range(1, rows - 1) for c in range(1, cols - 1)]
        rng.shuffle(pos)
        placed = []
        tight = rng.random() < 0.2
        for (r, c) in pos:
            if len(placed) >= nq:
                break
            if tight or all(abs(r - a) + abs(c - b) > 1 for a, b in placed):
                g[r][c] = "Q"
                placed.append((r, c))
        if len(placed) < nq:
            continue
        free = [(r, c) for r in range(rows) for c in range(cols) if g[r][c] == "r"]
        rng.shuffle(free)
        if rng.random() < 0.7:
            for _ in range(rng.randint(1, 2)):
                if free:
                    r, c = free.pop()
                    g[r][c] = "A"
        if kind in ("factory", "mixed"):
            for d in range(rng.randint(1, 3)):
                r0, c0 = rng.choice([(0, 0), (rows - 1, 0), (0, cols - 1), (rows - 1, cols - 1), (rng.randrange(rows), rng.randrange(cols))])
                h, w = rng.randint(1, 2), rng.randint(1, 3)
                for r in range(r0, min(rows, r0 + h)):
                    for c in range(c0, min(cols, c0 + w)):
                        if g[r][c] == "r":
                            g[r][c] = str(d)
        elif kind == "reserved":
            for _ in range(rng.randint(1, 3)):
                if free:
                    r, c = free.pop()
                    if g[r][c] == "r":
                        g[r][c] = "M"
        if maze or rng.random() < 0.3:
            for _ in range(rng.randint(rows * cols // 8, rows * cols // 3) if maze else rng.randint(1, 3)):
                r, c = rng.randrange(rows), rng.randrange(cols)
                if g[r][c] == "r":
                    g[r][c] = "X"
        if rng.random() < 0.25:
            for _ in range(rng.randint(1, 2)):
                r, c = rng.randrange(rows), rng.randrange(cols)
                if g[r][c] == "r":
                    g[r][c] = "Y"
        return "\n".join("".join(r) for r in g) + "\n"
    return None


def lli(rng, ids, nins, anc=True, magic=True, ystates=False, sgate=True, rotate=True, near=True, bell=False, clash=0.0):
    """A random LLI program over patches `ids` (the declared ones). Returns (text, list of instruction lines)."""
    # own ancilla names stay below the largest declared one: the tool's generated names start above it
    names = [x for x in range(max(ids)) if x not in ids]
    live, out = list(ids), []
    fresh = lambda: names.pop(0)
    declared = set(ids)
    lines = ["DeclareLogicalQubitPatches " + ",".join(map(str, ids))]
    for _ in range(nins):
        k = rng.random()
        if bell and len(live) > 1 and len(names) > 3 and rng.random() < 0.35:
            a, b = rng.sample(live, 2)
            s1, s2 = fresh(), fresh()
            if rng.random() < clash:
                s1 = rng.choice(live)
            if rng.random() < 0.5:
                out.append("BellPairInit %d %d %d:%s,%d:%s" % (s1, s2, a, rng.choice("XZ"), b, rng.choice("XZ")))
                live += [x for x in (s1, s2) if x not in live]
            else:
                out.append("BellBasedCNOT %d %d %d %d" % (a, b, s1, s2))
            continue
        if clash and rng.random() < clash and len(live) > 1:
            new, near_to = rng.choice(live), rng.choice(live)
            out.append(rng.choice(["Init %d |0>" % new, "Init %d |+> %d:Z" % (new, near_to), "RequestMagicState %d %d" % (new, near_to)] if magic else ["Init %d |0>" % new]))
            continue
        if k < 0.45 and len(live) > 1:
            a, b = rng.sample(live, 2)
            out.append("MultiBodyMeasure %d:%s,%d:%s" % (a, rng.choice("XZ"), b, rng.choice("XZ")))
        elif k < 0.55:
            out.append("HGate %d" % rng.choice(live))
        elif k < 0.60 and sgate:
            out.append("SGate %d" % rng.choice(live))
        elif k < 0.68 and rotate:
            out.append("RotateSingleCellPatch %d" % rng.choice(live))
        elif k < 0.78 and (anc or near) and names:
            new = fresh()
            if near and (not anc or rng.random() < 0.6):
                out.append("Init %d %s %d:%s" % (new, rng.choice(["|0>", "|+>"]), rng.choice(live), rng.choice("XZ")))
            else:
                out.append("Init %d %s" % (new, rng.choice(["|0>", "|+>"])))
            live.append(new)
        elif k < 0.86 and magic and names:
            new = fresh()
            out.append("RequestMagicState %d %d" % (new, rng.choice(live)))
            live.append(new)
        elif k < 0.90 and ystates and names:
            new = fresh()
            out.append("RequestYState %d %d" % (new, rng.choice(live)))
            live.append(new)
        elif len(live) > 1 and k < 0.97:
            extra = [x for x in live if x not in declared]
            p = rng.choice(extra) if extra and rng.random() < 0.8 else rng.choice(live)
            if p in declared and rng.random() < 0.7:
                continue
            out.append("MeasureSinglePatch %d %s" % (p, rng.choice("XZ")))
            live.remove(p)
        else:
            out.append("LogicalPauli %d %s" % (rng.choice(live), "X"))
    return "\n".join(lines + out) + "\n", out


def bell_program(rng, ids, reuse=0.0):
    """Bell-style instructions between patches, their sides used and measured out again (and their names used anew)."""
    names = [x for x in range(max(ids)) if x not in ids]
    out, live = ["DeclareLogicalQubitPatches " + ",".join(map(str, ids))], list(ids)
    for _ in range(rng.choice([4, 8, 14])):
        k = rng.random()
        if len(live) < 2 or len(names) < 2:
            break
        a, b = rng.sample(live if rng.random() < 0.2 else ids, 2)
        if k < 0.4:
            if "BellBasedCNOT %d %d %d %d" % (a, b, *names[:2]) in out:
                continue                    # the same line twice could not be told apart in what was applied
            u, v = names.pop(0), names.pop(0)
            out.append("BellBasedCNOT %d %d %d %d" % (a, b, u, v))
            if reuse and rng.random() < reuse:
                names[:0] = [u, v]
        elif k < 0.75:
            u, v = names.pop(0), names.pop(0)
            line = "BellPairInit %d %d %d:%s,%d:%s" % (u, v, a, rng.choice("XZ"), b, rng.choice("XZ"))
            if line in out:
                names[:0] = [u, v]
                continue
            out.append(line)
            if rng.random() < 0.8:
                out += ["MeasureSinglePatch %d %s" % (w, rng.choice("XZ")) for w in (u, v)]
                if reuse and rng.random() < reuse:
                    names[:0] = [u, v]
            else:
                live += [u, v]
        elif k < 0.9:
            out.append("HGate %d" % a)
        else:
            out.append("RotateSingleCellPatch %d" % a)
    return "\n".join(out) + "\n"
