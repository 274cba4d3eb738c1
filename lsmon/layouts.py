"""Reference reading of ASCII layouts and reference constructions of the generated layouts."""
import math


class Spec:
    def __init__(self, text, disttime=10, stagger=True):
        rows = [r for r in text.split("\n") if r]
        self.text = text
        self.rows, self.nrows = rows, len(rows)
        self.ncols = len(rows[0]) if rows else 0
        self.by = {}
        for r, row in enumerate(rows):
            for c, ch in enumerate(row):
                self.by.setdefault(ch, []).append((r, c))
        self.core = self.by.get("Q", [])
        self.anc = self.by.get("A", [])
        self.dead = self.by.get("X", [])
        self.ystates = self.by.get("Y", [])
        self.reserved = self.by.get("M", [])
        self.regions, self.exits = [], []
        seen = set()
        for d in "0123456789":
            for start in self.by.get(d, []):
                if start in seen:
                    continue
                comp, q = [], [start]
                seen.add(start)
                while q:
                    x = q.pop(0)
                    comp.append(x)
                    for y in self.neigh(x):
                        if rows[y[0]][y[1]] == d and y not in seen:
                            seen.add(y)
                            q.append(y)
                self.regions.append(comp)
                self.exits.append([y for x in comp for y in self.neigh(x) if rows[y[0]][y[1]] == "r"])
        if self.reserved:
            self.times = [disttime] * len(self.reserved)
        else:
            self.times = [disttime + (i if stagger else 0) for i in range(len(self.regions))]

    def neigh(self, x):
        r, c = x
        return [(a, b) for a, b in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)) if 0 <= a < self.nrows and 0 <= b < self.ncols]


def compact(n, no_clogging=False):
    """Two rows of qubits around a routing lane, ancilla cells and a 5 column distillation block (or one reserved magic cell)."""
    w = (n + 1) // 2
    d = 0 if no_clogging else 5
    g = [["r"] * (w + 3 + d) for _ in range(3)]
    for c in range(w):
        g[0][c] = "Q"
    for c in range(n - w):
        g[2][c] = "Q"
    g[0][w + 1] = "A"
    if no_clogging:
        g[1][w + 2] = "M"
    else:
        g[2][w + 1] = "A"
        for r in range(3):
            for c in range(w + 3, w + 8):
                g[r][c] = "0"
    return "\n".join("".join(r) for r in g) + "\n"


def edpc(n, lanes=1, condensed=False, factories=False, ystates=False):
    """Core qubits in a square, each (condensed: each block of two by two) with lanes around it. In line with every core row and column the edges
    hold magic cells (with ystates: every other one a Y state); with factories, a block of 3x5 outside of every other place on the edge."""
    sr = math.isqrt(n - 1) + 1
    groups, x = [], 1 + lanes
    while sum(map(len, groups)) < sr:
        w = 2 if condensed and sum(map(len, groups)) + 1 < sr else 1
        groups.append(range(x, x + w))
        x += w + lanes
    lo = 5 if factories else 0
    hi = lo + x
    side = hi + 1 + lo
    g = [["r"] * side for _ in range(side)]
    left = n
    for rows in groups:
        for cols in groups:
            for r in rows:
                for c in cols:
                    if left:
                        g[lo + r][lo + c] = "Q"
                        left -= 1
    ticks = [lo] + [lo + y for w in groups for y in w] + [hi]
    edges = [((-1, 0), [(lo, t) for t in ticks]), ((1, 0), [(hi, t) for t in ticks]), ((0, -1), [(t, lo) for t in ticks]), ((0, 1), [(t, hi) for t in ticks])]
    for _, cells in edges:
        for r, c in cells:
            g[r][c] = "?"
    for (dr, dc), cells in edges:
        for k, (r, c) in enumerate(x for x in cells if g[x[0]][x[1]] in "?Y"):
            if k % 2:
                g[r][c] = "r" if factories else "M"
                if factories:
                    for d in range(1, 6):
                        for w in (-1, 0, 1):
                            g[r + dr * d + (w if dc else 0)][c + dc * d + (w if dr else 0)] = "0"
            else:
                g[r][c] = "Y" if ystates else "r" if factories else "M"
    for r in range(side):
        for c in range(side):
            if g[r][c] == "r" and not (lo <= r <= hi and lo <= c <= hi):
                g[r][c] = "X"
    return "\n".join("".join(r) for r in g) + "\n"


def text_from_slice(grid, nq=None):
    """ASCII text of a layout, read off a slice on which nothing but the layout's own patches exists."""
    factories = any(x and x.get("text", "").startswith("Time to") for row in grid for x in row)
    rows = []
    for row in grid:
        s = ""
        for x in row:
            if x is None:
                s += "r"
            elif x["patch_type"] == "Qubit":
                s += "Q" if x["text"].startswith("Id") else "Y"
            elif x["patch_type"] == "Ancilla":
                s += "X"
            elif factories:
                s += "0"
            else:
                s += "M"
        rows.append(s)
    return "\n".join(rows) + "\n"
