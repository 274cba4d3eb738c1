"""Unsigned stabilizer tableau over named qubits: which Pauli products a sequence of Clifford measurements leaves fixed, up to sign."""


class Tableau:
    def __init__(self):
        self.q = {}          # name -> bit
        self.next = 0
        self.g = []          # generators (x, z)

    def _bit(self, name):
        return 1 << self.q[name]

    def add(self, name, basis):
        assert name not in self.q
        self.q[name] = self.next
        self.next += 1
        b = self._bit(name)
        self.g.append((b, 0) if basis == "X" else (0, b))

    def pauli(self, ops):
        x = z = 0
        for n, o in ops.items():
            b = self._bit(n)
            if o in "XY":
                x ^= b
            if o in "ZY":
                z ^= b
        return x, z

    @staticmethod
    def anti(p, q):
        return bin((p[0] & q[1]) ^ (p[1] & q[0])).count("1") & 1

    def measure(self, ops):
        """-> True if the outcome was random."""
        p = self.pauli(ops)
        a = [i for i, g in enumerate(self.g) if self.anti(g, p)]
        if not a:
            return False
        h = self.g[a[0]]
        for i in a[1:]:
            self.g[i] = (self.g[i][0] ^ h[0], self.g[i][1] ^ h[1])
        self.g[a[0]] = p
        return True

    def bell(self, a, b):
        self.add(a, "Z")
        self.add(b, "Z")
        self.measure({a: "X", b: "X"})

    def drop(self, name):
        """Removes a qubit that has just been measured (is in a product state)."""
        b = self._bit(name)
        out, own = [], None
        for x, z in self.g:
            if (x | z) == b:
                own = (x, z)
        assert own is not None
        for x, z in self.g:
            if (x, z) == own:
                continue
            if (x | z) & b:
                x, z = x ^ own[0], z ^ own[1]
                assert not (x | z) & b
            out.append((x, z))
        self.g = out
        del self.q[name]

    def move(self, a, b):
        self.q[b] = self.q.pop(a)

    def has(self, ops):
        """Is this Pauli product (up to sign) in the group?"""
        v = self.pauli(ops)
        rows = [g for g in self.g]
        piv = []
        for r in rows:
            for k, pr in piv:
                if (r[k[0]] & k[1]):
                    r = (r[0] ^ pr[0], r[1] ^ pr[1])
            if r != (0, 0):
                w = 0 if r[0] else 1
                piv.append(((w, r[w] & -r[w]), r))
        for k, pr in piv:
            if v[k[0]] & k[1]:
                v = (v[0] ^ pr[0], v[1] ^ pr[1])
        return v == (0, 0)
