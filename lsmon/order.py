"""Matches the applied instructions of a run with its instruction stream: exactly once, in dependency order."""
from collections import defaultdict, deque

# instructions which take up the slice on which they are applied, and what cannot follow them on that slice
OCCUPIES = {"MBM", "HGate"}
NEEDS_IDLE = {"MBM", "HGate", "SGate", "XGate", "YGate", "ZGate", "BellCNOT"}


class Order:
    """stream: processed stream (list of Instr), slices: applied instructions per slice.
    violations in .v; .when[i] = slice where stream instruction i was (last) applied; .done[i] = slice where its follow-ups ended."""

    def __init__(self, stream, slices, tail, pipe, complete):
        self.v = []
        self.stream = stream
        self.when = [None] * len(stream)     # slice of first application
        self.done = [None] * len(stream)     # slice on which everything about it was finished
        self.seq = []                        # stream indices in order of first application
        pending = defaultdict(deque)         # text -> unapplied stream indices
        for i, ins in enumerate(stream):
            pending[ins.key()].append(i)
        self.owner = {}                      # (slice, position) -> stream index
        rot = {}                             # patch -> stream index of a running rotation (cells unknown yet)
        rots = []                            # [index, cells or None, next steps]
        multi = {}                           # key -> index of a self-rescheduling instruction under way
        scorr = defaultdict(deque)           # "ZGate p" -> indices of S gates waiting for their correction
        allsl = list(slices) + ([tail] if tail else [])
        self.nfollow = 0
        last = len(allsl) - 1
        for t, ins_list in enumerate(allsl):
            for pos, ins in enumerate(ins_list):
                k = ins.key()
                if ins.kind == "Busy":
                    self.nfollow += 1
                    cells, steps = ins.extra
                    hit = None
                    for r in rots:
                        if r[1] == cells and r[2] == steps:
                            hit = r
                            break
                    if hit is None and steps == 2:
                        for r in rots:
                            if r[1] is None and self.when[r[0]] < t:
                                hit = r
                                r[1] = cells
                                break
                    if hit is None:
                        self.v.append(("unexpected", "slice %d: %s belongs to no rotation under way" % (t, ins)))
                        continue
                    self.owner[(t, pos)] = hit[0]
                    hit[2] = steps - 1
                    if steps == 0:
                        rots.remove(hit)
                        self.done[hit[0]] = t
                    continue
                if k in multi and not (pending.get(k) and multi[k][1] == t):
                    i = multi[k][0]
                    self.owner[(t, pos)] = i
                    multi[k] = (i, t)
                    self.done[i] = t
                    self.nfollow += 1
                    continue
                if ins.kind == "ZGate" and scorr.get(k):
                    # correction of a directly executed S gate: comes on a later slice and before anything later on that patch
                    i0 = scorr[k][0]
                    nxt = pending.get(k)
                    if self.when[i0] < t and not (nxt and nxt[0] < i0):
                        scorr[k].popleft()
                        self.owner[(t, pos)] = i0
                        self.done[i0] = t
                        self.nfollow += 1
                        continue
                q = pending.get(k)
                if not q:
                    self.v.append(("extra", "slice %d: %s was applied but is not (or no longer) due: not in the instruction stream that often" % (t, k)))
                    continue
                i = q.popleft()
                self.owner[(t, pos)] = i
                self.when[i] = t
                self.done[i] = t
                self.seq.append(i)
                if ins.kind == "Rotate":
                    rots.append([i, None, 2])
                    self.done[i] = None
                elif ins.kind == "SGate":
                    scorr["ZGate %d" % ins.ids[0]].append(i)
                    self.done[i] = None
                elif ins.kind in ("BellCNOT", "BellPairInit"):
                    multi[k] = (i, t)
        self.missing = [i for i in range(len(stream)) if self.when[i] is None]
        if complete:
            for i in self.missing[:3]:
                self.v.append(("missing", "instruction %d (%s) was never applied although the run succeeded" % (i, stream[i].key())))
            for i, c, s in rots:
                self.v.append(("missing", "rotation %s was never finished" % stream[i]))
            for k, q in scorr.items():
                for i in q:
                    self.v.append(("missing", "correction of %s was never applied" % stream[i]))
        self.pipe = pipe
        self.complete = complete

    def deps(self):
        """Immediate predecessor indices per instruction: last earlier instruction that names one of its patches."""
        last, out = {}, []
        bound = set()
        for i, ins in enumerate(self.stream):
            d = set()
            ps = ins.names()
            if ins.kind == "YState":
                if ins.ids[0] in bound:
                    ps = ins.ids            # gives the state back: places nothing
                bound ^= {ins.ids[0]}
            for p in ps:
                if p in last:
                    d.add(last[p])
                last[p] = i
            out.append(d)
        return out

    def check_order(self):
        """Two instructions on a common patch are applied in program order, and the earlier one is finished first."""
        pos = {i: k for k, i in enumerate(self.seq)}
        n = 0
        for i, ds in enumerate(self.deps()):
            if self.when[i] is None:
                continue
            for d in ds:
                n += 1
                if self.when[d] is None or pos[d] > pos[i]:
                    self.v.append(("order", "%s (stream position %d) was applied before %s (position %d) on which it depends" % (
                        self.stream[i].key(), i, self.stream[d].key(), d)))
                elif self.done[d] is None or self.done[d] > self.when[i]:
                    self.v.append(("order", "%s (stream position %d) was applied on slice %d before %s (position %d) was finished (slice %s)" % (
                        self.stream[i].key(), i, self.when[i], self.stream[d].key(), d, self.done[d])))
                elif (self.done[d] == self.when[i] and self.stream[d].kind in OCCUPIES and self.stream[i].kind in NEEDS_IDLE
                      and set(self.stream[d].patches()) & set(self.stream[i].patches())):
                    self.v.append(("overlap", "%s (stream position %d) was applied on slice %d, which %s (position %d) on the same patch takes up" % (
                        self.stream[i].key(), i, self.when[i], self.stream[d].key(), d)))
        if self.pipe == "stream":
            for a, b in zip(self.seq, self.seq[1:]):
                if a > b:
                    self.v.append(("order", "the stream pipeline applied %s (position %d) after %s (position %d)" % (
                        self.stream[b].key(), b, self.stream[a].key(), a)))
                    break
        return n

    def attempted(self, t, nslices, slices, clients):
        """Stream indices that were certainly attempted on slice t but not applied on it."""
        if self.pipe == "stream":
            ins_list = slices[t]
            if t == nslices - 1 and self.complete:
                return []
            if ins_list and ins_list[-1].kind in ("Rotate", "SGate", "BellCNOT", "BellPairInit"):
                return []
            if ins_list and ins_list[-1].kind == "Busy" and ins_list[-1].extra[1] > 0:
                return []
            # a follow-up under way goes first
            k = [i for i in range(len(self.stream)) if self.when[i] is not None and self.when[i] <= t]
            if any(self.done[i] is None or self.done[i] > t for i in k):
                return []
            nxt = len(k)
            if nxt < len(self.stream) and (self.when[nxt] is None or self.when[nxt] > t):
                return [nxt]
            return []
        out = []
        for i, ds in enumerate(clients):
            if self.when[i] is not None and self.when[i] <= t:
                continue
            if all(self.done[d] is not None and self.done[d] < t for d in ds):
                out.append(i)
        return out

    def client_deps(self, nq_near=True):
        """All earlier instructions sharing a patch or a client patch (near patch, requested-for patch)."""
        touch, out = {}, []
        for i, ins in enumerate(self.stream):
            ps = set(ins.ids)
            if ins.kind == "Init" and ins.extra[1]:
                ps.add(ins.extra[1][0])
            if ins.kind in ("Magic", "YState") and ins.extra is not None:
                ps.add(ins.extra)
            if ins.kind == "Init":
                # template ancillas also wait for the operands of the gate they serve: the next two merges on them
                for j in range(i + 1, min(i + 6, len(self.stream))):
                    if ins.ids[0] in self.stream[j].ids:
                        ps |= set(self.stream[j].ids)
            d = set()
            for p in ps:
                d |= touch.get(p, set())
            for p in ps:
                touch.setdefault(p, set()).add(i)
            out.append(d)
        return out
