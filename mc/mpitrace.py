"""Traces of collective and file operations of all processes, and the exploration of every schedule consistent with them.

A process' own behaviour depends on the others only through collectives and files, so that once its collectives match and
no file operations of different processes are unordered, every schedule gives the same traces: one recorded execution
per configuration stands for all of them. Both conditions are decided on the trace by exploring all schedules."""
import ctypes, os, subprocess
from . import env as E

SYNC = {"barrier", "allreduce", "allgather", "allgatherv", "alltoall", "alltoallv", "dup", "split", "create", "cart", "sub", "scan", "exscan"}
FROM_ROOT = {"bcast", "scatter", "scatterv"}

def library(scratch):
    so = os.path.join(scratch, "trace.so")
    if not os.path.exists(so):
        subprocess.run(["mpicc", "-shared", "-fPIC", "-O1", "-w", "-o", so + ".tmp", os.path.join(E.VERIF, "mc", "native", "trace.c"), "-ldl"], check=True,
                       env=dict(os.environ, PATH=os.environ.get("PATH", "") + ":/usr/bin:/usr/local/bin"))
        os.replace(so + ".tmp", so)
    return so

class Tracer:
    def __init__(self, comm, folder):
        self.lib = ctypes.CDLL(os.environ["MC_TRACE"])
        self.comm, self.folder = comm, folder
        self.log = os.path.join(os.path.dirname(folder), f"trace-{comm.rank}")
    def __enter__(self):
        self.lib.trace_start(self.log.encode(), self.folder.encode())
        return self
    def __exit__(self, *a):
        self.lib.trace_stop()
    def gather(self):
        """All traces, on rank 0."""
        return self.comm.gather(parse(open(self.log).read()), root=0)

def parse(text):
    out = []
    for l in text.splitlines():
        w = l.split(" ")
        if w[0] == "C": out.append(("C", w[1], w[2], tuple(map(int, w[3].split(","))), int(w[4]), int(w[5]), w[6], w[7]))
        elif w[0] == "P": out.append(("P", w[1], w[2], tuple(map(int, w[3].split(","))), int(w[4]), int(w[5])))
        elif w[0] == "F": out.append(("F", w[1], " ".join(w[2:])))
    return out

def nums(s): return [] if s == "-" else [int(x) for x in s.split(",")]

def mismatches(traces):
    """Sequences of collectives per communicator, compared between members."""
    out = []
    comms = {}
    for r, t in enumerate(traces):
        for e in t:
            if e[0] == "C": comms.setdefault((e[2], e[3]), {}).setdefault(r, []).append(e)
    for (name, mem), per in comms.items():
        seqs = [per.get(r, []) for r in mem]
        if set(per) - set(mem): out.append(("members", f"{name}: called by {sorted(per)}, members {mem}"))
        n = {len(s) for s in seqs}
        for k in range(max(n)):
            es = [s[k] if k < len(s) else None for s in seqs]
            if None in es:
                out.append(("missing", f"{name}: operation {k} is {[e and e[1] for e in es]} on processes {mem}")); break
            if len({(e[1], e[4], e[5]) for e in es}) > 1:
                out.append(("differ", f"{name}: operation {k} is {[(e[1], e[4], e[5]) for e in es]} on processes {mem}")); break
            op, root = es[0][1], es[0][4]
            S = [nums(e[6]) for e in es]; R = [nums(e[7]) for e in es]
            if op == "alltoallv":
                bad = any(S[i] and R[j] and S[i][j] != R[j][i] for i in range(len(mem)) for j in range(len(mem)))
            elif op == "gatherv": bad = R[root] != [s[0] for s in S]
            elif op == "scatterv": bad = S[root] != [r[0] for r in R]
            else: bad = len({tuple(s) for s in S}) > 1
            if bad: out.append(("sizes", f"{name}: operation {k}, {op}, has sizes {S} / {R} on processes {mem}")); break
    return out

def conflict(a, b):
    """Two file operations of different processes whose order matters."""
    (ka, pa), (kb, pb) = a, b
    for (k, p), (l, q) in (((ka, pa), (kb, pb)), ((kb, pb), (ka, pa))):
        if k in ("n", "d", "wn"):
            if p == q and l != "c": return True
            if q.startswith(p + "/") and k != "wn" and l != "c": return True
            if l == "l" and os.path.dirname(p) == q: return True
        if k == "w" and p == q and l in ("r", "w"): return True
    return False

def reduce(traces):
    """Events that matter to other processes: communication, and file operations on paths someone else touches in a conflicting way."""
    seen = [sorted({(e[1], e[2]) for e in t if e[0] == "F"}) for t in traces]
    out = []
    for r, t in enumerate(traces):
        hot = {x for x in seen[r] if any(conflict(x, y) for s in range(len(traces)) if s != r for y in seen[s])}
        paths = {p for k, p in hot}
        out.append([e for e in t if e[0] != "F" or (e[1], e[2]) in hot or (e[1] == "c" and e[2] in paths)])
    return out

class Explorer:
    """All reachable states of the product of the traces; strict: every collective waits for all its members."""
    def __init__(self, traces, strict):
        self.full, self.strict = traces, strict
        self.t = reduce(traces)
        self.n = len(traces)
        # k-th use of each communicator
        self.nth, self.where = [], {}
        for r, t in enumerate(self.t):
            c, row = {}, []
            for i, e in enumerate(t):
                if e[0] == "C":
                    k = c.get((e[2], e[3]), 0); c[(e[2], e[3])] = k + 1
                    self.where[(e[2], e[3], k, r)] = i
                elif e[0] == "P":
                    me = e[3].index(r) if r in e[3] else None
                    peer = e[3][e[4]]
                    key = (e[2], e[5], r, peer) if e[1] == "send" else (e[2], e[5], peer, r)
                    k = c.get((e[1],) + key, 0); c[(e[1],) + key] = k + 1
                    if e[1] == "send": self.where[("P",) + key + (k,)] = i
                    k = ("P",) + key + (k,)
                else: k = None
                row.append(k)
            self.nth.append(row)
    def enabled(self, s, r):
        i = s[r]
        if i >= len(self.t[r]): return False
        e = self.t[r][i]
        if e[0] == "F": return True
        if e[0] == "P":
            if e[1] == "send": return True
            w = self.where.get(self.nth[r][i])
            return w is not None and s[self.nth[r][i][4 - 1]] > w
        op, name, mem, root = e[1], e[2], e[3], e[4]
        k = self.nth[r][i]
        if not self.strict:
            if op in FROM_ROOT:
                if mem[root] == r: return True
                need = [mem[root]]
            elif op not in SYNC:
                if mem[root] != r: return True
                need = mem
            else: need = mem
        else: need = mem
        for q in need:
            w = self.where.get((name, mem, k, q))
            if w is None or s[q] < w: return False
        return True
    def explore(self, cap=400000):
        """Violations found in some reachable state, and the number of states and transitions."""
        start = (0,)*self.n
        end = tuple(len(t) for t in self.t)
        if self.strict:
            # collectives that wait for everyone make all schedules confluent: one maximal run decides
            s, steps = list(start), 0
            while True:
                moved = False
                for r in range(self.n):
                    while self.enabled(s, r): s[r] += 1; steps += 1; moved = True
                if not moved: break
            bad = [] if tuple(s) == end else [("deadlock", "processes wait at " + "; ".join(f"{r}: {self.t[r][i][1:3] if i < len(self.t[r]) else 'end'}" for r, i in enumerate(s)))]
            return bad, steps, steps, False
        opens = [self.handles(r) for r in range(self.n)]
        seen, stack, bad, trans = {start}, [start], {}, 0
        # Runs of communication without shared files between them are taken greedily (they commute with everything else)
        while stack:
            s = stack.pop()
            en = [r for r in range(self.n) if self.enabled(s, r)]
            if not en and s != end: bad.setdefault("deadlock", f"stuck at {s} of {end}")
            nxt = {r: self.t[r][s[r]] for r in en}
            for r in en:
                if nxt[r][0] != "F": continue
                a = nxt[r][1:]
                for q in range(self.n):
                    if q == r: continue
                    cands = list(opens[q][s[q]])
                    if q in nxt and nxt[q][0] == "F": cands.append(nxt[q][1:])
                    for b in cands:
                        if conflict(a, b): bad.setdefault(f"race {min(a[0], b[0])}{max(a[0], b[0])}", f"process {r} may do {a} while process {q} does {b}")
            comm = [r for r in en if nxt[r][0] != "F"]
            for r in (comm[:1] or en):
                u = s[:r] + (s[r] + 1,) + s[r + 1:]
                trans += 1
                if u not in seen:
                    seen.add(u); stack.append(u)
            if len(seen) > cap: return list(bad.items()), len(seen), trans, True
        return list(bad.items()), len(seen), trans, False
    def handles(self, r):
        """Open handles of process r before each of its events."""
        cur, out = [], []
        for e in self.t[r]:
            out.append(tuple(cur))
            if e[0] == "F":
                if e[1] in ("r", "w", "wn"): cur.append(("w" if e[1] != "r" else "r", e[2]))
                elif e[1] == "c":
                    for h in reversed(cur):
                        if h[1] == e[2]: cur.remove(h); break
        out.append(tuple(cur))
        return out

def check(rec, traces, label):
    for kind, msg in mismatches(traces): rec.violate(kind, f"{label}: {msg}")
    for strict in (True, False):
        bad, states, trans, capped = Explorer(traces, strict).explore()
        for kind, msg in bad: rec.violate(kind, f"{label}: {msg}")
        rec.step(trans)
        rec.evals += states
        if capped: rec.caps.append(f"{label}: exploration stopped at {states} states")
    rec.trace()
    return sum(len(t) for t in traces)
