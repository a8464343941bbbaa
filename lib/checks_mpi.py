"""Checks of the calls of several ranks: multidrv runs the ranks on a simulated MPI,
TraceMPI judges every step."""
import json, random, os, math
from vlib import *
import checks_seq
from checks_seq import judge
import gen
from gen import hx


def multidrv(flags=(), name="multidrv"):
    return build(name, ["multidrv.c", "fakempi/fakempi.c"], mpi=True, flags=flags)


def run_multi(exe, histories, tag="m", timeout=800, args=(), jobs=8):
    """Like run_seq; histories are lists of multidrv script lines (H ... E).  They are spread
    over several driver processes; the trace keeps their order."""
    d = wd("runm_" + tag)
    jobs = max(1, min(jobs, len(histories)))
    parts = [histories[i * len(histories) // jobs:(i + 1) * len(histories) // jobs] for i in range(jobs)]

    def one(i):
        sc, tr, scratch = [os.path.join(d, "%s%d" % (n, i)) for n in ("script", "trace", "scratch")]
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        if os.path.exists(tr):
            os.unlink(tr)
        with open(sc, "w") as f:
            for h in parts[i]:
                f.write("\n".join(h) + "\n")
        env = dict(os.environ, **ASAN_ENV)
        errp = os.path.join(d, "err%d" % i)
        try:
            with open(errp, "w") as ef:
                r = subprocess.run([exe, sc, tr, scratch] + list(args), env=env, stdout=subprocess.DEVNULL, stderr=ef, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out")
        err = open(errp, errors="replace").read()
        if r.returncode:
            raise CheckError("driver failed (%d): %s" % (r.returncode, err[-1500:]))
        shutil.rmtree(scratch, ignore_errors=True)
        return tr, err
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    tr = os.path.join(d, "trace.ndjson")
    with open(tr, "w") as f:
        for t, _ in res:
            if os.path.exists(t):
                with open(t) as g:
                    shutil.copyfileobj(g, f)
                os.unlink(t)
    events = [json.loads(x) for x in open(tr)]
    crashes = []
    k = -1
    for e in events:
        if e["op"] == "start":
            k += 1
        if e["op"] == "DEAD":
            crashes.append(dict(history=k, op="DEAD %s rank %s at %s" % (e["code"], e["rank"], e["where"]), status=e["code"], stderr="".join(x[1] for x in res)[-3000:]))
    return tr, events, crashes


def mjudge(chk, exe, histories, tag="m", env=None, args=(), keyfn=None, events_per_chunk=40000, chunk=1500, module="TraceMPI"):
    judge(chk, exe, histories, tag=tag, env=env, chunk=chunk, module=module, runner=run_multi, args=args, keyfn=keyfn, events_per_chunk=events_per_chunk)


# ------------------------------------------------------------------ generation
KEYS = [b"a", b"b", b"key", b"", b"0", b"1", b"D", b"S", b"RANK", b"FILE", b"LEVEL", b"x y", b"\xff\x01%s"]
PREFIXES = ["pf", "pf", "pg", "=" + b"p+f".hex(), "=" + b"a.b(c".hex(), "=" + b"q[0]*$".hex(), "=" + b"pf.0".hex(), "=" + b"pf.1".hex(), "=" + b"sp ace%d".hex(), "~rel", "=" + b"sub/pf".hex(), "=" + b".hid".hex(), "=" + ("L" * 90).encode().hex()]


class MG:
    def __init__(self, r, n=None, mode=None, seg=None, comms=True):
        self.r = r
        self.n = n or r.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9])
        self.seg = seg if seg is not None else r.choice([256, 256, 300, 512, 1000, 0])
        self.mode = mode if mode is not None else r.randrange(4)
        self.head = "H %d %d %d %d M" % (self.n, r.randrange(1, 1 << 30), self.mode, self.seg)
        self.comms = {0: list(range(self.n))}
        self.lines = []
        if comms and self.n > 1:
            for i in range(r.randrange(3)):
                k = r.randrange(1, self.n + 1)
                self.comms[5 + i] = r.sample(range(self.n), k)
        self.data = {}
        self.keep2 = False

    def script(self):
        out = [self.head]
        for c, m in self.comms.items():
            if c:
                out.append("C %d %s" % (c, " ".join(map(str, m))))
        return out + self.lines + ["E"]

    def step(self, **k):
        """all=..., or per rank through self.at"""
        self.lines.append("S")

    def all(self, s):
        self.step()
        self.lines.append("* " + s)

    def at(self, ops):
        self.step()
        for w in sorted(ops):
            self.lines.append("%d %s" % (w, ops[w]))

    def start(self, slots=4):
        for s in range(slots):
            self.all("new %d" % s)
        self.at({0: "mkdir sub"})
        self.bar()

    def key(self):
        r = self.r
        if r.random() < .25:
            seg = self.seg or 1000
            L = r.choice([seg - 9, seg - 10, seg - 8, seg // 2 - 9, 2 * seg - 9, r.randrange(1, 2 * seg)])
            return hx(bytes([r.randrange(97, 123)]) * max(1, L))
        return hx(r.choice(KEYS))

    def mut_op(self):
        r = self.r
        s = r.choice([0, 0, 1, 3, 3])
        p = "@" if r.random() < .7 else ",".join(hx(r.choice(KEYS[:3])) for _ in range(r.randrange(1, 3)))
        x = r.random()
        if x < .55:
            return "set_kv %d:%s %s %s" % (s, p, self.key(), self.key())
        if x < .7:
            return "set_kv_int %d:%s %s %d" % (s, p, hx(r.choice(KEYS)), r.randrange(-3, 40))
        if x < .8:
            return "unset %d:%s %s" % (s, p, hx(r.choice(KEYS)))
        if x < .9:
            return "merge %d:@ %d:@" % (s, r.randrange(4))
        if x < .95:
            return "set %d:%s %s -1" % (0 if s == 1 else s, p, hx(r.choice(KEYS)))
        return "unset_all %d:%s" % (s, p)

    def mutate(self, k=3):
        for _ in range(k):
            self.at({w: self.mut_op() for w in range(self.n) if self.r.random() < .8})

    def comm(self):
        return self.r.choice(sorted(self.comms))

    def p2p(self):
        r = self.r
        c = self.comm()
        m = self.comms[c]
        ops = {}
        kind = r.random()
        if kind < .35:                                  # plain pairs
            ranks = m[:]
            r.shuffle(ranks)
            while len(ranks) >= 2:
                a, b = ranks.pop(), ranks.pop()
                for _ in range(r.choice([1, 1, 2, 3])):
                    t = r.choice([0, 1, 3] if self.keep2 else [0, 1, 2, 3])
                    ops = {a: "send %s %d %d" % ("-1:@" if r.random() < .03 else "%d:@" % r.randrange(4), m.index(b), c), b: "recv %d:@ %d %d" % (t, m.index(a), c)}
                    self.at(ops)
            if r.random() < .3:
                w = r.choice(m)
                self.at({w: "send 0:@ -1 %d" % c})
                self.at({w: "recv 1:@ -1 %d" % c})
        elif kind < .85:                                # combined calls along a partial permutation
            for _ in range(r.choice([1, 2, 3])):
                n = len(m)
                shape = r.random()
                if shape < .3:
                    k = r.randrange(n)
                    to = {i: (i + k) % n for i in range(n)}
                elif shape < .5:
                    to = {i: n - 1 - i for i in range(n)}
                else:
                    q = list(range(n))
                    r.shuffle(q)
                    to = dict(enumerate(q))
                if r.random() < .5:
                    to = {i: j for i, j in to.items() if r.random() < .7}
                elif r.random() < .3:                    # a line: the ends have no partner
                    to = {i: i + 1 for i in range(n - 1)}
                fr = {j: i for i, j in to.items()}
                ops = {}
                for i in range(n):
                    t, u = r.sample(range(4), 2)
                    if u == 2 and self.keep2:
                        t, u = u, t
                    ops[m[i]] = "sendrecv %d:@ %d %d:@ %d %d" % (t, to.get(i, -1), u, fr.get(i, -1), c)
                self.at(ops)
        else:
            t = r.choice([0, 1, 3])
            root = r.randrange(len(m))
            self.at({w: "bcast %d:@ %d %d" % (t if r.random() < .7 else r.choice([0, 1, 3] if self.keep2 else range(4)), root, c) for w in m})

    def exchange(self):
        r = self.r
        c = self.comm()
        m = self.comms[c]
        n = len(m)
        pat = r.random()
        for _ in range(r.randrange(0, 5)):
            ops = {}
            for i, w in enumerate(m):
                if r.random() < .8:
                    if pat < .2:
                        d = (i + r.choice([0, 1, n - 1])) % n
                    elif pat < .4:
                        d = 0
                    elif pat < .5:
                        d = (n - 1 - i)
                    else:
                        d = r.randrange(n)
                    src = r.choice(["3:@", "0:@", "3:@", "0:61"])
                    ops[w] = "sendq 2:@ %d %s" % (d, src)
            if ops:
                self.at(ops)
            if r.random() < .5:
                self.at({w: self.mut_op() for w in m if r.random() < .7})
        d = r.randrange(3)
        self.at({w: "exchange 2:@ 1:@ %d %d" % (d, c) for w in m})
        x = r.random()
        if x < .5:
            self.at({w: "unset_all 2:@" for w in m})
        elif x < .7:
            self.at({w: "exchange 2:@ 1:@ %d %d" % ((d + 1) % 3, c) for w in m})
            self.at({w: "unset_all 2:@" for w in m})
        else:
            self.at({w: "unset_all 1:@" for w in m if r.random() < .6})
            self.at({w: "unset_all 2:@" for w in m})

    def bar(self):
        self.all("barrier")

    def files(self):
        self.bar()
        self.at({self.r.randrange(self.n): "files"})
        self.bar()

    def prefix(self):
        return self.r.choice(PREFIXES)

    def mwrite(self, p, c=0, slot=0):
        self.at({w: "mwrite %d:@ %s %d" % (slot, p, c) for w in self.comms[c]})

    def mread(self, p, c=0, slot=1):
        self.at({w: "mread %d:@ %s %d" % (slot, p, c) for w in self.comms[c]})

    def fat(self):
        """contributions of interesting sizes"""
        r = self.r
        seg = self.seg or 1000
        style = r.randrange(5)
        ops = {}
        for w in range(self.n):
            if style == 0:
                L = seg - 9
            elif style == 1:
                L = r.choice([seg // 2 - 9, seg // 4 - 9])
            elif style == 2:
                L = r.choice([1, 2, 5])
            elif style == 3:
                L = r.choice([seg - 9, 1, 3 * seg, seg // 2 - 9])
            else:
                L = r.randrange(1, 2 * seg)
            if r.random() < .85:
                ops[w] = "set_kv 0:@ %s %s" % (hx(bytes([97 + w % 26]) * max(1, L - 5)), hx(b""))
        if r.random() < .7:
            self.all("unset_all 0:@")
        if ops:
            self.at(ops)

    def gather(self, between=None):
        """write a set, look at it, do something to it (between), read it"""
        r = self.r
        p = self.prefix()
        c = self.comm()
        if r.random() < .7:
            self.fat()
        self.bar()
        if r.random() < .25:                       # an older set of another split under the same name
            self.serial(p, r.randrange(1, 8))
        for i in range(r.choice([1, 1, 2])):
            if r.random() < .5 and i:
                self.mutate(1)
                self.bar()
            self.mwrite(p, c)
            self.bar()
        self.files()
        if between:
            between(p, c)
        self.read_all(p, c)
        if r.random() < .3:
            self.mread(p, self.comm())
            self.bar()

    def read_all(self, p, c):
        r = self.r
        self.mread(p, c)
        self.bar()
        if r.random() < .5:
            self.at({r.randrange(self.n): "gread %d:@ %s" % (r.choice([1, 3]), p)})
            self.bar()

    def slot3(self, w, k, holes=0):
        r = self.r
        self.at({w: "unset_all 3:@"})
        for i in r.sample(range(k), k - holes):
            x = r.random()
            if x < .15:
                self.at({w: "set 3:@ %s %d" % (hx(str(i)), r.choice([-1, -1, -1]))})     # a rank without a tree
            else:
                self.at({w: "set_kv 3:@ %s %s" % (hx(str(i)), self.key())})
                if r.random() < .4:
                    self.at({w: "set_kv 3:%s %s %s" % (hx(str(i)), hx(r.choice(KEYS)), hx(r.choice(KEYS)))})

    def serial(self, p, k, holes=0, ranks=None, per=None):
        r = self.r
        w = r.randrange(self.n)
        self.slot3(w, k, holes)
        per = per or r.choice(["-", "1", "1", "2", "3", str(k), str(k + 1), "8192"])
        self.at({w: "gwrite 3:@ %s %d %s" % (p, ranks or k, per)})
        self.bar()
        return w

    def part(self, p):
        """the name of some file of the set"""
        r = self.r
        x = r.random()
        b = bytes.fromhex(p[1:]) if p[0] == "=" else p.encode()
        if x < .3:
            return "=" + b.hex()
        lev = 0 if x < .7 or self.n < 5 else r.choice([1, 1, 2])
        return "=" + (b + b".%d.%d" % (lev, r.choice([0, 0, r.randrange(self.n + 1)]))).hex()

    def damage(self, p, c=0):
        r = self.r
        w = r.randrange(self.n)
        for _ in range(r.choice([1, 1, 1, 2])):
            f = self.part(p)
            x = r.random()
            if x < .3:
                op = "fdel %s" % f
            elif x < .5:
                op = "ftrunc %s %d" % (f, r.choice([0, 1, 19, 24, 30, 60, 200, 300]))
            elif x < .75:
                op = "fflip %s %d %d" % (f, r.randrange(2000), r.randrange(8))
            elif x < .85:
                op = "fmkdir %s" % f
            elif x < .95:
                op = "fcopy %s %s" % (self.part(p), f)
            else:
                op = "fput %s %s" % (f, hx(b"junk"))
                op = "ftrunc %s 0" % f
            self.at({w: op})
        self.bar()
        self.files()

    def faults(self, classes):
        """fault plans on some ranks for the calls that follow"""
        r = self.r
        ops = {}
        for w in r.sample(range(self.n), r.choice([1, 1, 1, min(2, self.n), self.n])):
            cls = r.choice(classes)
            nth = r.choice([1, 1, 1, 2, 3])
            x = r.random()
            if cls in "RW" and x < .35:             # passes unnoticed
                y = r.random()
                if y < .4:
                    ops[w] = "plan %s %d %d %d 0" % (cls, nth, r.choice([4, 11]), r.choice([1, 2, 3]))
                else:
                    ops[w] = "plan %s %d -1 %s %d" % (cls, nth, r.choice(["-1", "1", "3"]), r.choice([1, 2, 7, 24, 100]))
            else:
                ops[w] = "plan %s %d %d -1 0" % (cls, nth, r.choice([5, 28, 9, 13]))
        self.at(ops)
        return sorted(ops)

    def nofaults(self, ws):
        self.at({w: "noplan" for w in ws})
        self.bar()

    def faulty(self):
        """a write and a read with input/output errors on some ranks"""
        r = self.r
        p = self.prefix()
        c = self.comm()
        if r.random() < .7:
            self.fat()
        self.bar()
        if r.random() < .5:
            ws = self.faults("OWWCTSF")
            self.mwrite(p, c)
            self.nofaults(ws)
            if r.random() < .5:
                self.read_all(p, c)
        self.mwrite(p, c)
        self.bar()
        for _ in range(r.choice([1, 2])):
            ws = self.faults("OORRSC")
            self.mread(p, c)
            self.nofaults(ws)
        if r.random() < .4:
            w = r.randrange(self.n)
            self.at({w: "plan %s %d 5 -1 0" % (r.choice("ORSC"), r.choice([1, 2, 3]))})
            self.at({w: "gread 1:@ %s" % p})
            self.nofaults([w])
        self.read_all(p, c)

    def missing(self):
        """directories that do not exist, names that are directories"""
        r = self.r
        x = r.random()
        if x < .4:
            self.mwrite("=" + b"nodir/pf".hex(), self.comm())
        elif x < .5:
            self.mread("=" + b"nodir/pf".hex(), self.comm())
        else:
            p = self.prefix()
            self.at({0: "fmkdir %s" % self.part(p)})
            self.bar()
            c = self.comm()
            self.mwrite(p, c)
            self.bar()
            self.read_all(p, c)
        self.bar()


def hist_p2p(r, n=None, mode=None):
    g = MG(r, n=n, mode=r.choice([0, 0, 1, 2, 3]) if mode is None else mode)
    g.start()
    g.mutate(4)
    for _ in range(r.randrange(3, 9)):
        g.p2p()
        if r.random() < .5:
            g.mutate(1)
    return g.script()


def partial_permutations(n):
    out = []

    def go(i, used, cur):
        if i == n:
            out.append(dict(cur))
            return
        go(i + 1, used, cur)
        for j in range(n):
            if j not in used:
                go(i + 1, used | {j}, cur + [(i, j)])
    go(0, frozenset(), [])
    return out


def label(g, s=0, nil=True):
    """a different tree on every rank"""
    for w in range(g.n):
        k = hx(b"t%d" % w)
        g.at({w: "set_kv %d:@ %s %s" % (s, k, hx(bytes([97 + w]) * (1 + 60 * (w % 3))))})
        if w % 2:
            g.at({w: "set_kv %d:%s %s %s" % (s, k, k, k)})


def hist_matrix(n, maps, mode, seed):
    """combined calls along every given partial permutation, trees shifted in between"""
    g = MG(random.Random(seed), n=n, mode=mode, comms=False)
    g.start()
    label(g, 0)
    label(g, 1)
    for i, to in enumerate(maps):
        fr = {j: i for i, j in to.items()}
        a, b = (0, 2) if i % 3 else (1, 3)
        g.at({w: "sendrecv %d:@ %d %d:@ %d 0" % (a, to.get(w, -1), b, fr.get(w, -1)) for w in range(n)})
        if i % 7 == 3:
            g.at({w: "bcast %d:@ %d 0" % (2 + i % 2, i % n) for w in range(n)})
        if i % 11 == 5:
            g.all("unset_all 0:@")
            label(g, 0)
        if i % 13 == 7:
            g.at({w: "unset_all %d:@" % (i % 4) for w in range(n) if (w + i) % 3 == 0})
    return g.script()


def hist_exchange(r, n=None):
    g = MG(r, n=n)
    g.keep2 = True
    g.start()
    g.mutate(3)
    for _ in range(r.randrange(1, 5)):
        g.exchange()
        if r.random() < .3:
            g.p2p()
    return g.script()


def hist_patterns(n, pats, mode, seed):
    """one exchange per (pattern, direction); a pattern is a list of (source, destination)"""
    g = MG(random.Random(seed), n=n, mode=mode, comms=False)
    g.start()
    label(g, 3)
    for pat, d in pats:
        dests = {}
        for s, t in pat:
            dests.setdefault(s, []).append(t)
        while dests:
            ops = {s: "sendq 2:@ %d 3:@" % ts.pop() for s, ts in dests.items()}
            dests = {s: ts for s, ts in dests.items() if ts}
            g.at(ops)
        g.all("exchange 2:@ 1:@ %d 0" % d)
        g.all("unset_all 2:@")
        g.all("unset_all 1:@")
    return g.script()


def hist_sendq(r, n=None):
    """queueing, with the messages changed or deleted afterwards"""
    g = MG(r, n=n or r.choice([1, 2, 3, 5]))
    g.keep2 = True
    g.start()
    g.mutate(2)
    big = r.random() < .4
    dests = [0, 1, 2, 9, 10, 99, 100, 1000, 65535, 65536, 2147483647, -1, -2, -10, -2147483648] if big else list(range(g.n))
    for _ in range(r.randrange(3, 12)):
        ops = {}
        for w in range(g.n):
            x = r.random()
            if x < .6:
                ops[w] = "sendq 2:@ %d %s" % (r.choice(dests), r.choice(["3:@", "0:@", "0:61", "1:@", "-1:@"]))
            elif x < .9:
                ops[w] = g.mut_op()
            elif x < .95:
                ops[w] = "delete %d" % r.choice([0, 3])
            else:
                ops[w] = "new %d" % r.choice([0, 3])
        g.at(ops)
    g.at({w: "unset_all 3:@" for w in range(g.n)})
    g.at({w: "unset_all 0:@" for w in range(g.n)})
    if not big:
        g.all("exchange 2:@ 1:@ %d 0" % r.randrange(3))
        g.all("unset_all 2:@")
        g.all("delete 2")
    return g.script()


def hist_gather(r, n=None, seg=None, between=None):
    g = MG(r, n=n or r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12]), seg=seg)
    g.start()
    g.mutate(3)
    for _ in range(r.randrange(1, 4)):
        g.gather((lambda p, c: g.damage(p, c)) if between == "damage" else None)
    return g.script()


def hist_aligned(n, seg, sizes, mode, seed, comms=False):
    """contributions of exactly the given packed sizes (a lone key of length L packs to L+9)"""
    g = MG(random.Random(seed), n=n, mode=mode, seg=seg, comms=comms)
    g.start(2)
    g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w % 26]) * (z - 9)) for w, z in enumerate(sizes) if z > 9})
    g.bar()
    g.mwrite("pf")
    g.bar()
    g.files()
    g.mread("pf")
    g.bar()
    g.at({0: "gread 1:@ pf"})
    return g.script()


def aligned(n, seg):
    """size vectors whose sums meet segment boundaries in every way"""
    out = []
    for z in ([seg], [seg // 2], [seg // 4], [seg, 4], [4, seg], [seg - 4, 4], [4, seg - 4], [seg // 2, seg // 2, 4], [2 * seg, 4], [4, 2 * seg],
              [seg - 1, 10, seg - 9], [seg + 1], [seg - 1], [4], [3 * seg], [seg, seg, 4, 4], [seg // 2, seg, seg // 2]):
        v = (z * n)[:n]
        out.append([x if x == 4 or x > 9 else 4 for x in v])
    return out


def hist_vectors(n, seg, vectors, mode, seed):
    """one set after another under the same name, each with contributions of exactly the given sizes"""
    g = MG(random.Random(seed), n=n, mode=mode, seg=seg, comms=False)
    g.start(3)
    for v in vectors:
        g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w % 26]) * (z - 9)) for w, z in enumerate(v) if z > 9})
        g.bar()
        g.mwrite("pf")
        g.bar()
        g.files()
        g.mread("pf", slot=2)
        g.all("unset_all 2:@")
        g.all("unset_all 0:@")
    return g.script()


def vectors(what, sizes=(4, 64, 128, 192, 255, 256, 257, 512)):
    """size vectors around fractions and multiples of a segment of 256 bytes: all of them for few ranks"""
    import itertools
    out = []
    r = random.Random("%d/%s/vec" % (SEED, what))
    for n, k in ((2, 64), (3, 512 if THOROUGH else 60), (4, 800 if THOROUGH else 40), (6, 300 if THOROUGH else 20)):
        vs = list(itertools.product(sizes, repeat=n)) if n < 5 else [[r.choice(sizes) for _ in range(n)] for _ in range(k)]
        vs = r.sample(vs, min(k, len(vs)))
        for i in range(0, len(vs), 8):
            out.append(hist_vectors(n, 256, vs[i:i + 8], i // 8 % 4, SEED + i))
    return out


def hist_serial(r, damage=False):
    """serially written sets: whole or not, over older ones, read by everybody"""
    g = MG(r, n=r.choice([1, 2, 3, 4, 5, 6, 8]), comms=False)
    ks = {5 + i: r.randrange(1, g.n + 1) for i in range(3)}
    for c, k in ks.items():
        g.comms[c] = r.sample(range(g.n), k)
    g.start()
    g.mutate(2)
    names = r.sample(PREFIXES, 3)
    for _ in range(r.randrange(2, 5)):
        p = r.choice(names)
        x = r.random()
        c = r.choice(sorted(g.comms))
        k = len(g.comms[c])
        if x < .65:
            holes, ranks = 0, None
            if r.random() < .2:
                if r.random() < .5 and k > 1:
                    holes = 1
                    ranks = r.choice([None, k - 1])      # as many trees as ranks, but not one for each
                else:
                    ranks = max(1, k + r.choice([1, -1, 2]))
            g.serial(p, k, holes, ranks)
        else:
            g.mwrite(p, c)
            g.bar()
        g.files()
        if damage and r.random() < .7:
            g.damage(p)
        for q in r.sample(names, 2):
            if r.random() < .6 or q == p:
                g.at({r.randrange(g.n): "gread %d:@ %s" % (r.choice([1, 3]), q)})
                g.bar()
        g.mread(p, c)
        g.bar()
        if r.random() < .3:
            g.mread(p, r.choice(sorted(g.comms)))
            g.bar()
    return g.script()


def hist_split(r):
    """a set written anew with another number of ranks per part: parts of the older one lie
    about or take the place of newer ones"""
    g = MG(r, n=r.choice([3, 4, 5, 6, 8]), comms=False)
    g.start()
    g.mutate(1)
    k = g.n
    p = r.choice(["pf", "pf", "pg", "=" + b"a.b(c".hex()])
    b = bytes.fromhex(p[1:]) if p[0] == "=" else p.encode()
    def part(i):
        return "=" + (b + b".0.%d" % i).hex()
    pers = r.sample(range(1, k + 1), 2)
    if r.random() < .6:
        pers.sort(reverse=r.random() < .3)
    for per in pers:
        g.serial(p, k, per=str(per))
        g.files()
        if r.random() < .4:
            g.at({r.randrange(g.n): "gread %d:@ %s" % (r.choice([1, 3]), p)})
            g.bar()
    old, new = [[i for i in range(0, k, per)] for per in pers]
    stale = [i for i in old if i not in new] or old
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        x = r.random()
        src = r.choice(stale if x < .7 else old + new)
        g.at({r.randrange(g.n): "fcopy %s %s" % (part(src), part(r.choice(new)))})
        g.bar()
    g.files()
    g.at({r.randrange(g.n): "gread %d:@ %s" % (r.choice([1, 3]), p)})
    g.bar()
    g.mread(p)
    g.bar()
    return g.script()


def hist_edited(r):
    """a set one file of which was rewritten, in good form, with other contents"""
    g = MG(r, n=r.choice([2, 3, 4, 5, 8]), seg=r.choice([90, 100, 110, 200]), comms=False)
    g.start()
    g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w % 26]) * r.choice([1, 30, g.seg - 9])) for w in range(g.n) if r.random() < .9})
    if r.random() < .7:
        g.mwrite("pf")
        g.bar()
    else:
        g.serial("pf", g.n)
    g.files()
    for _ in range(r.choice([1, 2])):
        f = "pf" if r.random() < .6 else g.part("pf")
        rank = hx(b"%d" % r.choice([0, 0, 1, 2, r.randrange(g.n)]))
        RANK = hx(b"RANK")
        edit = r.choice([["unset 2:%s,%s %s" % (RANK, rank, hx(r.choice([b"FILE", b"OFFSET"])))],
                         ["unset 2:@ %s" % hx(r.choice([b"RANK", b"LEVEL", b"RANKS", b"LEVEL", b"RANKS"]))],
                         ["unset 2:%s %s" % (RANK, rank)],
                         ["unset 2:@ %s" % hx(b"RANKS"), "set_kv 2:@ %s %s" % (hx(b"RANKS"), hx(r.choice([b"%d" % (g.n + 1), b"%d" % (g.n - 1), b"0", b"-1", b"x", b"99999999999"])))],
                         ["unset 2:%s,%s %s" % (RANK, rank, hx(b"FILE")), "set_kv 2:%s,%s %s %s" % (RANK, rank, hx(b"FILE"), hx(r.choice([b".0.0", b".0.77", b"no/such", b".1.0"])))],
                         ["set_kv 2:%s,%s %s %s" % (RANK, rank, hx(b"FILE"), hx(b".0.77"))],
                         ["set_kv 2:@ %s %s" % (hx(b"extra"), hx(b"x"))]])
        w = r.randrange(g.n)
        for op in ["new 2", "read_file 2:@ %s" % f] + edit + ["write_file 2:@ %s" % f, "delete 2"]:
            g.at({w: op})
            g.bar()
    g.files()
    g.at({r.randrange(g.n): "gread %d:@ pf" % r.choice([1, 3])})
    g.bar()
    g.mread("pf")
    g.bar()
    return g.script()


def hist_fault_levels(r):
    """several levels of maps, and an error or damage at one file of some level"""
    deep = r.random() < .3
    g = MG(r, n=r.choice([17, 20]) if deep else r.choice([8, 9, 10, 12]), seg=r.choice([90, 100]) if deep else r.choice([100, 130, 160]), comms=False)
    g.start()
    g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w % 26]) * (g.seg - 9)) for w in range(g.n) if r.random() < .95})
    g.bar()
    def name():
        return "=" + r.choice([b"pf", b"pf.%d.%d" % (r.choice([0, 1, 1, 2, 3 if deep else 2]), r.choice([0, 0, 2, 3, 4, 6, r.randrange(g.n)]))]).hex()
    for _ in range(r.choice([1, 2, 3])):
        w = r.choice([0, 0, 0, r.randrange(g.n)])
        x = r.random()
        if x < .5:              # one file cannot be written, the others can
            f = name()
            g.at({w: "fmkdir %s" % f})
            g.bar()
            g.mwrite("pf")
            g.bar()
            g.files()
            g.mread("pf")
            g.bar()
            g.at({w: "fdel %s" % f})
            g.bar()
            continue
        count = -1 if x < .7 else r.choice([6, 10, 11, 15, 30])      # for good, or longer than one file is tried
        g.at({w: "plan %s %d %d %d 0" % (r.choice("OWWWCF"), r.choice([1, 1, 2, 3, 4] if deep else [1, 1, 2, 3]), r.choice([5, 28]), count)})
        g.mwrite("pf")
        g.nofaults([w])
        g.files()
    g.mwrite("pf")
    g.bar()
    g.files()
    for _ in range(r.choice([1, 2])):
        w = r.choice([0, r.randrange(g.n)])
        g.at({w: "plan %s %d 5 -1 0" % (r.choice("OR"), r.choice([1, 2, 3, 4]))})
        g.mread("pf")
        g.nofaults([w])
    f = name()
    g.at({r.randrange(g.n): r.choice(["fdel %s" % f, "ftrunc %s %d" % (f, r.choice([0, 10, 40])), "fflip %s %d %d" % (f, r.randrange(300), r.randrange(8))])})
    g.bar()
    g.files()
    g.read_all("pf", 0)
    return g.script()


def hist_loops(r):
    """maps that list each other: those of a level overwritten with another file of the set"""
    g = MG(r, n=r.choice([4, 6, 8, 9, 10, 12]), seg=r.choice([90, 100, 110]), comms=False)
    g.start()
    g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w % 26]) * (g.seg - 9)) for w in range(g.n)})
    g.mwrite("pf")
    g.bar()
    g.files()
    for _ in range(r.choice([1, 1, 2])):
        src = "pf" if r.random() < .6 else "pf.%d.0" % r.choice([0, 1, 2])
        lev = r.choice([0, 1, 1, 2, 2])
        some = set(range(g.n)) if r.random() < .7 else set(r.sample(range(g.n), g.n // 2))
        for part in (some - {0}, some & {0}):                       # pf.LEVEL.0 may be the one that is copied
            g.at({w: "fcopy %s pf.%d.%d" % (src, lev, w) for w in part})
            g.bar()
    g.files()
    g.at({r.randrange(g.n): "gread %d:@ pf" % r.choice([1, 3])})
    g.bar()
    g.mread("pf")
    g.bar()
    return g.script()


def hist_faults(r):
    g = MG(r, n=r.choice([1, 2, 3, 4, 5, 7]))
    g.start()
    g.mutate(3)
    for _ in range(r.randrange(1, 4)):
        x = r.random()
        if x < .75:
            g.faulty()
        else:
            g.missing()
            break                    # a directory in the way stays there
    return g.script()


def hist_long_prefix(L, n=3):
    """a prefix of L bytes below directories with long names"""
    D, parts, have = [], [], 0
    while have + 202 < L:
        parts.append("d_" + "x" * 198)
        have += 201
        D.append("=" + "/".join(parts).encode().hex())
    p = "=" + ("/".join(parts + ["p" * max(1, L - have)])).encode().hex()
    g = MG(random.Random(L), n=n, mode=1, seg=256, comms=False)
    g.start()
    for d in D:
        g.at({0: "mkdir " + d})
    label(g, 0)
    g.at({w: "set_kv 0:@ %s %s" % (hx(b"a"), hx(b"b" * 250)) for w in range(n)})
    g.bar()
    g.mwrite(p)
    g.bar()
    g.files()
    g.mread(p)
    g.bar()
    g.serial(p, n, per="1")
    g.files()
    g.mread(p)
    g.bar()
    g.at({0: "gread 1:@ " + p})
    return g.script()


def hist_real(r, n):
    """the real segment size, contributions around it"""
    g = MG(r, n=n, seg=0, mode=r.choice([0, 1]), comms=False)
    g.start(2)
    M = 1 << 20
    pool = [M - 9, M - 10, M // 2 - 9, 1, M // 3, M + 5, 2 * M - 9, M // 4 - 9]
    st = r.random()
    g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w]) * (r.choice(pool) if st < .5 else pool[0] if st < .7 else pool[2])) for w in range(n) if r.random() < .9})
    g.bar()
    g.mwrite("pf")
    g.bar()
    g.files()
    g.mread("pf")
    g.bar()
    g.at({0: "gread 1:@ pf"})
    return g.script()


def hist_big_serial(k, per):
    """more ranks than one part takes by default"""
    g = MG(random.Random(k), n=1, seg=0, mode=1, comms=False)
    g.start()
    g.at({0: "wide 3:@ %d ." % k})
    g.at({0: "gwrite 3:@ pf %d %s" % (k, per)})
    g.files()
    g.at({0: "gread 1:@ pf"})
    return g.script()


def hist_wide(r, what, sizes=(257, 300, 700)):
    """trees of many entries at one level, and deep ones, through every call of several ranks"""
    g = MG(r, n=r.choice([1, 2, 3, 4] if what not in "p2p exch" else [2, 3, 4]), seg=r.choice([0, 0, 2000, 300]), mode=r.randrange(4), comms=False)
    g.keep2 = True
    g.start()
    label(g, 0)
    label(g, 3)
    z = r.choice(sizes)
    deep = r.random() < .3
    for w in range(g.n):
        if r.random() < .8:
            s = r.choice([0, 0, 3])
            at = "@" if r.random() < .5 else hx(b"t%d" % w)
            g.at({w: "deep %d:%s %d" % (s, at, r.choice([30, 90, 200])) if deep else "wide %d:%s %d %s" % (s, at, z + r.choice([0, 1, -1, r.randrange(40)]), hx(b"w%d." % w))})
    if what == "p2p":
        for _ in range(3):
            n = g.n
            k = r.randrange(1, n)
            g.at({0: "send 0:@ 1 0", 1: "recv 2:@ 0 0"})
            g.at({w: "sendrecv %d:@ %d 1:@ %d 0" % (r.choice([0, 3]), (w + k) % n, (w - k) % n) for w in range(n)})
            g.all("bcast 3:@ %d 0" % r.randrange(n))
            g.mutate(1)
    elif what == "exch":
        for _ in range(2):
            for _ in range(2):
                g.at({w: "sendq 2:@ %d %s" % (r.randrange(g.n), r.choice(["0:@", "3:@"])) for w in range(g.n) if r.random() < .8})
            g.all("exchange 2:@ 1:@ %d 0" % r.randrange(3))
            g.all("unset_all 2:@")
    else:
        g.bar()
        if what == "serial":
            g.slot3(0, g.n)
            for w in range(g.n):
                g.at({0: ("deep 3:%s %d" % (hx(str(w)), r.choice([30, 90]))) if deep else "wide 3:%s %d %s" % (hx(str(w)), z, hx(b"s%d" % w))})
            g.at({0: "gwrite 3:@ pf %d %s" % (g.n, r.choice(["1", "-"]))})
        else:
            g.mwrite("pf")
        g.bar()
        g.files()
        g.mread("pf")
        g.bar()
        g.at({g.n - 1: "gread 1:@ pf"})
    return g.script()


BIGM = [70000, 65527, 1048567, 1100000, 3000000]


def hist_large(r, what):
    """trees of many kilobytes and megabytes (logged with token keys)"""
    g = MG(r, n=r.choice([2, 3, 4]), seg=0, mode=r.randrange(4), comms=False)
    g.keep2 = True
    g.start()
    for w in range(g.n):
        x = r.random()
        big = "*%d:%02x+%s" % (r.choice(BIGM) + r.choice([0, 0, 1, -1, 17]), 97 + w, hx(b"r%d" % w))
        if x < .6:
            g.at({w: "set_kv 0:@ %s %s" % (big, hx(b"v"))})
        elif x < .8:
            for i in range(6):
                g.at({w: "set_kv 0:@ *%d:%02x+%s %s" % (r.randrange(3000, 40000), 97 + w, hx(b"k%d" % i), hx(b"v%d" % i))})
        g.at({w: "set_kv 3:@ %s %s" % (hx(b"t%d" % w), big if r.random() < .3 else hx(b"s"))})
    n = g.n
    if what == "p2p":
        k = r.randrange(1, n)
        g.at({0: "send 0:@ 1 0", 1: "recv 2:@ 0 0"})
        g.at({w: "sendrecv %d:@ %d 1:@ %d 0" % (r.choice([0, 3]), (w + k) % n, (w - k) % n) for w in range(n)})
        g.all("bcast %d:@ %d 0" % (r.choice([0, 3]), r.randrange(n)))
        g.at({w: "sendrecv 0:@ %d 1:@ %d 0" % (n - 1 - w, n - 1 - w) for w in range(n)})
    elif what == "exch":
        for _ in range(2):
            g.at({w: "sendq 2:@ %d %s" % (r.randrange(n), r.choice(["0:@", "3:@"])) for w in range(n) if r.random() < .9})
        g.all("exchange 2:@ 1:@ %d 0" % r.randrange(3))
        g.all("unset_all 2:@")
    return g.script()


def hist_modes(r, exact=False):
    """sets of files at every level, under changing umasks, over old files with modes of their own"""
    g = MG(r, n=r.choice([1, 2, 3, 4, 8, 10, 12]), seg=r.choice([100, 130, 160, 256, 0]), comms=False, mode=r.randrange(4))
    g.start()
    label(g, 0)
    umasks = [0o22, 0o27, 0o77, 0, 0o2, 0o7, 0o111, 0o133, 0o177, 0o26, 0o66, 0o6, 0o777, 0o33, 0o200, 0o400]
    names = r.sample(PREFIXES, 3)
    if not exact:
        g.files()
    for i in range(r.choice([2, 3, 4])):
        if not exact:
            if r.random() < .75:
                g.all("umask %o" % r.choice(umasks if r.random() < .7 else range(512)))
            else:
                g.at({w: "umask %o" % r.choice(umasks) for w in range(g.n)})
        p = r.choice(names)
        if r.random() < .6:
            z = (g.seg or 300)
            L = r.choice([z - 9, z // 2 - 9, 3, r.randrange(1, 2 * z)])
            g.all("unset_all 0:@")
            g.at({w: "set 0:@ %s -1" % hx(bytes([97 + w % 26]) * max(1, L)) for w in range(g.n) if r.random() < .95})
            g.bar()
        if r.random() < .3:
            f = g.part(p)
            ops = {0: r.choice(["fput %s %s" % (f, hx(r.choice([b"junk", b"q" * 3000, b""])))])}
            g.at(ops)
            g.at({0: "fperm %s %s" % (f, r.choice(["600", "755", "644", "444", "711", "666"]))})
            g.bar()
            g.files()
        if r.random() < .75:
            g.mwrite(p)
            g.bar()
        else:
            g.serial(p, r.choice([1, 3, g.n]), per=r.choice(["1", "2", "-"]))
        g.files()
        g.mread(p)
        g.bar()
        if r.random() < .4:
            g.at({0: "gread 1:@ %s" % p})
            g.bar()
        if r.random() < .3:
            g.files()
    return g.script()


def many(what, n, f, *a):
    k = n * (12 if THOROUGH else 1)
    return [f(random.Random("%d/%s/%d" % (SEED, what, i)), *a) for i in range(k)]


# ------------------------------------------------------------------ design-level models
def cfg(consts, invs, live=False):
    def val(v):
        return '"%s"' % v if isinstance(v, str) else str(v).upper() if isinstance(v, bool) else str(v)
    return "CONSTANTS\n" + "".join("%s = %s\n" % (k, val(v)) for k, v in consts.items()) + "SPECIFICATION %s\nINVARIANTS %s\n%s" % (
        "Fair" if live else "Spec", invs, "PROPERTY Terminates\n" if live else "")


def transfer_design(chk):
    """one rank to another over a layer that buffers what it likes"""
    def c(n, k, v="none", live=False):
        return cfg(dict(N=n, Calls=k, Variant=v), "NoDeadlock Delivered NothingLeft", live)
    runs = [("2 ranks, 2 calls, fair", c(2, 2, live=True), False), ("3 ranks, 1 call", c(3, 1), False)]
    runs += [("variant " + v, c(2, 2, v), True) for v in ("sendfirst", "bodyblocking", "nowait")]
    if THOROUGH:
        runs += [("3 ranks, 2 calls", c(3, 2), False), ("2 ranks, 4 calls", c(2, 4), False)]
    design_runs(chk, "KVTransfer", runs)


def exchange_design(chk):
    """routing in rounds against delivery in one step"""
    def c(n, mode, items, free, v="none", live=False):
        return cfg(dict(N=n, Mode=mode, MaxItems=items, Free=free, Variant=v), "Conserved Routed Contract NoDeadlock Cheap", live)
    runs = []
    for m in ("left", "right", "both"):
        runs += [("3 ranks, all patterns, %s" % m, c(3, m, 99, THOROUGH), False), ("5 ranks, 2 items, %s" % m, c(5, m, 2, False), False),
                 ("11 ranks, 1 item, %s" % m, c(11, m, 1, False), False)]
    runs += [("3 ranks, 2 items, fair", c(3, "both", 2, True, live=True), False)]
    runs += [("variant " + v, c(5, "both", 2, False, v), True) for v in ("counthops", "nomax", "olddist")]
    if THOROUGH:
        for m in ("left", "right", "both"):
            runs += [("4 ranks, 3 items, %s" % m, c(4, m, 3, True), False), ("8 ranks, 2 items, %s" % m, c(8, m, 2, False), False),
                     ("17 ranks, 1 item, %s" % m, c(17, m, 1, False), False)]
        runs += [("4 ranks, all patterns", c(4, "left", 99, False), False)]
    design_runs(chk, "KVExchange", runs)


def pick_design(chk):
    """who writes: the segmented scan, every rank at its own pace"""
    def c(n, seg, mc, v="none"):
        return cfg(dict(N=n, Seg=seg, MaxCount=mc, Variant=v), "Right One NoDeadlock Bounded Shrinks")
    runs = [("3 ranks", c(3, 4, 6), False), ("4 ranks", c(4, 4, 3 if not THOROUGH else 6), False)]
    runs += [("variant noguard", c(4, 4, 3, "noguard"), True), ("variant rounds", c(3, 4, 3, "rounds"), True), ("variant noexact", c(4, 4, 3, "noexact"), True)]
    if THOROUGH:
        runs += [("5 ranks", c(5, 4, 2), False), ("6 ranks", c(6, 2, 1), False)]
    design_runs(chk, "KVPick", runs)


def gather_design(chk, faults):
    """levels of maps, written and read back"""
    def c(n, seg, mc, e, f, v="none", live=False):
        return cfg(dict(N=n, Seg=seg, MaxCount=mc, Entry=e, MaxFaults=f, Variant=v), "WholeSet Honest Agree Complete Clean Levels", live)
    if faults:
        runs = [("4 ranks, 1 fault", c(4, 4, 5, 2, 1), False), ("3 ranks, 1 fault, fair", c(3, 4, 4, 2, 1, live=True), False), ("8 ranks, 3 levels, 2 faults", c(8, 2, 1, 1, 2), False)]
        runs += [("variant " + v, c(4, 4, 5, 2, 1, v), True) for v in ("lastlevel", "localread", "noranks")]
        runs += [("5 ranks, 2 levels, 1 fault, fair", c(5, 2, 1, 1, 1, live=True), False), ("variant nolevel, fair", c(5, 2, 1, 1, 1, "nolevel", live=True), True)]
        if THOROUGH:
            runs += [("4 ranks, 3 faults", c(4, 4, 4, 2, 3), False), ("5 ranks, 2 faults", c(5, 4, 4, 1, 2), False)]
    else:
        runs = [("5 ranks", c(5, 4, 5, 2, 0), False), ("8 ranks, 3 levels", c(8, 2, 2, 1, 0), False)]
        if THOROUGH:
            runs += [("7 ranks", c(7, 4, 4, 2, 0), False), ("10 ranks", c(10, 2, 2, 1, 0), False)]
    design_runs(chk, "KVGather", runs)


def C15(chk):
    transfer_design(chk)
    exe = multidrv()
    hs = many("C15", 700, hist_p2p)
    nmax = 5 if THOROUGH else 4
    for n in range(1, nmax + 1):
        pp = partial_permutations(n)
        for mode in range(4):
            random.Random("%d/%d/%d" % (SEED, n, mode)).shuffle(pp)
            for i in range(0, len(pp), 40):
                hs.append(hist_matrix(n, pp[i:i + 40], mode, SEED * 1000 + i))
    mjudge(chk, exe, hs + many("C15w", 24, hist_wide, "p2p"))
    mjudge(chk, exe, many("C15l", 30, hist_large, "p2p"), tag="large", args=["64"])


def C16(chk):
    exchange_design(chk)
    exe = multidrv()
    hs = many("C16", 350, hist_exchange)
    pats = {}
    for n in (1, 2, 3):                                  # every sparse pattern
        cells = [(s, d) for s in range(n) for d in range(n)]
        pats[n] = [([c for i, c in enumerate(cells) if m >> i & 1], d) for m in range(1 << len(cells)) for d in range(3)]
    for n in range(4, 25 if THOROUGH else 18):           # every single item, and two items at once
        r = random.Random("%d/pat/%d" % (SEED, n))
        one = [[(s, d)] for s in range(n) for d in range(n)]
        if n > 9 and not THOROUGH:
            one = r.sample(one, 90) + [[(s, (s + k) % n) for s in range(n)] for k in range(n)]
        two = [[(r.randrange(n), r.randrange(n)), (r.randrange(n), r.randrange(n))] for _ in range(n * 2)]
        two = [sorted(set(x)) for x in two]
        full = [[(s, d) for s in range(n) for d in range(n) if r.random() < q] for q in (.1, .3, .6, 1)]
        pats[n] = [(x, d) for x in one + two + full for d in ((0, 1, 2) if THOROUGH or n <= 9 else (0, r.choice([1, 2])))]
    for n, ps in pats.items():
        random.Random(SEED + n).shuffle(ps)
        for i in range(0, len(ps), 25):
            hs.append(hist_patterns(n, ps[i:i + 25], (i // 25) % 4, SEED * 100 + i))
    mjudge(chk, exe, hs + many("C16w", 24, hist_wide, "exch"))
    mjudge(chk, exe, many("C16l", 20, hist_large, "exch"), tag="large", args=["64"])


def C17(chk):
    exe = multidrv()
    mjudge(chk, exe, many("C17", 700, hist_sendq) + many("C17w", 10, hist_wide, "exch"))


def sets(what, k):
    hs = many(what, k, hist_gather)
    for n in (1, 2, 3, 4, 5, 8):
        for i, z in enumerate(aligned(n, 256)):
            hs.append(hist_aligned(n, 256, z, i % 4, SEED + i))
    return hs + vectors(what)


def levels(what, k):
    """many ranks, so that the maps need several levels"""
    out = []
    for i in range(k * (6 if THOROUGH else 1)):
        r = random.Random("%d/%s/lev/%d" % (SEED, what, i))
        n = r.choice([16, 20, 24, 31]) if i % 4 else r.choice([31, 32, 33])
        seg = r.choice([160, 200, 256]) if i % 2 else r.choice([90, 100, 110])      # up to 5 levels
        z = r.choice([[seg], [seg // 2], [seg, 4], [r.randrange(10, 2 * seg) for _ in range(n)]])
        out.append(hist_aligned(n, seg, [x if x == 4 or x > 9 else 4 for x in (z * n)[:n]], r.choice([1, 2]), i, comms=False))
    return out


def real(what, k):
    return [hist_real(random.Random("%d/%s/real/%d" % (SEED, what, i)), 2 + i % 4) for i in range(k * (5 if THOROUGH else 1))]


def C18(chk):
    pick_design(chk)
    gather_design(chk, False)
    exe = multidrv()
    mjudge(chk, exe, sets("C18", 250) + levels("C18", 16) + [hist_long_prefix(L) for L in ([255, 990, 1000, 1005, 1010, 1015, 1030, 1100, 2100])] + many("C18w", 24, hist_wide, "gather"))
    mjudge(chk, exe, real("C18", 6), tag="real", args=["64"])


def C19(chk):
    pick_design(chk)
    exe = multidrv()
    mjudge(chk, exe, sets("C19", 250) + levels("C19", 16) + [hist_long_prefix(L) for L in ([900, 970, 990, 1020, 1500])] + many("C19w", 24, hist_wide, "gather"))
    mjudge(chk, exe, real("C19", 6), tag="real", args=["64"])


def C20(chk):
    exe = multidrv()
    hs = many("C20", 350, hist_serial) + many("C20d", 250, hist_serial, True) + many("C20x", 120, hist_split) + many("C20e", 60, hist_edited) + many("C20o", 20, hist_loops) + levels("C20", 3) + [hist_long_prefix(L) for L in (1000, 1010, 1100)]
    hs += [hist_big_serial(k, per) for k, per in ((8192, "-"), (8193, "-"), (700, "256"), (300, "1"))] + many("C20w", 20, hist_wide, "serial")
    mjudge(chk, exe, hs)


def C21(chk):
    gather_design(chk, True)
    exe = multidrv()
    hs = many("C21f", 450, hist_faults) + many("C21d", 250, hist_gather, None, None, "damage") + many("C21s", 100, hist_serial, True) + many("C21l", 60, hist_fault_levels) + many("C21e", 60, hist_edited) + many("C21o", 40, hist_loops)
    mjudge(chk, exe, hs)


def C06(chk):
    checks_seq.C06(chk)
    # memory of the collective calls, succeeding, refusing and failing
    hs = many("C06p", 60, hist_p2p) + many("C06e", 30, hist_exchange) + many("C06q", 40, hist_sendq) + many("C06g", 50, hist_gather)
    hs += many("C06s", 70, hist_serial, True) + many("C06f", 100, hist_faults) + many("C06d", 60, hist_gather, None, None, "damage") + many("C06l", 20, hist_fault_levels) + many("C06x", 50, hist_edited)
    mjudge(chk, multidrv(), hs, env=dict(CHECKMEM="1"))


def C09(chk):
    checks_seq.C09(chk)
    # the files of gathered sets are written files too
    mjudge(chk, multidrv(), many("C09m", 70, hist_modes, True) + many("C09s", 30, hist_serial) + many("C09g", 30, hist_gather), env=dict(CHECKEXACT="1"))


def C23(chk):
    checks_seq.C23(chk)
    mjudge(chk, multidrv(), many("C23m", 120, hist_modes), env=dict(CHECKMODE="1"))


CHECKS = dict(C06=C06, C09=C09, C23=C23, C15=C15, C16=C16, C17=C17, C18=C18, C19=C19, C20=C20, C21=C21)
