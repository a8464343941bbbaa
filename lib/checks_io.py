"""Checks of file operations under input/output errors, crashes and other processes."""
import json, random, re, os, struct, zlib
from vlib import *
from checks_seq import judge, read_test, reseal, mutations
from checks_mpi import run_multi
import checks_seq
import gen
from gen import hx

EIO, EINTR, EAGAIN, EACCES, ENOSPC, ENOLCK, EBADF, EMFILE = 5, 4, 11, 13, 28, 37, 9, 24


def pack(t):
    """bytes of a tree given as nested lists of (key, tree)"""
    return struct.pack(">I", len(t)) + b"".join(k + b"\0" + pack(s) for k, s in t)


def kvfile(t, crc=True):
    b = pack(t)
    h = b"\x95\x1f\xc3\xf5\0\1\0\1" + struct.pack(">QI", 20 + len(b) + (4 if crc else 0), 1 if crc else 0) + b
    return h + struct.pack(">I", zlib.crc32(h) & 0xffffffff) if crc else h


def rtree(r, n=None, keys=(b"a", b"b", b"k", b"", b"0", b"xyz", b"\xff%d")):
    n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8])
    t = []

    def add(dst, depth):
        ks = [k for k in keys if k not in [x for x, _ in dst]]
        if ks:
            dst.append((r.choice(ks) if r.random() < .9 else bytes([97 + r.randrange(26)]) * r.choice([40, 300]), []))
    for _ in range(n):
        d, depth = t, 0
        while d and r.random() < .5 and depth < 3:
            d = r.choice(d)[1]
            depth += 1
        add(d, depth)
    out = []
    for k, s in t:
        if k not in [x for x, _ in out]:
            out.append((k, s))
    return out


def build_ops(slot, t):
    """a build line for the tree"""
    toks = []

    def rec(x, d):
        for k, s in x:
            toks.append("%d %s 0" % (d, hx(k)))
            rec(s, d + 1)
    rec(t, 0)
    return "build %d %s" % (slot, " ".join(toks)) if toks else "new %d" % slot


CALLS = ["write_file", "write_lock", "write_fd", "read_file", "read_lock", "read_fd", "rmw"]


def call_line(call, slot, f, key="6e6577"):
    return "rmw %d:@ %s %s" % (slot, f, key) if call == "rmw" else "%s %d:@ %s" % (call, slot, f)


def pre_state(r, kind):
    """lines that give the file its contents"""
    if kind == "none":
        return []
    if kind == "empty":
        return ["fput fx ."]
    if kind == "bad":
        return ["fput fx %s" % hx(r.choice(mutations(kvfile([(b"a", [(b"b", [])]), (b"c", [])]), r, 3) + [b"junk"]))]
    if kind == "plain":
        return ["fput fx %s" % hx(kvfile(rtree(r), crc=False))]
    if kind == "long":
        return ["fput fx %s" % hx(kvfile([(b"old%d" % i, [(b"v", [])]) for i in range(40)]))]
    return ["fput fx %s" % hx(kvfile(rtree(r)))]


PRE = ["ok", "ok", "none", "empty", "bad", "plain", "long"]


def plan_lines(r, spec):
    cls, nth, err, count, short = spec
    return ["plan %s %d %d %d %d" % (cls, nth, err, count, short)]


def after(r, call):
    """the file afterwards, without faults; other calls work as ever"""
    out = ["noplan", "new 2", "read_file 2:@ fx"]
    x = r.random()
    if x < .4:
        out += ["new 3", "set_kv 3:@ 71 72", call_line(r.choice(["write_lock", "write_file"]), 3, "fx"), call_line(r.choice(["read_lock", "rmw"]), 1 if r.random() < .5 else 2, "fx")]
    elif x < .7:
        out += [call_line("rmw", 2, "fx", "71")]
    return out


def fault_history(r, call, plans, pre=None):
    h = [build_ops(0, rtree(r)), "new 1"] + pre_state(r, pre or r.choice(PRE))
    for p in plans:
        h += plan_lines(r, p)
    h.append(call_line(call, 0, "fx"))
    return h + after(r, call)


def fault_specs(classes="ORWSTFCLU"):
    for cls in classes:
        for nth in (1, 2, 3):
            for err in (EIO, ENOSPC, EACCES, ENOLCK):
                if err in (EACCES, ENOLCK) and cls not in "OLU":
                    continue
                for count in (1, 3, -1):
                    yield (cls, nth, err, count, 0)
            if cls in "RW":
                for err in (EINTR, EAGAIN):
                    for count in (1, 3, 40):
                        yield (cls, nth, err, count, 0)
                for short in (1, 3, 19, 20, 24):
                    for count in (1, -1):
                        yield (cls, nth, -1, count, short)
            if cls == "W":
                yield (cls, nth, -2, 1, 0)               # a write that transfers nothing
            if cls in "OLU":
                yield (cls, nth, EINTR, 1, 0)
    return


RELEVANT = dict(write_file="OWFCS", write_lock="OLWTFCUS", write_fd="WS", read_file="ORFCS", read_lock="OLRFCUS", read_fd="RS", rmw="OLRSWTFCU")


def fault_histories(what, classes="ORWSTFCLU", each=1, rand=300):
    hs = []
    i = 0
    for call in CALLS:
        for spec in fault_specs(classes):
            if spec[0] not in RELEVANT[call]:
                continue
            for _ in range(each * (4 if THOROUGH else 1)):
                i += 1
                hs.append(fault_history(random.Random("%d/%s/%d" % (SEED, what, i)), call, [spec]))
    for j in range(rand * (10 if THOROUGH else 1)):
        r = random.Random("%d/%s/r%d" % (SEED, what, j))
        call = r.choice(CALLS)
        specs = [s for s in fault_specs(classes) if s[0] in RELEVANT[call]]
        if not specs:
            continue
        ps = [r.choice(specs) for _ in range(r.choice([1, 2, 2, 3]))]
        # errors in the midst of partial transfers
        if r.random() < .6:
            c = "W" if "W" in RELEVANT[call] and r.random() < .7 else "R" if "R" in RELEVANT[call] else "W"
            ps = [p for p in ps if p[0] != c][:1]
            if r.random() < .7:
                ps.append((c, r.randrange(1, 6), r.choice([EIO, ENOSPC, EINTR, EAGAIN]), r.choice([1, 2]), 0))
                if ps[-1][2] in (EIO, ENOSPC) and r.random() < .6:
                    ps[-1] = ps[-1][:3] + (-1, 0)
            ps.append((c, 1, -1, -1, r.choice([1, 2, 5, 13, 23])))
        hs.append(fault_history(r, call, ps))
    # no fault at all: everything works
    for j in range(60):
        r = random.Random("%d/%s/n%d" % (SEED, what, j))
        hs.append(fault_history(r, r.choice(CALLS), []))
    return hs


def piecewise_histories(what):
    """transfers in small pieces with an error that passes between any two of them"""
    hs = []
    for call in CALLS:
        for c in "RW":
            if c not in RELEVANT[call]:
                continue
            for short in (1, 7, 13, 19, 21, 64):
                for pre in ("ok", "long", "plain") if c == "R" or call == "rmw" else ("none", "long"):
                    for err in (EAGAIN, EINTR, EIO):
                        r = random.Random("%d/%s/%s%s%d%s%d" % (SEED, what, call, c, short, pre, err))
                        most = 12 if short > 1 else 40
                        for nth in r.sample(range(1, most), 3 if THOROUGH else 1) + [r.choice([2, 3, 4, 5])]:
                            hs.append(fault_history(r, call, [(c, nth, err, r.choice([1, 1, 2, 5]), 0), (c, 1, -1, -1, short)], pre))
    return hs


def big_faults(r, classes="WR"):
    """files of many pages transferred in pieces, with errors in between"""
    out = []
    for c in classes:
        x = r.random()
        if x < .35:
            out.append("plan %s 1 -1 -1 %d" % (c, r.choice([4096, 65536, 65535, 1000003, 30000])))
        elif x < .8:
            out.append("plan %s %d %d %d 0" % (c, r.choice([1, 2, 3, 4]), r.choice([EINTR, EAGAIN, EINTR, EIO, ENOSPC]), r.choice([1, 2, 12, -1]) if c == "W" or r.random() < .7 else 1))
            if out[-1].split()[3] in (str(EINTR), str(EAGAIN)):
                out[-1] = "plan %s %s %s %d 0" % (c, out[-1].split()[2], out[-1].split()[3], r.choice([1, 3, 40]))
            out.append("plan %s 1 -1 -1 %d" % (c, r.choice([4096, 65536, 400001, 1000003, 100])  if r.random() < .9 else 20))
        elif x < .9:
            out.append("plan %s %d -1 1 %d" % (c, r.choice([1, 2]), r.choice([1, 4096, 65536, 7])))
    return out


def big_fault_histories(what, n):
    return checks_seq.big_histories(what, ["write", "read", "rmw", "read", "shrink"], n, sizes=[7000, 65537, 131100, 400000, 1048600], rounds=2, faults=big_faults)


def C11(chk):
    exe = checks_seq.seqdrv()
    judge(chk, exe, fault_histories("C11"), env=dict(CHECKMEM="1"))
    judge(chk, exe, piecewise_histories("C11p"), env=dict(CHECKMEM="1"))
    judge(chk, exe, big_fault_histories("C11b", 24), env=dict(CHECKMEM="1"), args=checks_seq.TOK)


def crash_histories(what, pairs):
    hs = []
    for i in range(pairs * (15 if THOROUGH else 1)):
        r = random.Random("%d/%s/%d" % (SEED, what, i))
        pre = r.choice(["ok", "ok", "ok", "none", "empty", "bad", "long", "plain"])
        old = rtree(r)
        new = old if r.random() < .1 else rtree(r)
        if r.random() < .3 and old:                   # nearly the same file
            new = [(k, s) for k, s in old]
            new[-1] = (new[-1][0][:-1] + bytes([new[-1][0][-1] ^ 1]) if new[-1][0] else b"z", new[-1][1])
            if len({k for k, _ in new}) < len(new) or b"" in {k for k, _ in new} and old[-1][0]:
                new = old
        h = [build_ops(0, new)]
        h += ["fput fx %s" % hx(kvfile(old))] if pre == "ok" else pre_state(r, pre)
        call = ["write_file", "write_lock", "rmw"][i % 3]
        size = len(kvfile(new))
        for n in range(1, 14):
            h.append("crash 0:@ fx %s 6e6577 %d 0" % (call, n))
        if THOROUGH:
            parts = range(1, size + 12)
        else:
            parts = sorted(set([1, 8, 15, 16, 17, 19, 20, 21, 24, size - 4, size - 1] + [r.randrange(1, size + 8) for _ in range(4)]))
        at = dict(write_file=(2, 3), write_lock=(3, 4), rmw=(6, 7, 8, 9))[call]
        for n in at if not THOROUGH else range(1, 13):
            for p in parts:
                h.append("crash 0:@ fx %s 6e6577 %d %d" % (call, n, p))
        hs.append(h)
    return hs


def big_crash_histories(what, n):
    """a death during a write of many pages over a file of another size"""
    hs = []
    for i in range(n * (6 if THOROUGH else 1)):
        r = random.Random("%d/%s/%d" % (SEED, what, i))
        z = r.choice([9000, 65537, 131100, 400000])
        h = ["new 0"] + checks_seq.big_tree(r, r.choice([3, 9000, 66000, 140000, 500000])) + ["write_file 0:@ fx", "delete 0", "new 0"] + checks_seq.big_tree(r, z)
        call = ["write_file", "write_lock", "rmw"][i % 3]
        for k in range(1, 12):
            h.append("crash 0:@ fx %s 6e6577 %d 0" % (call, k))
        for k in dict(write_file=(2, 3), write_lock=(3, 4), rmw=(6, 7, 8, 9))[call]:
            for p in (1, 20, 4096, 4097, 8192, 65536, z // 2, z - 5, z, z + 20, r.randrange(1, z)):
                h.append("crash 0:@ fx %s 6e6577 %d %d" % (call, k, p))
        hs.append(h + ["read_file 0:@ fx"])
    return hs


def C12(chk):
    crash_design(chk)
    exe = checks_seq.seqdrv()
    judge(chk, exe, crash_histories("C12", 45))
    judge(chk, exe, big_crash_histories("C12b", 14), args=checks_seq.TOK)
    judge(chk, exe, checks_seq.same_size("C12", [5000, 70000, 140000]), args=checks_seq.TOK)
    judge(chk, exe, fault_histories("C12", "WFTC", 1, 100))


def hold_histories(what, k):
    """somebody else holds a lock on the file when the call comes"""
    hs = []
    for i in range(k * (10 if THOROUGH else 1)):
        r = random.Random("%d/%s/h%d" % (SEED, what, i))
        h = [build_ops(0, rtree(r)), "new 1"] + pre_state(r, r.choice(["ok", "ok", "ok", "empty", "plain", "long", "bad"]))
        if len(h) == 2:
            h.append("fput fx .")
        for _ in range(r.randrange(1, 4)):
            h.append("hold fx %d" % r.choice([1, 2]))
            if r.random() < .2:
                h += plan_lines(r, r.choice([s for s in fault_specs("LURWTC")]))
            h.append(call_line(r.choice(["write_lock", "read_lock", "rmw", "read_lock", "rmw"]), r.choice([0, 0, 0, 1]), "fx", "6b%02d" % r.randrange(10, 40)))
            h += ["unhold", "noplan"]
        h.append("read_lock 1:@ fx")
        hs.append(h)
    return hs


def big_hold_histories(what, k):
    """the same with files and trees of many pages"""
    hs = []
    for i in range(k * (10 if THOROUGH else 1)):
        r = random.Random("%d/%s/%d" % (SEED, what, i))
        h = ["new 0"] + checks_seq.big_tree(r, r.choice([3, 9000, 66000, 200000])) + ["write_file 0:@ fx", "delete 0", "new 0"] + checks_seq.big_tree(r, r.choice([3, 5000, 65600, 140000])) + ["new 1"]
        for _ in range(r.randrange(1, 4)):
            h.append("hold fx %d" % r.choice([1, 2]))
            if r.random() < .2:
                h += big_faults(r, r.choice(["W", "R"]))
            h.append(call_line(r.choice(["write_lock", "read_lock", "rmw", "read_lock", "rmw"]), r.choice([0, 0, 0, 1]), "fx", "6b%02d" % r.randrange(10, 40)))
            h += ["unhold", "noplan"]
        hs.append(h + ["read_lock 1:@ fx"])
    return hs


def seqdrv_fcntl():
    return build("seqdrv_fcntl", ["seqdrv.c"], flags=["-DVERIF_FCNTL"])


def C14(chk):
    for exe, q in ((checks_seq.seqdrv(), 1), (seqdrv_fcntl(), .4)):
        hs = fault_histories("C14", "OLUCRWST", 1, 200) + hold_histories("C14", 250)
        if q < 1 and not THOROUGH:
            random.Random(SEED).shuffle(hs)
            hs = hs[:int(len(hs) * q)]
        judge(chk, exe, hs + [["badargs"]])
        judge(chk, exe, big_fault_histories("C14b", int(16 * q)) + big_hold_histories("C14h", int(30 * q)), args=checks_seq.TOK)


CHECKS = dict(C14=C14, C11=C11, C12=C12)


# ------------------------------------------------------------- concurrent calls
def runs(b):
    """a token for bytes with long runs of one value"""
    return "+".join("*%d:%02x" % (len(m.group()), m.group()[0]) if len(m.group()) > 40 else hx(m.group())
                    for m in re.finditer(rb"(.)\1{40,}|(?:(?!(.)\2{40,}).)+", b, re.S)) or "."


def conc_history(r, n, ops, init, seed, faults=0, die=0, dfs=None, hid=0, large=False):
    """n processes with up to `ops` calls each on one file; large: of many pages"""
    out = ["H %d %d 0 0 L" % (n, seed), "I %d" % hid]
    if init is not None:
        out.append("F cf %s" % (runs(init) if init else "."))
    if dfs:
        out.append("D %d %d" % dfs)
    progs = []
    r2 = random.Random("same/%d" % hid)
    for p in range(n):
        big = r.random() < .3
        t = [(b"p%d" % p, [(b"v%d" % i, []) for i in range(r.choice([0, 1, 3, 12] if not big else [30]))])]
        pr = [build_ops(0, t), "new 1", "new 2"]
        if large and r.random() < .85:
            pr += ["set_kv 0:@ *%d:%02x+%s %s" % (r.choice([600, 4000, 4090, 4096, 9000, 20000, 65536]), 97 + p, hx(b"%d" % i), hx(b"v")) for i in range(r.choice([1, 1, 2, 3]))]
        if faults and r.random() < faults:
            pr += ["plan %s 1 -1 -1 %d" % (c, r.choice([1, 7, 20, 24, 33] if not large else [4096, 30000, 65536])) for c in r.choice(["R", "W", "RW", "RW"])]
            if r.random() < .3:
                pr.append("plan %s %d %d %d 0" % (r.choice("RW"), r.randrange(1, 9), r.choice([EINTR, EAGAIN]), r.choice([1, 2])))
        k = ops if dfs else r.randrange(1, ops + 1)
        for i in range(k):
            x = r.random()
            if die and p == 0 and i == k - 1:
                pr.append("dieat %d %d" % (r.randrange(1, 10), r.choice([0, 1, 15, 20, 24, 30, 60] + [4096, 4100, 8192] * large)))
                x = r.choice([.1, .1, .5, .5, .9])
            if x < .45:
                pr.append("rmw %d:@ cf %s" % (r.choice([0, 1, 1, 2]), hx(b"n%d.%d" % (p, i))))
                if i and not die and r2.random() < .5:          # in the place of an earlier one, so that the file keeps its size
                    pr[-1:] = ["new 2", "rmw 2:@ cf %s %s" % (hx(b"n%d.%d" % (p, i)), hx(b"n%d.%d" % (p, i - 1)))]
                    if large and r2.random() < .4:
                        z, a = r2.choice([5000, 66000]), 80 + 4 * p + i
                        pr += ["new 2", "rmw 2:@ cf *%d:%02x" % (z, a), "new 2", "rmw 2:@ cf *%d:%02x *%d:%02x" % (z, a + 1, z, a)]
            elif x < .7:
                if r.random() < .5:
                    pr.append("set_kv 0:@ %s %s" % (hx(b"w%d" % p), hx(b"%d" % i)))
                pr.append("write_lock %d:@ cf" % r.choice([0, 0, 0, 1]))
            else:
                pr += ["new 2", "read_lock 2:@ cf"]
        progs.append(pr)
    for i in range(max(map(len, progs))):
        out.append("S")
        for p in range(n):
            if i < len(progs[p]):
                out.append("%d %s" % (p, progs[p][i]))
    return out + ["E"]


CONC_INIT = [None, "", b"junk"]


def conc_init(r):
    x = r.random()
    return None if x < .2 else b"" if x < .3 else r.choice(mutations(kvfile([(b"a", [])]), r, 2)) if x < .37 else kvfile(rtree(r), crc=r.random() < .8) if x < .8 else kvfile([(b"old%d" % i, [(b"v", [])]) for i in range(30)])


def conc_init_large(r, small=.2):
    x = r.random()
    if x < small:
        return conc_init(r)
    return kvfile([(bytes([65 + i]) * r.choice([700, 4060, 4096, 5000, 30000, 66000]), [(b"v", [])]) for i in range(r.choice([1, 1, 2, 3]))], crc=r.random() < .8)


def lin_judge(chk, exe, histories, tag, args=()):
    """run, let TLC look for an order of the calls, report histories without one"""
    B = 400
    for b in range(0, len(histories), B):
        part = histories[b:b + B]
        tr, events, crashes = run_multi(exe, part, tag="lin" + tag, args=args)
        bad = lin_check(chk, tr, events)
        chk.sample(dict(history=part[len(part) // 2][:25]))
        done = set()
        for h, ev in bad[:40]:
            if h in done or len(done) >= 5:
                continue
            done.add(h)
            src = next(x for x in part if x[1] == "I %d" % h)
            tr2, ev2, cr2 = run_multi(exe, [src], tag="linc" + tag, args=args)
            bad2 = lin_check(None, tr2, ev2)
            if bad2:
                e = bad2[0][1]
                if e["op"] == "DEAD":
                    what = "processes using the locked calls came to no end: %s" % json.dumps(e)[:500]
                else:
                    what = "no order of the locked calls explains what they returned and what the file holds: %s" % json.dumps([[{k: v for k, v in x.items() if k in ("op", "rc", "rc1", "rc2", "k", "b", "e")} for x in p] for p in e["P"]])[:1500]
                chk.violation(what, dict(script=src, trace=e))
            else:
                log("note: a history without linearization did not reproduce; not reported")
        if chk.enough():
            return


def lin_check(chk, tr, events):
    """histories (ids) no behaviour explains, with the event that shows it"""
    starts = [i for i, e in enumerate(events) if e["op"] == "start"]
    r = tlc("TraceLin", "SPECIFICATION Spec\n", env=dict(TRACE=tr), tag="lin")
    if not r["ok"]:
        raise CheckError("TraceLin did not complete (rc %s):\n%s" % (r["rc"], r["out"][-3500:]))
    good = set(int(x) - 1 for x in re.findall(r'"LIN (\d+)"', r["out"]))
    if chk:
        chk.add_tlc(r, "TraceLin: %d histories" % len(starts))
        chk.count("traces_validated_against_impl", len(starts))
        chk.count("calls_validated", sum(len(p) for e in events if e["op"] == "conc" for p in e["P"]))
    bad = []
    for i in starts:
        dead = next((e for e in events[i + 1:i + 3] if e["op"] == "DEAD"), None)
        if dead or i not in good:
            bad.append((events[i]["h"], dead or events[i + 1]))
    return bad


LOCK_INV = "TypeOK Atomic Exclusion Released NoOrphan Quiet Tidy"


def lock_cfg(procs, ops, maxops, maxlen, crashes, serial, variant="none", live=False):
    return "CONSTANTS Procs = {%s}\nOps = {%s}\nMaxOps = %d\nMaxLen = %d\nCrashes = %d\nSerial = %s\nVariant = \"%s\"\nSPECIFICATION %s\nINVARIANTS %s\n%s" % (
        ", ".join('"%s"' % p for p in procs), ", ".join('"%s"' % o for o in ops), maxops, maxlen, crashes, str(serial).upper(), variant,
        "Fair" if live else "Spec", LOCK_INV, "PROPERTY Terminates\n" if live else "")


def lock_design(chk):
    """the locking protocol at the level of single system calls: all interleavings"""
    L = ["write", "read", "rmw"]
    runs = [("2 processes, 1 death", lock_cfg("ab", L, 2 if THOROUGH else 1, 2, 1, False), False),
            ("2 processes, fair", lock_cfg("ab", L, 1, 1, 0, False, live=True), False)]
    runs += [("variant " + v, lock_cfg("ab", L, 1, 2, 1, False, v), True) for v in ("otrunc", "sharedwrite", "sharedrmw", "upgrade", "lockless", "earlyunlock")]
    if THOROUGH:
        runs += [("3 processes, 1 death", lock_cfg("abc", L, 1, 2, 1, False), False), ("2 processes, 3 pieces", lock_cfg("ab", L, 2, 3, 2, False), False),
                 ("2 processes, fair, 1 death", lock_cfg("ab", L, 1, 2, 1, False, live=True), False)]
    design_runs(chk, "KVLock", runs)


def crash_design(chk):
    """one call after the other, with and without locks, and a death at any point of any of them"""
    L = ["write", "read", "rmw", "wfile", "rfile"]
    runs = [("one call after the other, 2 deaths", lock_cfg("ab", L, 2, 3 if THOROUGH else 2, 2, True), False),
            ("one call after the other, variant nosync", lock_cfg("ab", L, 1, 2, 1, True, "nosync"), True),
            ("one call after the other, variant notrunc", lock_cfg("ab", L, 1, 2, 1, True, "notrunc"), True)]
    design_runs(chk, "KVLock", runs)


def C13(chk):
    lock_design(chk)
    from checks_mpi import multidrv
    for exe, tag, q in ((multidrv(), "a", 1), (multidrv(flags=["-DVERIF_FCNTL"], name="multidrv_fcntl"), "b", .25)):
        hs = []
        for i in range(int((900 if not THOROUGH else 15000) * q)):
            r = random.Random("%d/C13/%d" % (SEED, i))
            hs.append(conc_history(r, r.choice([2, 2, 3, 3, 4]), r.choice([1, 2, 3]), conc_init(r), r.randrange(1, 1 << 30), faults=.5, die=r.random() < .3, hid=i))
        lin_judge(chk, exe, hs, tag)
        hs = []
        for i in range(int((24 if not THOROUGH else 200) * q)):
            r = random.Random("%d/C13d/%d" % (SEED, i))
            hs.append(conc_history(r, 2 if i % 3 else 3, 1, conc_init(r), 1, faults=.3, die=i % 4 == 3, dfs=(2, 150 if not THOROUGH else 4000), hid=i))
        for i in range(int((40 if not THOROUGH else 400) * q)):
            r = random.Random("%d/C13e/%d" % (SEED, i))
            hs.append(conc_history(r, 2 if i % 4 else 3, 1 + i % 2, conc_init(r), 1, faults=.2, die=i % 5 == 4, dfs=(1, 300), hid=1000 + i))
        lin_judge(chk, exe, hs, tag + "d")
        hs = []
        for i in range(int((160 if not THOROUGH else 2500) * q)):
            r = random.Random("%d/C13L/%d" % (SEED, i))
            hs.append(conc_history(r, r.choice([2, 2, 3, 3, 4]), r.choice([1, 2, 3]), conc_init_large(r), r.randrange(1, 1 << 30), faults=.4, die=r.random() < .2, hid=i, large=True))
        for i in range(int((8 if not THOROUGH else 80) * q)):
            r = random.Random("%d/C13Ld/%d" % (SEED, i))
            hs.append(conc_history(r, 2 if i % 3 else 3, 1, conc_init_large(r), 1, faults=.2, die=i % 4 == 3, dfs=(2, 100 if not THOROUGH else 2000), hid=1000 + i, large=True))
        for i in range(int((30 if not THOROUGH else 300) * q)):     # every place at which one process can be held up once
            r = random.Random("%d/C13L1/%d" % (SEED, i))
            hs.append(conc_history(r, 2 if i % 4 else 3, 1 + i % 2, conc_init_large(r, .05), 1, faults=.1, dfs=(1, 300), hid=2000 + i, large=True))
        lin_judge(chk, exe, hs, tag + "L", args=checks_seq.TOK)


CHECKS["C13"] = C13
