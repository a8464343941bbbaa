"""Checks of the sequential API: KVTree (design), TLC-emitted tests and random histories
executed by seqdrv, traces judged by TraceSeq."""
import json, random, os
from vlib import *
import gen
from gen import hx, Gen, tlc_tests, test_script

ALLINV = "TypeOK MergeIsUnion MergeIdem MergeComm PackSound FileSound UnsetUndoesSet KVGetAfterSet"


def design(chk, depth=2, limit=None, keys="Keys2", inv=ALLINV, frame=True):
    limit = limit or (99 if THOROUGH else 4)
    cfg = "CONSTANTS Keys <- %s\nDepth = %d\nPairLimit = %d\nSPECIFICATION Spec\nCONSTRAINT Bound\nINVARIANTS %s\n" % (keys, depth, limit, inv)
    if frame:
        cfg += "PROPERTY Frame\n"
    r = tlc_must("KVTree", cfg, "design run", env=dict(EMIT="none"))
    chk.add_tlc(r, "KVTree %s depth %d limit %d" % (keys, depth, limit))


def emitted(chk, kinds, keys=("Keys2", "Keys2e"), depth=2, limit=99, cap=None, rng=None):
    out = []
    for kset in keys:
        for kind in kinds:
            ts, r = tlc_tests(kind, keys=kset, depth=depth, limit=limit)
            chk.add_tlc(r, "KVTree emit=%s %s depth %d limit %d" % (kind, kset, depth, limit))
            if cap and len(ts) > cap:
                ts = rng.sample(ts, cap)
            out += [test_script(t) for t in ts]
    return out


def event_context(events, line):
    """events of the history line (1-based) belongs to, up to it"""
    i = line - 1
    j = i
    while j > 0 and events[j - 1]["op"] != "end":
        j -= 1
    return events[j:i + 1]


def short(ev, n=600):
    s = json.dumps(ev)
    return s if len(s) <= n else s[:n] + "..."


def judge(chk, exe, histories, tag="t", env=None, chunk=4000, module="TraceSeq", runner=run_seq, args=(), keyfn=None, events_per_chunk=60000):
    """run histories, validate the traces, confirm what is rejected and report it"""
    i = 0
    while i < len(histories) and not chk.enough():
        part, n = [], 0
        while i < len(histories) and (not part or (len(part) < chunk and n < events_per_chunk)):
            part.append(histories[i])
            n += len(histories[i]) + 1
            i += 1
        tr, events, crashes = runner(exe, part, tag=tag, args=args)
        rej, r = validate(tr, module=module, env=env)
        chk.add_tlc(r, "%s: validation of %d calls" % (module, len(events)))
        chk.count("traces_validated_against_impl", sum(1 for e in events if e["op"] == "end"))
        chk.count("calls_validated", len(events))
        chk.sample(dict(history=part[len(part) // 2][:25]))
        ends = 0
        hist_of = []
        for e in events:
            hist_of.append(ends)
            if e["op"] == "end":
                ends += 1
        seen = {}
        for line, op in rej:
            h = hist_of[line - 1]
            if h in seen.values():
                continue
            k = op
            if op == "CRASH":
                k += " " + next((c["op"].split()[0] for c in crashes if c["history"] == h), "")
            if sum(1 for x in seen if x[0] == k) >= 2 or len(seen) >= 12:
                continue
            seen[(k, h)] = h
        for (k, h) in list(seen):
            if chk.enough():
                return
            confirm(chk, exe, part, h, k, env, module, runner, args, keyfn)
    return


def confirm(chk, exe, part, h, k, env, module, runner, args, keyfn):
    for attempt in ("alone", "prefix"):
        hs = [part[h]] if attempt == "alone" else part[:h + 1]
        tr, events, crashes = runner(exe, hs, tag="confirm", args=args)
        rej, r = validate(tr, module=module, env=env)
        if attempt == "prefix":
            n = sum(1 for e in events if e["op"] == "end") - 1
            ends, first = 0, 0
            for i, e in enumerate(events):
                if e["op"] == "end":
                    ends += 1
                    if ends == n:
                        first = i + 1
            rej = [x for x in rej if x[0] > first]
        if rej:
            line, op = rej[0]
            ctx = event_context(events, line)
            what = "call '%s' is not a step the specification allows: %s" % (op, short(ctx[-1]))
            if op == "CRASH":
                c = crashes[-1] if crashes else {}
                what = "the process died (status %s) in '%s': %s" % (c.get("status"), str(c.get("op"))[:200], str(c.get("stderr"))[-700:].replace("\n", " | "))
            key = keyfn(ctx, part[h]) if keyfn else ""
            chk.violation(what, dict(script=hs[-1], needs_prefix=attempt == "prefix", rejected_event=ctx[-1], trace=[short(e, 1500) for e in ctx[-40:]], crash=crashes[-1:] if op == "CRASH" else None), key)
            return True
    log("note: a rejected call (%s) did not reproduce; not reported" % k)
    return False


# ------------------------------------------------------------------ the checks
BASE = dict(new=3, build=1, delete=1)
MAP = dict(set=6, get=4, size=2, iter=2, elem_get=2, extract=3, elem_extract=1.5, elem_extract_int=.7, elem_extract_addr=1, unset=3, unset_all=1)
KV = dict(set_kv=4, set_kv_int=3, get_kv=3, get_kv_int=2, unset_kv=4, unset_kv_int=2, setf=4, getf=4, first_val=2, get_val=2)
TYPED = dict(typed=6, uget=2, uget_multi=1.5, uset_null=.3)
SORT = dict(sort=3, sort_int=4, list_int=4, iter_int=2, addints=3)
FILES = dict(write=3, read=4, rmw=1.5)
PACK = dict(pack=3, persist=1.5, repack=3)
PRINT = dict(print=6)
NULLS = dict(delnull=1, elemnull=.6, badargs=.5, uset_null=.5)


def w(*ds, **kw):
    out = dict(BASE)
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    out.update(kw)
    return out


def scale(d, f):
    return {k: v * f for k, v in d.items()}


def histories(chk, weights, n, length, salt, **kw):
    if THOROUGH:
        n *= 12
    out = []
    for i in range(n):
        rng = random.Random("%d/%s/%d" % (SEED, salt, i))
        out.append(Gen(rng, weights, **kw).history(rng.randrange(length // 2, length + 1)))
    return out


def wide_histories(chk, salt, n=2, sizes=(257, 300)):
    """trees with many entries at one level"""
    out = []
    for i, size in enumerate(sizes):
        out.append(["new 0", "set_kv 0:@ %s %s" % (hx("k"), hx("v")), "wide 0:@ %d %s" % (size, hx("w")), "size 0:@", "iter 0:@",
                    "get 0:@ %s" % hx("w%d" % (size - 1)), "get 0:@ %s" % hx("w0"), "pack 0:@", "new 1", "write_file 0:@ wf", "read_file 1:@ wf",
                    "unset 0:@ %s" % hx("w255"), "extract 0:@ %s 2" % hx("w256"), "size 0:@", "merge 1:@ 0:@", "sort 1:@ %d" % (i % 2), "unset_all 0:@", "size 1:@", "repack 1:@ 3"])
    return out


def long_histories(weights, salt, lens=None, length=14):
    """keys of every length, told apart only by their last bytes"""
    out = []
    for n in lens or gen.LONG:
        if n > 17000 and not THOROUGH and n != 65536:
            continue
        r = random.Random("%d/long/%s/%d" % (SEED, salt, n))
        ks = gen.longkeys(n)
        for rep in range(1 if n > 9000 else 2 if n > 2000 else 3):
            g = Gen(r, weights, keys=ks[:3] if n > 9000 else ks)
            out.append(g.history(length if n < 9000 else 8))
        a, b, c = (hx(k) for k in ks[:3])
        out.append(["new 0", "set 0:@ %s -1" % b, "get 0:@ %s" % c, "get 0:@ %s" % a, "set_kv 0:@ %s 61" % c, "size 0:@", "elem_get 0:@ %s" % b, "unset 0:@ %s" % a, "set_kv 0:@ %s %s" % (a, b), "get_kv 0:@ %s %s" % (a, c),
                    "unset_kv 0:@ %s %s" % (a, c), "size 0:@", "unset 0:@ %s" % b, "get 0:@ %s" % c])
    return out


def deep_histories(depths=(100, 700)):
    out = []
    for d in depths:
        p = ",".join(hx(str(i % 10)) for i in range(d // 2))
        out.append(["new 0", "deep 0:@ %d" % d, "set_kv 0:%s %s %s" % (p, hx("k"), hx("v")), "get_kv 0:%s %s %s" % (p, hx("k"), hx("v")), "pack 0:@",
                    "new 1", "merge 1:@ 0:@", "write_lock 1:@ df", "unset_all 0:%s" % p, "read_file 0:@ df", "print 0:@ 0 1", "print 0:@ 3 2", "printt 0:@ 1 1"])
    return out


TOK = ("512",)          # keys of more bytes are logged as tokens, files as what their bytes mean


def byte_histories(weights, salt, length=16):
    """keys made of one byte value, for every byte value"""
    out = []
    for b in range(1, 256):
        k = bytes([b])
        out.append(Gen(random.Random("%d/%s/byte/%d" % (SEED, salt, b)), weights, keys=[k, k + k, b"a" + k, k + b"a", k * 5]).history(length))
    return out


def all_bytes(r):
    """one tree with every byte value as a key"""
    ks = list(range(1, 256))
    r.shuffle(ks)
    return ["new 0"] + ["set 0:@ %02x -1" % b if b % 3 else "set_kv 0:@ %02x %02x" % (b, 256 - b) for b in ks]


TEXTS = (b"1e999", b"-1e999", b"1e-400", b"xyz", b"", b" ", b"0x", b"-", b"99999999999999999999999", b"-99999999999999999999999", b"1 2", b"%p", b"(nil)", b"0b1", b"\xff")


def odd_texts():
    """texts that are not values of the type: a getter that refuses one leaves its result alone"""
    return [["new 0", "set_kv 0:@ 6b %s" % hx(text)] + ["uget_%s 0:@ 6b" % ty for ty in ("int", "ulong", "bytecount", "crc32", "int64", "double", "ptr", "str")] for text in TEXTS]


def bigkey(n, suffix=""):
    return "*%d:71%s" % (n, "+" + hx(suffix) if suffix else "")


BIG = [7000, 65537, 131100, 400000, 1048573, 1048600, 3000000]
BIGT = [4194301, 8388700, 20000000, 67108900, 300000000]


def big_tree(r, n, slot=0):
    """script lines that build a tree of about n packed bytes"""
    s = "%d:@" % slot
    if r.random() < .5:                                   # few long keys
        h, left, i = [], n, 0
        while left > 0:
            k = left if r.random() < .4 else r.randrange(1, left + 1)
            h.append("set_kv %s %s %s" % (s, bigkey(k, "a%d" % i), r.choice([hx("v"), bigkey(r.choice([1, 600, 5000]))])))
            left -= k
            i += 1
            if i > 5:
                break
        return h
    sub = bigkey(2000)                                      # many middling ones
    if n > 400000:
        sub = bigkey(n // 150)
    h = []
    step = n // min(150, max(1, n // 2000)) + 1
    for i in range(min(150, max(1, n // 2000))):
        h.append("set_kv %s %s %s" % (s, bigkey(step, "k%d" % i), hx("w%d" % (i % 7))))
    return h


def big_ops(r, ops, f="bf"):
    out = []
    for o in ops:
        if o == "write":
            out.append("%s 0:@ %s" % (r.choice(["write_file", "write_lock", "write_fd"]), f))
        elif o == "read":
            out += ["delete 1", "new 1"] + (["set_kv 1:@ 6b 76"] if r.random() < .5 else []) + ["%s 1:@ %s" % (r.choice(["read_file", "read_lock", "read_fd"]), f)]
        elif o == "rmw":
            out += ["delete 2", "new 2", "rmw 2:@ %s %s" % (f, hx("n%d" % r.randrange(99)))]
        elif o == "damage":
            k = r.choice("xxxxtaXXT")
            at = r.choice([-1, -4, -5, -6, -200, -20000, 21, 24, 30, 19, 700, 5000, 65536, 70000]) if r.random() < .5 else r.randrange(20, 6900)
            out.append("fdamage %s %s %d %d" % (f, k, at, r.choice([1, 2, 16, 128, 255]) if k != "a" else r.choice([1, 4, 50])))
        elif o == "pack":
            out += ["pack_size 0:@", "delete 3", "repack 0:@ 3", "persist 0:@"]
        elif o == "merge":
            out += ["delete 3", "new 3", "set_kv 3:@ %s 61" % bigkey(r.choice([1, 700, 70000])), "merge 3:@ 0:@", "merge 0:@ 3:@"]
        elif o == "shrink":
            out += ["delete 0", "new 0"] + big_tree(r, r.choice([1, 300, 7000, 66000]))
    return out


def big_histories(salt, ops, n=20, sizes=None, rounds=3, faults=None):
    out = []
    sizes = (sizes or BIG) + (BIGT if THOROUGH else [])
    for i in range(n * (3 if THOROUGH else 1)):
        r = random.Random("%d/big/%s/%d" % (SEED, salt, i))
        z = sizes[i % len(sizes)] + r.choice([0, 0, 1, -1, r.randrange(-500, 500)])
        h = ["new 0"] + big_tree(r, z)
        for _ in range(rounds):
            f = faults(r) if faults else []
            h += f + big_ops(r, ops if i % 2 else r.sample(ops, len(ops))) + (["noplan"] if f else [])
        out.append(h)
    return out


def seqdrv():
    return build("seqdrv", ["seqdrv.c"])


def C01(chk):
    rng = random.Random(SEED)
    design(chk)
    exe = seqdrv()
    hs = emitted(chk, ["map", "set"], cap=None if THOROUGH else 3500, rng=rng)
    judge(chk, exe, hs, env=dict(CHECKORDER="0"))
    judge(chk, exe, histories(chk, w(MAP, scale(KV, .2), dict(merge=.7, typed=.3, sort=.3, pack=.2)), 260, 60, "C01"))
    judge(chk, exe, long_histories(w(MAP), "C01"))
    judge(chk, exe, byte_histories(w(MAP, dict(set_kv=1, merge=1)), "C01"))
    judge(chk, exe, int_histories())
    judge(chk, exe, [["bigwide %d %s 0" % (n, hx("w"))] for n in ((65600,) if not THOROUGH else (32770, 65537, 131100))], args=TOK)
    judge(chk, exe, wide_histories(chk, "C01", sizes=(257, 600) if not THOROUGH else (255, 256, 257, 1000, 1500)))


def C02(chk):
    rng = random.Random(SEED)
    design(chk, inv="TypeOK KVGetAfterSet UnsetUndoesSet")
    exe = seqdrv()
    judge(chk, exe, emitted(chk, ["kv"], cap=None if THOROUGH else 4000, rng=rng))
    judge(chk, exe, histories(chk, w(scale(KV, 2), scale(MAP, .4), dict(merge=.5)), 300, 60, "C02"))
    judge(chk, exe, long_histories(w(dict(set_kv=4, get_kv=3, unset_kv=4, first_val=2, get_val=2)), "C02", lens=[n for n in gen.LONG if n < 5000]))
    judge(chk, exe, long_histories(w(KV), "C02f", lens=[n for n in gen.LONG if n <= 900]))
    judge(chk, exe, format_histories())
    judge(chk, exe, int_histories())
    judge(chk, exe, byte_histories(w(KV), "C02"))


def int_histories():
    """every call that takes an integer key, with every boundary value, next to keys whose text is nearly the same"""
    hs = []
    for i, v in enumerate(gen.INTS + [10 ** k for k in range(1, 10)] + [-10 ** k for k in range(9, 0, -1)] + [-999999999, 999999999, -99]):
        t = str(v)
        near = [x for x in (t[:-1], t + "0", "0" + t, t.lstrip("-"), "-" + t, t[:10], " " + t, "+" + t) if x and x != t]
        h = ["new 0"] + ["set_kv 0:@ 6b %s" % hx(x) for x in near[:4]] + ["set_kv_int 0:@ 6b %d" % v, "get_kv_int 0:@ 6b %d" % v, "get_kv 0:@ 6b %s" % hx(t)]
        h += ["set_kv 0:@ 6b %s" % hx(x) for x in near[4:]] + ["set_kv_int 0:@ 6b %d" % v]
        h += ["elem_extract_int 0:6b %d 1" % v, "get_kv_int 0:@ 6b %d" % v, "elem_extract_int 0:6b %d 2" % v, "unset_kv_int 0:@ 6b %d" % v, "set_kv_int 0:@ 6b %d" % v, "unset_kv_int 0:@ 6b %d" % v]
        h += ["set_kv_int 0:@ 6d %d" % v, "unset_kv_int 0:@ 6d %d" % (0 if v else 1), "unset_kv_int 0:@ 6d %d" % v, "size 0:@", "list_int 0:6b"]
        hs.append(h)
    return hs


def format_histories():
    """every conversion with every boundary value, alone, first, in the middle and last; long paths; blanks in the format"""
    strs = [b"", b" ", b"a b", b"%s", b"%d%n", b"0", b"-0", b"(nil)", b"0x10", b"x" * 1000, b"x" * 1022, b"x" * 1023, b"\xff\x01", b"a\tb\n"]
    vals = [("s", hx(x)) for x in strs] + [("d", v) for v in gen.INTS] + [("lld", v) for v in gen.I64] + [(f, v) for f in ("lu", "llu", "#lx", "p") for v in gen.U64]
    vals += [("#x", v & 0xffffffff) for v in gen.U64] + [("f", v) for v in gen.DBL]
    h, out = ["new 0"], []
    for i, (f, v) in enumerate(vals):
        a = "%s %s" % (f, v)
        o, u = "s 61", "d %d" % i
        paths = (a, "%s %s" % (a, o), "%s %s" % (u, a), "%s %s %s" % (u, a, o), "%s %s" % (a, a))
        for j, x in enumerate(paths):
            h += ["getf 0:@ " + x, "setf 0:@ -1 " + x, "getf 0:@ " + x, "getf 0:@ " + a, "iter 0:@", "delete 0", "new 0"]
            if j == 1:
                h += ["new 1", "set_kv 1:@ 6b 76", "setf 0:@ 1 " + x, "getf 0:@ %s s 6b s 76" % x, "getf 0:@ %s s 6b s 77" % x]
        if len(h) > 150:
            out.append(h)
            h = ["new 0"]
    out.append(h)
    ints = [x for x in vals if x[0] not in "fs"]
    r = random.Random("%d/fmt" % SEED)
    for n in (1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 20):
        for rep in range(3):
            nf = 0
            p = []
            for _ in range(n):
                if r.random() < .25 and nf < 8:
                    p.append(("f", r.choice(gen.DBL)))
                    nf += 1
                else:
                    p.append(r.choice(ints) if r.random() < .6 else ("s", r.choice([hx("a"), hx("b"), hx("long" * 20)])))
            a = " ".join("%s %s" % x for x in p)
            sp = " ".join("_ %d %s %s" % (r.choice([0, 1, 3]), f, v) for f, v in p) + " _ 2"
            s = " ".join("%s %s" % x for x in p[:-1])
            out.append(["new 0", "new 1", "set_kv 1:@ 6b 76", "setf 0:@ -1 " + sp, "getf 0:@ " + a, "getf 0:@ " + sp] + (["getf 0:@ " + s, "getf 0:@ _ 3 " + s] if s else [])
                       + ["getf 0:@ %s s 7a" % a, "setf 0:@ 1 " + a, "getf 0:@ %s s 6b" % sp, "getf 0:@ " + sp, "new 2", "setf 2:@ -1 %s" % " ".join("%s %s" % x for x in reversed(p)), "merge 0:@ 2:@", "getf 0:@ " + a, "setf -1:@ -1 " + a, "getf -1:@ " + a])
    return out


def C03(chk):
    design(chk, inv="TypeOK", limit=3)
    exe = seqdrv()
    ws = w(MAP, KV, TYPED, SORT, FILES, PACK, PRINT, NULLS, dict(merge=3))
    judge(chk, exe, histories(chk, ws, 260, 60, "C03", nullp=.45), env=dict(CHECKMEM="1"))
    judge(chk, exe, [["badargs", "new 0", "build 1 0 61 0", "badargs", "merge 0:@ -1:@", "merge -1:@ 0:@", "merge -1:@ 1:@", "write_file -1:@ nf", "read_file -1:@ nf", "write_lock -1:@ nf", "read_lock -1:@ nf", "read_file 0:@ nf", "delnull", "elemnull"]] * 3)


def C04(chk):
    design(chk, inv="TypeOK KVGetAfterSet", limit=3)
    exe = seqdrv()
    judge(chk, exe, histories(chk, w(scale(TYPED, 2.5), scale(MAP, .3), scale(KV, .3), dict(merge=.5, repack=.3, write=.5, read=.5)), 300, 45, "C04"))
    # every interesting value of every type, stored over nothing, over one value, over several
    hs = []
    for ty, vals in (("int", gen.INTS), ("ulong", gen.U64), ("bytecount", gen.U64), ("crc32", [v & 0xffffffff for v in gen.U64]), ("int64", gen.I64), ("double", gen.DBL),
                     ("ptr", gen.U64), ("str", [hx(k) for ks in gen.KEYSETS for k in ks if len(k) < 1000])):
        for v in vals:
            hs.append(["new 0", "uset_%s 0:@ 6b %s" % (ty, v), "uget_%s 0:@ 6b" % ty, "set_kv 0:@ 6b 79", "uget_%s 0:@ 6b" % ty, "uset_%s 0:@ 6b %s" % (ty, v), "uget_%s 0:@ 6b" % ty,
                       "set 0:@ 6b -1", "uset_%s 0:@ 6b %s" % (ty, v), "uget_%s 0:@ 6b" % ty, "write_file 0:@ f", "new 1", "read_file 1:@ f", "uget_%s 1:@ 6b" % ty, "new 2", "merge 2:@ 1:@", "uget_%s 2:@ 6b" % ty,
                       "repack 2:@ 3", "uget_%s 3:@ 6b" % ty, "uget_%s 3:@ 6b6b" % ty, "uget_%s -1:@ 6b" % ty])
    hs += odd_texts()
    judge(chk, exe, hs)
    judge(chk, exe, value_histories())


def value_histories():
    """typed values of every magnitude: around all powers of 2 and 10, and one of each number of bits"""
    r = random.Random("%d/C04v" % SEED)
    pw = [2 ** k + d for k in range(65) for d in (-1, 0, 1)] + [10 ** k + d for k in range(20) for d in (-1, 0, 1)] + [r.getrandbits(k) | 1 << (k - 1) for k in range(1, 65) for _ in range(2)]
    pw += [15 << (4 * k) for k in range(16)] + [(10 ** k - 1) // 9 * d for k in range(1, 20) for d in (1, 7)]
    sg = pw + [-x for x in pw]
    dbl = [repr(r.choice((-1, 1)) * r.random() * 10 ** r.randrange(-7, 18)) for _ in range(150)] + [repr(r.choice((-1, 1)) * r.random() * 10.0 ** e) for e in range(-310, 309, 9)] + ["%.6f" % (k / 1e6) for k in (1, 999999, 1000001, 123456, 500000)] + [repr(2.0 ** k) for k in range(-30, 80, 3)]
    dom = dict(int=(sg, -2 ** 31, 2 ** 31), ulong=(pw, 0, 2 ** 64), bytecount=(pw, 0, 2 ** 64), ptr=(pw, 0, 2 ** 64), crc32=(pw, 0, 2 ** 32), int64=(sg, -2 ** 63, 2 ** 63))
    hs = []
    for ty in ("int", "ulong", "bytecount", "ptr", "crc32", "int64", "double"):
        vals = dbl if ty == "double" else sorted(set(v for v in dom[ty][0] if dom[ty][1] <= v < dom[ty][2]))
        r.shuffle(vals)
        for i in range(0, len(vals), 12):
            part = vals[i:i + 12]
            h = ["new 0"]
            for j, v in enumerate(part):
                h += ["uset_%s 0:@ 6b%02x %s" % (ty, 97 + j % 5, v), "uget_%s 0:@ 6b%02x" % (ty, 97 + j % 5)]
            hs.append(h + ["repack 0:@ 1"] + ["uget_%s 1:@ 6b%02x" % (ty, 97 + j) for j in range(min(5, len(part)))])
    return hs


def C05(chk):
    rng = random.Random(SEED)
    design(chk, inv="TypeOK MergeIsUnion MergeIdem MergeComm")
    exe = seqdrv()
    judge(chk, exe, emitted(chk, ["merge"], cap=None if THOROUGH else 2500, rng=rng), env=dict(CHECKMEM="1"))
    judge(chk, exe, histories(chk, w(scale(MAP, .6), dict(merge=10, set_kv=3, setf=2, build=4)), 260, 50, "C05"), env=dict(CHECKMEM="1"))
    judge(chk, exe, long_histories(w(dict(set_kv=3, set=2, merge=6)), "C05", lens=[n for n in gen.LONG if n < 9000]))
    judge(chk, exe, wide_histories(chk, "C05", sizes=(300,)) + deep_histories((100, 260, 700)))


def C06(chk):
    rng = random.Random(SEED)
    design(chk, inv="TypeOK", limit=3)
    exe = seqdrv()
    env = dict(CHECKMEM="1")
    judge(chk, exe, emitted(chk, ["map", "set", "kv", "merge"], keys=("Keys2",), cap=None if THOROUGH else 900, rng=rng), env=env)
    ws = w(MAP, KV, TYPED, SORT, FILES, PACK, PRINT, NULLS, dict(merge=3))
    judge(chk, exe, histories(chk, ws, 240, 60, "C06", nullp=.12), env=env)
    judge(chk, exe, histories(chk, w(MAP, scale(FILES, 3), dict(fdamage=6)), 60, 40, "C06f"), env=env)
    judge(chk, exe, odd_texts(), env=env)
    judge(chk, exe, deep_histories((100, 130, 1100)), env=env)
    import checks_io
    fh = checks_io.fault_histories("C06", rand=150)
    judge(chk, exe, fh if THOROUGH else rng.sample(fh, 420), env=env)


def C07(chk):
    rng = random.Random(SEED)
    design(chk, inv="TypeOK", limit=3)
    exe = seqdrv()
    judge(chk, exe, emitted(chk, ["sort"], limit=4))
    judge(chk, exe, histories(chk, w(scale(SORT, 3), scale(MAP, .5), dict(build=2)), 150, 50, "C07a", keys=gen.KEYSETS[1]))
    judge(chk, exe, histories(chk, w(dict(sort=6, iter=2, get=2), scale(MAP, .5), dict(build=3, merge=.5)), 150, 50, "C07b"))
    hs = []
    for i in range(60 * (10 if THOROUGH else 1)):
        r = random.Random("%d/C07/%d" % (SEED, i))
        vals = r.sample(gen.INTS, r.randrange(2, 12)) + [r.randrange(gen.INTMIN, gen.INTMAX) for _ in range(r.randrange(0, 12))] + [r.randrange(-9, 9)]
        h = ["new 0"] + ["set_kv_int 0:@ 49 %d" % v for v in vals]
        tail = ["sort_int 0:49 0", "iter_int 0:49", "list_int 0:49", "get 0:49 %s" % hx(str(vals[0])), "sort_int 0:49 1", "iter 0:49", "list_int 0:49", "sort 0:49 1", "sort 0:49 0", "unset 0:49 %s" % hx(str(vals[0])), "sort_int 0:49 0", "list_int 0:49", "size 0:49"]
        r.shuffle(tail)
        hs.append(h + tail)
    judge(chk, exe, hs)
    judge(chk, exe, long_histories(w(dict(set=6, sort=4, iter=1)), "C07", lens=[n for n in gen.LONG if n < 5000]))
    judge(chk, exe, histories(chk, w(scale(SORT, 3), scale(MAP, .5), dict(build=2)), 40, 40, "C07p", keys=gen.KEYSETS[7]))
    judge(chk, exe, [all_bytes(random.Random("%d/C07y/%d" % (SEED, i))) + ["sort 0:@ %d" % d, "iter 0:@", "sort 0:@ %d" % (1 - d)] for i, d in enumerate((0, 1, 0))])
    judge(chk, exe, wide_histories(chk, "C07", sizes=(300, 301)))


def C08(chk):
    rng = random.Random(SEED)
    design(chk, inv="PackSound FileSound")
    exe = seqdrv()
    env = dict(CHECKORDER="1")
    judge(chk, exe, emitted(chk, ["pack"], limit=4), env=env)
    judge(chk, exe, histories(chk, w(scale(PACK, 4), scale(FILES, 2), scale(MAP, .5), scale(KV, .3), dict(build=3, merge=.5)), 240, 45, "C08"), env=env)
    judge(chk, exe, long_histories(w(dict(set=3, set_kv=2), scale(PACK, 2)), "C08", length=10), env=env)
    judge(chk, exe, wide_histories(chk, "C08", sizes=(257, 600)) + deep_histories((100, 400)), env=env)
    judge(chk, exe, [all_bytes(rng) + ["pack 0:@", "repack 0:@ 1", "pack 1:@", "pack_size 1:@"]], env=env)
    judge(chk, exe, big_histories("C08", ["pack", "merge"], 14, rounds=1), env=env, args=TOK)
    judge(chk, exe, [["bigwide %d %s %d" % (n, hx("w"), n < 9000)] for n in ((4097, 65537) if not THOROUGH else (4096, 8200, 32768, 32769, 65535, 65536, 65537, 131100))], env=env, args=TOK)


def same_size(salt, sizes, modes=None):
    """a file rewritten with other content of exactly the same size"""
    out = []
    for n in sizes:
        r = random.Random("%d/same/%s/%d" % (SEED, salt, n))
        h = ["new 0", "rmw 0:@ sf *%d:61" % n]
        prev = "61"
        for b in ("62", "63", "64", "65"):
            how = r.choice(["rmw", "rmw", "write_lock", "write_file", "write_fd"])
            if how == "rmw":
                h += ["delete 2", "new 2", "rmw 2:@ sf *%d:%s *%d:%s" % (n, b, n, prev)]
            else:
                h += ["delete 0", "new 0", "set 0:@ *%d:%s -1" % (n, b), "%s 0:@ sf" % how]
            h += ["delete 1", "new 1", "%s 1:@ sf" % r.choice(["read_lock", "read_file", "read_fd"])]
            prev = b
        out.append(h)
    return out


def records(salt, n):
    """several records through one descriptor"""
    out = []
    for i in range(n):
        r = random.Random("%d/recs/%s/%d" % (SEED, salt, i))
        h = [x for s in (0, 1, 2) for x in ("delete %d" % s, "new %d" % s, "set_kv %d:@ %s %s" % (s, hx("k%d" % r.randrange(9)), hx("v%d" % s)), "deep %d:@ %d" % (s, r.choice([1, 1, 2, 9]))) ]
        for s in (0, 1, 2):
            for _ in range(r.choice([0, 1, 6, 30])):
                h.append("set_kv %d:@ %s %s" % (s, hx("a%d" % r.randrange(50)), hx("%d" % r.randrange(9))))
        for _ in range(3):
            h.append("recs %d %s" % (r.choice([0, 0, 1, 7, 20, 300]), " ".join(str(r.choice([0, 1, 2])) for _ in range(r.choice([1, 2, 3, 5])))))
        out.append(h)
    return out


def spec_files(chk, mode, keys="Keys2e", depth=2, maxbody=6, alphabet="{0, 1, 97}", inv="ClassOK"):
    """files as the specification's encoder writes them"""
    cfg = "CONSTANTS Keys <- %s\nDepth = %d\nMaxBody = %d\nAlphabet = %s\nSPECIFICATION Spec\nINVARIANTS %s\n" % (keys, depth, maxbody, alphabet, inv)
    r = tlc_must("KVFiles", cfg, "files", env=dict(EMIT=mode))
    chk.add_tlc(r, "KVFiles %s" % mode)
    fs = []
    for x in sorted(set(re.findall(r'"FILE (.*)"', r["out"]))):
        a, b = json.loads(x)
        fs.append((bytes(a), bytes(b)))
    return fs


READS = ["read_file", "read_lock", "read_fd", "rmw"]


def read_test(data, i, pre=True):
    """a reader is shown these bytes"""
    h = ["new 0"]
    if pre:
        h += ["set_kv 0:@ 6b 76", "set_kv 0:@ 61 62"]
    h.append("fput fx %s" % hx(data))
    op = READS[i % 4]
    h.append("rmw 0:@ fx 7a" if op == "rmw" else "%s 0:@ fx" % op)
    return h


def C09(chk):
    rng = random.Random(SEED)
    design(chk, inv="FileSound PackSound", limit=3)
    exe = seqdrv()
    env = dict(CHECKORDER="1")
    fs = spec_files(chk, "trees")
    hs = []
    for i, (a, b) in enumerate(fs):
        hs.append(read_test(a, i, i % 3 == 0))
        hs.append(read_test(b, i + 1, i % 3 == 1))
    judge(chk, exe, hs, env=env)
    # writes over whatever the file held
    hs = []
    for i in range(150 * (6 if THOROUGH else 1)):
        r = random.Random("%d/C09/%d" % (SEED, i))
        g = Gen(r, w(scale(MAP, .5), scale(KV, .5), dict(build=3)))
        g.history(10)
        junk = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 19, 20, 28, 60, 300, 2000])))
        f = r.choice(["fa", "fb", "fc"])
        g.emit("fput", f, hx(junk))
        g.files.add(f)
        for _ in range(6):
            g.op_write()
            g.op_read()
        hs.append(g.out)
    judge(chk, exe, hs, env=env)
    judge(chk, exe, histories(chk, w(scale(FILES, 3), scale(MAP, .5), scale(KV, .3), dict(build=3, merge=.5, repack=.3, sort=.5)), 150, 45, "C09"), env=env)
    judge(chk, exe, long_histories(w(dict(set=3, set_kv=2), scale(FILES, 2)), "C09", length=10), env=env)
    judge(chk, exe, wide_histories(chk, "C09", sizes=(300,)), env=env)
    judge(chk, exe, [all_bytes(rng) + ["write_file 0:@ fa", "new 1", "read_file 1:@ fa", "write_lock 1:@ fb", "new 2", "read_lock 2:@ fb"]], env=env)
    judge(chk, exe, big_histories("C09", ["write", "read", "rmw", "read", "shrink"], 14, rounds=2), env=env, args=TOK)
    judge(chk, exe, same_size("C09", [600, 5000, 65537, 70000, 140000] + [1048600] * THOROUGH), env=env, args=TOK)
    judge(chk, exe, records("C09", 40 if not THOROUGH else 300), env=env)


import struct, zlib


def reseal(b):
    return b[:-4] + struct.pack(">I", zlib.crc32(b[:-4]) & 0xffffffff)


def mutations(b, r, n):
    """damaged variants of a well-formed checksummed file"""
    out = []
    for _ in range(n):
        m = bytearray(b)
        kind = r.randrange(10)
        if kind == 0:                                   # truncated
            m = m[:r.randrange(len(m))]
        elif kind == 1:                                 # bits changed anywhere
            for _ in range(r.choice([1, 1, 2, 3, 8])):
                m[r.randrange(len(m))] ^= 1 << r.randrange(8)
        elif kind == 2:                                 # a header byte
            m[r.randrange(20)] = r.randrange(256)
        elif kind == 3:                                 # the size field, resealed
            m[8:16] = struct.pack(">Q", r.choice([0, 1, 19, 20, 23, 24, 27, len(b) - 1, len(b) - 4, len(b) + 1, len(b) + 4, 2 ** 31, 2 ** 32, 2 ** 32 + len(b), 2 ** 63, 2 ** 64 - 1, r.getrandbits(64)]))
            m = bytearray(reseal(bytes(m)))
        elif kind == 4:                                 # a count or key byte, resealed
            m[r.randrange(20, len(m) - 4)] = r.choice([0, 1, 2, 97, 127, 128, 255])
            m = bytearray(reseal(bytes(m)))
        elif kind == 5:                                 # bytes inserted or removed, size fixed up, resealed
            i = r.randrange(20, len(m) - 3)
            if r.random() < .5:
                m[i:i] = bytes(r.choice([0, 1, 97]) for _ in range(r.randrange(1, 6)))
            else:
                del m[i:min(i + r.randrange(1, 5), len(m) - 4)]
            m[8:16] = struct.pack(">Q", len(m))
            m = bytearray(reseal(bytes(m)))
        elif kind == 6:                                 # truncated with a size to match, resealed
            m = m[:r.randrange(20, len(m) + 1)] + bytearray(4)
            m[8:16] = struct.pack(">Q", len(m))
            m = bytearray(reseal(bytes(m)))
        elif kind == 7:                                 # appended bytes
            m += bytes(r.randrange(256) for _ in range(r.choice([1, 4, 100])))
        elif kind == 8:                                 # a part replaced by zeros or noise, as a torn write leaves it
            i = r.randrange(len(m))
            m[i:] = bytes(len(m) - i) if r.random() < .5 else bytes(r.randrange(256) for _ in range(len(m) - i))
        else:                                           # magic, type, version
            i = r.choice([0, 4, 6])
            m[i:i + (4 if i == 0 else 2)] = r.choice([b"\xf5\xc3\x1f\x95", b"\0\0\0\0"]) if i == 0 else struct.pack(">H", r.choice([0, 2, 256, 65535]))
            if r.random() < .7 and len(m) > 24:
                m = bytearray(reseal(bytes(m)))
        out.append(bytes(m))
    return out


def C10(chk):
    rng = random.Random(SEED)
    exe = seqdrv()
    env = dict(CHECKMEM="1")
    fs = spec_files(chk, "trees", keys="Keys2", depth=2, inv="ClassOK Noticed Cut")
    bodies = spec_files(chk, "bodies", maxbody=7 if not THOROUGH else 9)
    hs = []
    for i, (a, b) in enumerate(bodies):
        if THOROUGH or i % 2 == 0 or len(b) < 28:
            hs.append(read_test(a, i))
        if THOROUGH or i % 2 == 1 or len(b) < 28:
            hs.append(read_test(b, i + 1))
    judge(chk, exe, hs, env=env)
    # every single bit and every truncation of some files
    hs = []
    pick = sorted(set(a for a, b in fs), key=len)
    sample = [pick[1], pick[len(pick) // 3]] + ([pick[2 * len(pick) // 3], pick[-1]] if THOROUGH else [])
    i = 0
    for a in sample:
        for k in range(len(a)):
            hs.append(read_test(a[:k], i))
            i += 1
            for bit in range(8):
                m = bytearray(a)
                m[k] ^= 1 << bit
                hs.append(read_test(bytes(m), i))
                i += 1
    judge(chk, exe, hs, env=env)
    # files without a checksum cut short, while fresh memory happens to hold what was cut off
    hs = []
    nocrc = sorted(set(b for a, b in fs), key=len)
    for a in [nocrc[0], nocrc[1], nocrc[len(nocrc) // 3], nocrc[len(nocrc) // 2], nocrc[-1]] + (nocrc if THOROUGH else []):
        for k in range(20, len(a)):
            hs.append(read_test(a[:k], k))
            hs.append(read_test(a[:k], k + 1))
    for a in pick[:3] + [pick[-1]]:
        for k in range(20, len(a)):
            hs.append(read_test(a[:k], k))
    judge(chk, exe, hs, env=env, runner=lambda *x, **y: run_seq(*x, fill=0, **y))
    hs = []
    for j in range(220 * (10 if THOROUGH else 1)):
        r = random.Random("%d/C10/%d" % (SEED, j))
        for m in mutations(r.choice(pick), r, 6):
            hs.append(read_test(m, r.randrange(4)))
    # every sort of flag word, with the checksum right, wrong or missing
    for fl in [0, 1, 2, 3, 4, 5, 0x80, 0x81, 0x100, 0x101, 0x10001, 0x1000001, 0x80000001, 0xfffffffe, 0xffffffff]:
        for a in (pick[1], pick[len(pick) // 2]):
            m = a[:16] + struct.pack(">I", fl) + a[20:]
            short = m[:8] + struct.pack(">Q", len(m) - 4) + m[16:-4]
            for j, x in enumerate((m, reseal(m), reseal(m)[:-4] + bytes(4), short, m[:-5] + bytes([m[-5] ^ 1]) + m[-4:])):
                hs.append(read_test(x, j + fl))
    # every header byte, with the checksum to match and without a checksum
    for a in (pick[1], nocrc[len(nocrc) // 2]):
        for k in range(20):
            for v in [a[k] ^ (1 << b) for b in range(8)] + [0, 255]:
                m = a[:k] + bytes([v]) + a[k + 1:]
                hs.append(read_test(reseal(m) if a[19] & 1 else m, k + v))
    # larger trees, damaged
    big = b"\0\0\0\x28" + b"".join(b"key%02d\0\0\0\0\1value%d\0\0\0\0\0" % (i, i) for i in range(40))
    h = b"\x95\x1f\xc3\xf5\0\1\0\1" + struct.pack(">QI", 24 + len(big), 1) + big + b"    "
    big = reseal(h)
    for m in mutations(big, rng, 60 * (8 if THOROUGH else 1)):
        hs.append(read_test(m, rng.randrange(4)))
    judge(chk, exe, hs, env=env)
    hs = []
    for i in range(14 * (6 if THOROUGH else 1)):
        r = random.Random("%d/C10b/%d" % (SEED, i))
        z = BIG[i % len(BIG)] + r.randrange(-300, 300)
        h = ["new 0"] + big_tree(r, z)
        for _ in range(4):
            h += big_ops(r, ["write", "damage", "read", "damage", r.choice(["read", "rmw"])])
        hs.append(h)
    judge(chk, exe, hs, env=env, args=TOK)
    if THOROUGH:
        judge(chk, exe, [huge_history()], env=env, args=TOK, runner=lambda *x, **y: run_seq(*x, maxalloc=9000, **y))


def huge_history():
    """a file of more than 4 GiB (lengths that do not fit 32 bits)"""
    h = ["slow 300", "new 0"]
    for c in "abcd":
        h.append("set 0:@ %s -1" % bigkey(1 << 30, c))
    return h + ["write_file 0:@ hf", "fdamage hf x 3200000000 1", "new 1", "read_file 1:@ hf", "read_lock 1:@ hf", "fdamage hf x 3200000000 1", "delete 0", "read_lock 1:@ hf", "size 1:@", "fput hf ."]


def C22(chk):
    r = tlc_must("KVCli", "CONSTANT MaxItems = %d\nSPECIFICATION Spec\nINVARIANT OnlyOne\nPROPERTY Monotone\n" % (4 if THOROUGH else 3), "argument vectors", env=dict(EMIT="cli"))
    chk.add_tlc(r, "KVCli")
    argvs = sorted(json.loads(s.replace('\\"', '"')) for s in set(re.findall(r'"TEST (.*)"', r["out"])))
    cli = build("kvtree_print", [], extra_srcs=[REPO + "/src/kvtree_print.c"], asan=False)
    os.environ["KVTREE_PRINT_BIN"] = cli
    exe = seqdrv()
    design(chk, inv="TypeOK", limit=3)
    hs = []
    trees = ["build 0 0 515a4b31 0 1 61 0 0 515a4b32 1 0 515a4b33 0 1 62 0 2 63 0", "build 0 0 515a4b31 0 1 61 0 2 62 0 2 63 0 0 515a4b39 0"]
    for i, a in enumerate([[]] + argvs):
        hs.append([trees[i % 2], "cli 0:@ %d %s" % (i, " ".join(a))])
    judge(chk, exe, hs)
    judge(chk, exe, emitted(chk, ["print"], limit=4))
    judge(chk, exe, histories(chk, w(scale(PRINT, 3), scale(MAP, .6), scale(KV, .5), dict(build=3, sort=1)), 200, 45, "C22"))
    hs = []
    for i in range(40):
        rr = random.Random("%d/C22c/%d" % (SEED, i))
        g = Gen(rr, w(scale(MAP, .5), scale(KV, 1), dict(build=3)), keys=[b"QZK1", b"QZK2", b"QZK", b"QZK3 x", b"QZK%d%s"])
        g.history(15)
        if g.slots[0] is not None:
            g.emit("cli", "0:@", i, rr.choice(["file", "keyval file", "tree file", "keyval file", "help file", "damaged", "keyval missing"]))
        hs.append(g.out)
    judge(chk, exe, hs)
    judge(chk, exe, deep_histories((60, 130, 300, 700)))
    hs = []
    for d in (18, 19, 20, 21, 33, 65, 129, 260):
        hs.append(["new 0", "deep 0:@ %d" % d, "set_kv 0:%s %s %s" % (",".join(hx(str(i % 10)) for i in range(d)), hx("QZK1"), hx("v")), "log 0:@ 0 1", "log 0:@ 3 1", "printt 0:@ 2 1", "print 0:@ 5 2"]
                  + ["cli 0:@ %d %s" % (i, a) for i, a in enumerate(("file", "keyval file", "tree file"))])
    for n in (80, 127, 128, 255, 256, 511, 1000, 1023, 1024, 2047, 2048, 4000, 4090, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16400, 65600):
        k, v = "*%d:71+%s" % (n, hx("z")), "*%d:72+%s" % (n, hx("y"))
        hs.append(["new 0", "set_kv 0:@ %s %s" % (k, hx("v")), "set_kv 0:@ %s %s" % (hx("QZK"), v)] + (["set_kv 0:%s %s %s" % (k, v, k), "set_kv 0:%s %s %s" % (k, v, hx("b"))] if n < 5000 else [])
                  + ["printt 0:@ 0 1", "print 0:@ %d 2" % (n % 50), "print 0:@ 1 1", "log 0:@ %d 1" % (n % 7)] + ["cli 0:@ %d %s" % (i, a) for i, a in enumerate(("file", "keyval file"))])
    for ind in (40, 100, 300, 1100, 5000):
        hs.append(["build 0 0 515a4b31 0 1 61 0 0 515a4b32 1 0 515a4b33 0 1 62 0 2 63 0"] + [x % ind for x in ("printt 0:@ %d 1", "print 0:@ %d 1", "print 0:@ %d 2", "log 0:@ %d 1")])
    hs += [["new 0", "wide 0:@ %d 515a4b" % n, "printt 0:@ 0 1", "print 0:@ 2 2", "log 0:@ 0 1", "cli 0:@ 1 file", "cli 0:@ 2 keyval file"] for n in (257, 1030)]
    judge(chk, exe, hs, tag="long")


def C23(chk):
    r = tlc_must("KVPerm", "SPECIFICATION Spec\nINVARIANTS NeverExecute Allowed Idem\n", "mode bits")
    chk.add_tlc(r, "KVPerm")
    exe = seqdrv()
    hs = []
    hows = ["write_file", "write_lock", "read_lock", "rmw", "gather", "gatherp"]
    for um in range(512):
        h = []
        for how in hows:
            h.append("perm %o %s -" % (um, how))
        for b in (6, 0, 1, 2, 3, 4, 5, 7) if THOROUGH or um % 8 == 0 else (6, 7):
            h.append("getmode %o %d" % (um, b))
        h.append("perm %o %s %o" % (um, hows[um % 4], (um * 37 + 0o600) % 512))
        # after an error that passes, or another one
        cls, e, n = [("O", 4, 1), ("O", 24, 2), ("O", 2, 1), ("W", 28, -1), ("O", 13, -1), ("L", 4, 1), ("C", 5, 1), ("F", 5, -1), ("T", 5, 1)][um % 9]
        h += ["plan %s 1 %d %d 0" % (cls, e, n), "perm %o %s -" % (um, hows[um // 9 % 6]), "perm %o %s %o" % (um, hows[um // 9 % 4], (um * 41 + 0o600) % 512), "noplan"]
        hs.append(h)
    judge(chk, exe, hs)
    chk.cov["exhaustive"] = True


CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10, C22=C22, C23=C23)
