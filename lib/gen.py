"""Generation of driver scripts: TLC-emitted tests and seeded random histories.

The shadow trees kept here only steer generation (which targets exist, which slots are
free); they are never compared with anything."""
import random, json, re
from vlib import tlc, CheckError

INTMIN, INTMAX = -2147483648, 2147483647


def hx(b):
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode()
    if len(b) == 0:
        return "."
    if len(b) > 40 and len(set(b)) == 1:
        return "*%d:%02x" % (len(b), b[0])
    if len(b) > 60:
        n = len(b) - len(b.lstrip(b[:1]))
        if n > 40:
            return "*%d:%02x+%s" % (n, b[0], b[n:].hex())
    return bytes(b).hex()


def tgt(slot, path=()):
    return "%d:%s" % (slot, ",".join(hx(k) for k in path) if path else "@")


def build_line(slot, tree):
    """tree in the logged list form [[key bytes, [] | [subtree]], ...]"""
    out = ["build", str(slot)]

    def rec(t, d):
        for k, c in reversed(t):
            out.extend([str(d), hx(bytes(k)), "0" if c else "1"])
            if c:
                rec(c[0], d + 1)
    rec(tree, 0)
    return " ".join(out)


# ------------------------------------------------- tests out of the state machine
def tlc_tests(emit, keys="Keys2", depth=2, limit=99, cov=None, inv=False):
    cfg = "CONSTANTS Keys <- %s\nDepth = %d\nPairLimit = %d\nSPECIFICATION Spec\nCONSTRAINT Bound\n" % (keys, depth, limit)
    if inv:
        cfg += "INVARIANTS TypeOK MergeIsUnion MergeIdem MergeComm PackSound FileSound UnsetUndoesSet KVGetAfterSet\nPROPERTY Frame\n"
    r = tlc("KVTree", cfg, env=dict(EMIT=emit), tag="emit")
    if not r["ok"]:
        raise CheckError("KVTree did not complete: " + r["out"][-3000:])
    ts = []
    for s in sorted(set(re.findall(r'"TEST (.*)"', r["out"]))):
        ts.append(json.loads(s.replace('\\"', '"')))
    return ts, r


def test_script(t):
    """the driver script of one emitted test"""
    out = []
    for i, p in ((0, t["p0"]), (1, t["p1"])):
        if p:
            out.append(build_line(i, p[0]))
    c = t["call"]
    op = c[0]
    if op in ("new", "delete"):
        out.append("%s %d" % (op, c[1]))
        return out
    T = tgt(0 if t["p0"] else -1, [bytes(k) for k in c[1]])
    k = [hx(bytes(x)) if isinstance(x, list) else str(x) for x in c[2:]]
    if op == "set":
        out.append("set %s %s %s" % (T, k[0], k[1]))
    elif op in ("extract", "elem_extract", "elem_extract_addr"):
        out.append("%s %s %s %s" % (op, T, k[0], k[1]))
    elif op in ("unset", "get", "elem_get", "first_val", "get_val"):
        out.append("%s %s %s" % (op, T, k[0]))
        if op in ("get", "elem_get"):
            out.append("%s %s -" % (op, T))
    elif op in ("unset_all", "size", "iter", "pack_size", "pack", "persist"):
        out.append("%s %s" % (op, T))
    elif op == "merge":
        out.append("merge %s 1:@" % T)
        # afterwards each side lives its own life
        out += ["unset_all %s" % T, "iter 1:@", "delete 1"]
    elif op in ("set_kv", "unset_kv", "get_kv"):
        out.append("%s %s %s %s" % (op, T, k[0], k[1]))
    elif op == "setf":
        out.append("setf %s -1 s %s s %s" % (T, k[0], k[1]))
    elif op == "getf":
        out.append("getf %s s %s s %s" % (T, k[0], k[1]))
    elif op == "print":
        for m in ("print %s 0 1", "print %s 3 2", "printt %s 1 1", "log %s 2 1"):
            out.append(m % T)
    elif op == "sort":
        for m in ("sort %s 0", "sort %s 1", "sort_int %s 0", "sort_int %s 1", "list_int %s"):
            out.append(m % T)
    else:
        raise CheckError("unknown test " + op)
    return out


# ----------------------------------------------------------- random histories
class Sh:
    """shadow tree node"""
    __slots__ = ("d",)

    def __init__(self):
        self.d = {}


def sh_copy(t):
    r = Sh()
    for k, c in t.d.items():
        r.d[k] = sh_copy(c) if c is not None else Sh()
    return r


def sh_merge(a, b):
    for k, c in b.d.items():
        if a.d.get(k) is None:
            a.d[k] = Sh()
        if c is not None:
            sh_merge(a.d[k], c)


def sh_nodes(t):
    return sum(1 + (sh_nodes(c) if c is not None else 0) for c in t.d.values())


def paths(t, pre=(), out=None, maxd=6):
    if out is None:
        out = []
    out.append(pre)
    if len(pre) < maxd:
        for k, c in t.d.items():
            if c is not None:
                paths(c, pre + (k,), out, maxd)
    return out


KEYSETS = [
    [b"a", b"b", b"ab", b"abc", b"", b"a b"],
    [b"0", b"1", b"10", b"-1", b"007", b"2147483647", b"-2147483648", b"9"],
    [b"key", b"ke", b"keykey", b"KEY", b"key\xff", b"key\x01"],
    [bytes([128]), bytes([255]), bytes([127]), b"\n", b"%s%n", b"\t "],
    [b"x" * 300, b"x" * 301, b"x" * 1100, b"y", b"x"],
    [b"RANK", b"FILE", b"0", b"1", b"RANKS", b"LEVEL"],
    [b"a" * 63, b"a" * 64, b"a" * 65, b"a" * 127, b"a" * 128],
    [b"010", b"08", b"0100", b"-010", b"+9", b"8", b"64", b"-8", b"10", b"0009"],
    [b"#", b"#a", b"/", b"a/b", b"../x", b"a=b", b"=", b"a:b", b"."],
    [b"NULL", b"NULL KEY", b"(null)", b"\\", b"\\n", b"\r", b"\"q\"", b"'", b"\xc3\xa9"],
]
LONG = [15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 511, 512, 900, 999, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5000, 8191, 8192, 16384, 32768, 65535, 65536]


def longkeys(n):
    """keys that differ only after n bytes"""
    return [b"q" * n, b"q" * n + b"r", b"q" * n + b"s", b"q" * (n - 1) + b"r", b"q" * n + b"qr", b"q" * n + b"\xff"]
INTS = [0, 1, -1, 7, 10, 255, 256, -300, 65536, INTMAX, INTMIN, INTMAX - 1, INTMIN + 1, 1234567890, -1234567890]
U64 = [0, 1, 9, 10, 255, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551615, 1234567890123456789]
I64 = [0, 1, -1, 2147483648, -2147483649, 9223372036854775807, -9223372036854775808, -1234567890123456789, 4294967296]
DBL = ["0", "1", "-1", "0.5", "-0.25", "0.015625", "123456.75", "-99999.984375", "1e6", "0.1", "3.141593", "-2.718282", "1234567.654321", "1e15", "0.000001", "-0.000001",
       "1e22", "-1e100", "1e300", "1.7976931348623157e308", "-1.7976931348623157e308", "1e-300", "4.9e-324", "-0", "inf", "-inf", "9007199254740993", "0.0000005", "0.00000049"]
FMT = ["s", "d", "lld", "lu", "llu", "#x", "#lx", "f", "p"]


class Gen:
    def __init__(self, rng, weights, keys=None, nslots=4, maxnodes=40, files=False, nullp=None):
        self.r = rng
        self.nullp = nullp
        self.w = weights
        self.keys = list(keys if keys is not None else rng.choice(KEYSETS))
        if rng.random() < .3:
            self.keys += [str(rng.choice(INTS)).encode()]
        self.slots = [None] * nslots
        self.out = []
        self.maxnodes = maxnodes
        self.files = set()

    def key(self):
        return self.r.choice(self.keys)

    def node(self, slot, path):
        t = self.slots[slot]
        for k in path:
            t = t.d[k]
        return t

    def target(self, null=.04):
        """(slot, path, node)"""
        live = [i for i, t in enumerate(self.slots) if t is not None]
        if self.nullp is not None and null > 0:
            null = self.nullp
        if not live or self.r.random() < null:
            return -1, (), None
        s = self.r.choice(live)
        ps = paths(self.slots[s])
        p = () if self.r.random() < .45 else self.r.choice(ps)
        return s, p, self.node(s, p)

    def kon(self, n, miss=.35):
        """a key, usually one that the node has"""
        if self.r.random() < (.03 if self.nullp is None else self.nullp / 2):
            return None
        if n is not None and n.d and self.r.random() > miss:
            return self.r.choice(list(n.d))
        return self.key()

    def free(self):
        f = [i for i, t in enumerate(self.slots) if t is None]
        return self.r.choice(f) if f else None

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def total(self):
        return sum(sh_nodes(t) for t in self.slots if t is not None)

    def intkey(self, n):
        ks = [int(k) for k in (n.d if n is not None else ()) if re.fullmatch(rb"-?[1-9][0-9]{0,9}|0", k) and INTMIN <= int(k) <= INTMAX]
        if ks and self.r.random() < .6:
            return self.r.choice(ks)
        return self.r.choice(INTS) if self.r.random() < .6 else self.r.randrange(-50, 50)

    def fmtarg(self, n):
        f = self.r.choice(FMT)
        if f == "s":
            k = self.kon(n)
            while k is None or len(k) > 900:
                k = self.key() if self.r.random() < .9 else b"z"
            return f, hx(k), k
        if f == "d":
            v = self.intkey(n)
            return f, v, str(v).encode()
        if f == "lld":
            v = self.r.choice(I64)
            return f, v, str(v).encode()
        if f in ("lu", "llu"):
            v = self.r.choice(U64)
            return f, v, str(v).encode()
        if f == "#x":
            v = self.r.choice(U64) & 0xffffffff
            return f, v, (b"0" if v == 0 else b"0x%x" % v)
        if f == "#lx":
            v = self.r.choice(U64)
            return f, v, (b"0" if v == 0 else b"0x%x" % v)
        if f == "p":
            v = self.r.choice(U64)
            return f, v, (b"(nil)" if v == 0 else b"0x%x" % v)
        v = self.r.choice(DBL)
        return f, v, ("%.6f" % float(v)).encode()

    def step(self):
        ops = list(self.w)
        op = self.r.choices(ops, [self.w[o] for o in ops])[0]
        if all(t is None for t in self.slots):
            if self.r.random() < .9:
                op = "new"
        if self.total() > self.maxnodes and op in ("merge", "setf", "set_kv", "set_kv_int", "build"):
            op = "unset_all" if "unset_all" in self.w else "iter"
        getattr(self, "op_" + op)()

    def history(self, n):
        self.emit("new", 0)
        self.slots[0] = Sh()
        for _ in range(n):
            self.step()
        return self.out

    # --- operations
    def op_new(self):
        s = self.free()
        if s is not None:
            self.emit("new", s)
            self.slots[s] = Sh()

    def op_build(self):
        s = self.free()
        if s is None:
            return
        r = self.r
        out = ["build", str(s)]
        t = Sh()

        def rec(n, d):
            for _ in range(r.randrange(0, 4)):
                k = self.key()
                if k in n.d:
                    continue
                nil = r.random() < .25
                out.extend([str(d), hx(k), "1" if nil else "0"])
                n.d[k] = None if nil else Sh()
                if not nil and d < 4:
                    rec(n.d[k], d + 1)
        rec(t, 0)
        self.emit(*out)
        self.slots[s] = t

    def op_delete(self):
        live = [i for i, t in enumerate(self.slots) if t is not None]
        if live:
            s = self.r.choice(live)
            self.emit("delete", s)
            self.slots[s] = None

    def op_delnull(self):
        self.emit("delnull")

    def op_elemnull(self):
        self.emit("elemnull")

    def op_badargs(self):
        self.emit("badargs")

    def value_for(self, s):
        """slot whose tree is handed over, or -1 for no subtree"""
        c = [i for i, t in enumerate(self.slots) if t is not None and i != s]
        if not c or self.r.random() < .25:
            return -1
        return self.r.choice(c)

    def op_set(self):
        s, p, n = self.target()
        k = self.kon(n, .6)
        if n is None or k is None:
            v = self.value_for(-9) if self.r.random() < .5 else -1
            v = v if v != s else -1
            self.emit("set", tgt(s, p), hx(k), v)
            return
        v = self.value_for(s)
        if v < 0 and self.r.random() < .7:
            f = self.free()
            if f is not None:
                self.emit("new", f)
                self.slots[f] = Sh()
                v = f
        self.emit("set", tgt(s, p), hx(k), v)
        n.d[k] = self.slots[v] if v >= 0 else None
        if v >= 0:
            self.slots[v] = None

    def op_get(self):
        s, p, n = self.target()
        self.emit("get", tgt(s, p), hx(self.kon(n)))

    def op_size(self):
        s, p, n = self.target()
        self.emit("size", tgt(s, p))

    def op_iter(self):
        s, p, n = self.target()
        self.emit("iter", tgt(s, p))

    def op_elem_get(self):
        s, p, n = self.target()
        self.emit("elem_get", tgt(s, p), hx(self.kon(n)))

    def op_first_val(self):
        s, p, n = self.target()
        self.emit("first_val", tgt(s, p), hx(self.kon(n)))

    def op_get_val(self):
        s, p, n = self.target()
        self.emit("get_val", tgt(s, p), hx(self.kon(n)))

    def extract(self, op, s, p, n, karg, k):
        f = self.free()
        if f is None:
            return
        self.emit(op, tgt(s, p), karg, f)
        if n is not None and k is not None and k in n.d:
            self.slots[f] = n.d.pop(k)

    def op_extract(self):
        s, p, n = self.target()
        k = self.kon(n)
        self.extract("extract", s, p, n, hx(k), k)

    def op_elem_extract(self):
        s, p, n = self.target()
        k = self.kon(n)
        self.extract("elem_extract", s, p, n, hx(k), k)

    def op_elem_extract_int(self):
        s, p, n = self.target()
        v = self.intkey(n)
        self.extract("elem_extract_int", s, p, n, v, str(v).encode())

    def op_elem_extract_addr(self):
        s, p, n = self.target(0)
        if n is not None and n.d:
            k = self.r.choice(list(n.d))
            self.extract("elem_extract_addr", s, p, n, hx(k), k)

    def op_unset(self):
        s, p, n = self.target()
        k = self.kon(n)
        self.emit("unset", tgt(s, p), hx(k))
        if n is not None:
            n.d.pop(k, None)

    def op_unset_all(self):
        s, p, n = self.target()
        self.emit("unset_all", tgt(s, p))
        if n is not None:
            n.d.clear()

    def op_merge(self):
        s, p, n = self.target()
        u, q, m = self.target(.08)
        if u == s and s >= 0:
            # within one tree the source must not change under the call: only disjoint subtrees or the same node
            if self.r.random() < .3:
                u, q, m = s, p, n
            elif p[:len(q)] == q or q[:len(p)] == p:
                u, q, m = -1, (), None
        self.emit("merge", tgt(s, p), tgt(u, q))
        if n is not None and m is not None:
            sh_merge(n, m)

    def op_set_kv(self, i=False):
        s, p, n = self.target()
        k = self.kon(n)
        c = n.d.get(k) if n is not None and k is not None else None
        if i:
            w = self.intkey(c)
            self.emit("set_kv_int", tgt(s, p), hx(k), w)
            w = str(w).encode()
        else:
            w = self.kon(c)
            self.emit("set_kv", tgt(s, p), hx(k), hx(w))
        if n is not None and k is not None:
            if n.d.get(k) is None:
                n.d[k] = Sh()
            if w is not None and n.d[k].d.get(w) is None:
                n.d[k].d[w] = Sh()

    def op_set_kv_int(self):
        self.op_set_kv(True)

    def op_get_kv(self):
        s, p, n = self.target()
        k = self.kon(n, .2)
        c = n.d.get(k) if n is not None and k is not None else None
        self.emit("get_kv", tgt(s, p), hx(k), hx(self.kon(c, .3)))

    def op_get_kv_int(self):
        s, p, n = self.target()
        k = self.kon(n, .2)
        c = n.d.get(k) if n is not None and k is not None else None
        self.emit("get_kv_int", tgt(s, p), hx(k), self.intkey(c))

    def op_unset_kv(self, i=False):
        s, p, n = self.target()
        k = self.kon(n, .2)
        c = n.d.get(k) if n is not None and k is not None else None
        if i:
            w = self.intkey(c)
            self.emit("unset_kv_int", tgt(s, p), hx(k), w)
            w = str(w).encode()
        else:
            w = self.kon(c, .2)
            self.emit("unset_kv", tgt(s, p), hx(k), hx(w))
        if c is not None and w is not None:
            c.d.pop(w, None)
        if n is not None and k is not None and (c is None or not c.d):
            n.d.pop(k, None)

    def op_unset_kv_int(self):
        self.op_unset_kv(True)

    def op_setf(self):
        s, p, n = self.target()
        depth = self.r.choice([1, 1, 2, 2, 3, 4])
        args, ks, m = [], [], n
        for _ in range(depth):
            f, v, k = self.fmtarg(m)
            args += [f, v]
            ks.append(k)
            m = m.d.get(k) if m is not None else None
        v = self.value_for(s) if n is not None else -1
        self.emit("setf", tgt(s, p), v, *args)
        if n is not None:
            for k in ks[:-1]:
                if n.d.get(k) is None:
                    n.d[k] = Sh()
                n = n.d[k]
            n.d[ks[-1]] = self.slots[v] if v >= 0 else None
            if v >= 0:
                self.slots[v] = None

    def op_getf(self):
        s, p, n = self.target()
        depth = self.r.choice([1, 2, 2, 3, 4])
        args = []
        m = n
        for _ in range(depth):
            if m is not None and m.d and self.r.random() < .7:
                k = self.r.choice([k for k in m.d])
                if len(k) > 900:
                    break
                if re.fullmatch(rb"-?[1-9][0-9]{0,9}|0", k) and INTMIN <= int(k) <= INTMAX and self.r.random() < .7:
                    args += ["d", int(k)]
                else:
                    args += ["s", hx(k)]
                m = m.d[k]
            else:
                f, v, k = self.fmtarg(m)
                args += [f, v]
                m = m.d.get(k) if m is not None else None
        if args:
            self.emit("getf", tgt(s, p), *args)

    def op_sort(self):
        s, p, n = self.target(.02)
        if n is not None:
            self.emit("sort", tgt(s, p), self.r.randrange(2))

    def op_sort_int(self):
        s, p, n = self.target(.02)
        if n is not None and (self.r.random() < .1 or all(intlike(k) for k in n.d)):
            self.emit("sort_int", tgt(s, p), self.r.randrange(2))

    def op_list_int(self):
        s, p, n = self.target(.02)
        if n is None or all(intlike(k) for k in n.d):
            self.emit("list_int", tgt(s, p))

    def op_iter_int(self):
        s, p, n = self.target(.02)
        if n is not None and all(intlike(k) for k in n.d):
            self.emit("iter_int", tgt(s, p))

    def op_addints(self):
        """a subtree of integer keys to sort"""
        s, p, n = self.target(0)
        if n is None:
            return
        for _ in range(self.r.randrange(2, 7)):
            v = self.intkey(None)
            self.emit("setf", tgt(s, p), -1, "d", v)
            n.d[str(v).encode()] = None

    def typed(self):
        ty = self.r.choice(["int", "ulong", "bytecount", "crc32", "int64", "double", "ptr", "str"])
        v = {"int": lambda: self.r.choice(INTS), "ulong": lambda: self.r.choice(U64), "bytecount": lambda: self.r.choice(U64),
             "crc32": lambda: self.r.choice(U64) & 0xffffffff, "int64": lambda: self.r.choice(I64), "double": lambda: self.r.choice(DBL),
             "ptr": lambda: self.r.choice(U64), "str": lambda: hx(self.key()[:900])}[ty]()
        if self.r.random() < .25:
            v = {"int": lambda: self.r.randrange(INTMIN, INTMAX), "ulong": lambda: self.r.getrandbits(64), "bytecount": lambda: self.r.getrandbits(self.r.randrange(1, 65)),
                 "crc32": lambda: self.r.getrandbits(32), "int64": lambda: self.r.getrandbits(63) - (1 << 62), "double": lambda: "%.6f" % self.r.uniform(-1e6, 1e6),
                 "ptr": lambda: self.r.getrandbits(48), "str": lambda: hx(self.key() + b"!")}[ty]()
        return ty, v

    def op_typed(self):
        """store a value, look at it, possibly after copying"""
        s, p, n = self.target()
        k = self.kon(n, .6)
        while k is None or len(k) > 900:      # format conversions are limited to 1023 bytes
            k = self.r.choice([self.key(), b"t"])
        ty, v = self.typed()
        self.emit("uset_" + ty, tgt(s, p), hx(k), v)
        if n is not None:
            n.d[k] = Sh()
            n.d[k].d[b"?"] = None     # steering only: the text is not an int
        self.emit("uget_" + ty, tgt(s, p), hx(k))
        x = self.r.random()
        if n is not None and x < .3:
            f = self.free()
            if f is not None:
                how = self.r.choice(["merge", "pack", "file"])
                if how == "merge":
                    self.emit("new", f)
                    self.emit("merge", tgt(f), tgt(s))
                elif how == "pack":
                    self.emit("repack", tgt(s), f)
                else:
                    self.emit("new", f)
                    self.emit("write_file", tgt(s), "tv")
                    self.emit("read_file", tgt(f), "tv")
                self.emit("uget_" + ty, tgt(f, p), hx(k))
                self.emit("delete", f)

    def op_uget(self):
        s, p, n = self.target(.15)
        ty = self.r.choice(["int", "ulong", "bytecount", "crc32", "int64", "double", "ptr", "str"])
        # only keys without values here: what other texts mean to a type is not laid down
        k = self.key() + b"-none"
        self.emit("uget_" + ty, tgt(s, p), hx(k))
        if n is not None:
            e = [k for k, c in n.d.items() if c is None or (not c.d and False)]
            if e:
                self.emit("uget_" + ty, tgt(s, p), hx(self.r.choice(e)))

    def op_uget_multi(self):
        """a key with several values has no single value"""
        s, p, n = self.target(0)
        if n is None:
            return
        k = b"multi"
        for w in (b"1", b"2", b"3")[:self.r.randrange(2, 4)]:
            self.emit("set_kv", tgt(s, p), hx(k), hx(w))
        ty = self.r.choice(["int", "ulong", "bytecount", "crc32", "int64", "double", "ptr", "str"])
        self.emit("uget_" + ty, tgt(s, p), hx(k))
        ty, v = self.typed()
        self.emit("uset_" + ty, tgt(s, p), hx(k), v)
        self.emit("uget_" + ty, tgt(s, p), hx(k))
        n.d[k] = Sh()
        n.d[k].d[b"?"] = None

    def op_uset_null(self):
        self.emit("uset_str", tgt(-1), hx(self.key()), hx(b"v"))
        self.emit("uset_int", tgt(-1), hx(self.key()), 3)

    def op_pack(self):
        s, p, n = self.target(.05)
        self.emit("pack", tgt(s, p))
        if self.r.random() < .5:
            self.emit("pack_size", tgt(s, p))

    def op_persist(self):
        s, p, n = self.target(.05)
        self.emit("persist", tgt(s, p))

    def op_repack(self):
        s, p, n = self.target(.05)
        f = self.free()
        if f is None:
            return
        self.emit("repack", tgt(s, p), f)
        self.slots[f] = sh_copy(n) if n is not None else Sh()

    def op_write(self):
        s, p, n = self.target(.04)
        f = self.r.choice(["fa", "fb", "fc"])
        op = self.r.choice(["write_file", "write_lock", "write_fd"])
        if n is None and op == "write_fd":
            op = "write_file"
        if self.r.random() < .03 and op != "write_fd":
            f = "-"
        self.emit(op, tgt(s, p), f)
        if n is not None and f != "-":
            self.files.add(f)

    def op_read(self):
        s, p, n = self.target(.04)
        f = self.r.choice(["fa", "fb", "fc"])
        op = self.r.choice(["read_file", "read_lock", "read_fd"])
        if op == "read_fd" and f not in self.files:
            op = "read_file"
        if n is not None and self.r.random() < .5:
            g = self.free()
            if g is not None:
                self.emit("new", g)
                self.slots[g] = Sh()
                s, p, n = g, (), self.slots[g]
        self.emit(op, tgt(s, p), f)
        if op == "read_lock":
            self.files.add(f)          # it creates the file

    def op_fdamage(self):
        """a file that is not, or only nearly, in the format"""
        f = self.r.choice(["fa", "fb", "fc"])
        b = self.r.choice([b"", b"\x95", b"\x95\x1f\xc3\xf5" + bytes([0, 1, 0, 1]) + bytes(11), bytes(30), bytes.fromhex("951fc3f500010001") + bytes([0] * 7 + [28, 0, 0, 0, 0, 0, 0, 0, 1, 97, 0, 0]),
                           bytes.fromhex("951fc3f500010001") + bytes([0] * 7 + [30, 0, 0, 0, 0, 0, 0, 0, 1, 97, 0, 0, 0, 0, 0]),
                           bytes.fromhex("951fc3f500010001") + bytes([0] * 7 + [30, 0, 0, 0, 1, 0, 0, 0, 1, 97, 0, 0, 0, 0, 0]),
                           bytes.fromhex("951fc3f500010001") + bytes([0] * 7 + [30, 0, 0, 0, 0, 0, 0, 0, 2, 97, 0, 0, 0, 0, 0])])
        self.emit("fput", f, hx(b))
        self.files.add(f)

    def op_rmw(self):
        s, p, n = self.target(0)
        if n is None:
            return
        f = self.r.choice(["fa", "fb", "fc"])
        k = self.key()
        self.emit("rmw", tgt(s, p), f, hx(k))
        n.d[k] = Sh()
        self.files.add(f)

    def op_print(self):
        s, p, n = self.target(.05)
        m = self.r.choice(["print %s %d 1", "print %s %d 2", "printt %s %d 1", "log %s %d 1"])
        if m.startswith("log") and any(b"\n" in k or b": " in k for k in self.keys):
            m = "print %s %d 2"
        self.emit(m % (tgt(s, p), self.r.choice([0, 0, 1, 2, 5, 10])))


def intlike(k):
    return re.fullmatch(rb"[-+]?[0-9]{1,10}", k) is not None and INTMIN <= int(k) <= INTMAX
