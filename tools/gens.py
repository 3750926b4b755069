"""Scenario generators.  They only choose what is executed; what is right is
decided by the specification (spec/TraceDb.tla)."""
import random
from lib import Scenario

LENS = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 40, 47, 48, 55, 56, 63, 64, 71, 72, 79,
        80, 87, 88, 95, 96, 104, 111, 112, 119, 120, 121, 127, 128, 129, 239, 240, 241, 247, 248,
        249, 255, 256, 368, 376, 377, 383, 384, 500, 503, 504, 505, 511, 512, 623, 632, 640, 751,
        760, 768, 879, 888, 889, 896, 1007, 1008, 1009, 1015, 1016, 1017, 1023, 1024, 1025, 1143,
        1144, 1145, 1500, 2040, 2048, 3000]

class Sc:
    """builds one scenario"""
    def __init__(self, sid, rng):
        self.id = sid
        self.rng = rng
        self.l = []
        self.nk = 0
        self.nv = 0
        self.w = 0
        self.ty = "S"
    def a(self, s, w=1):
        self.l.append(s)
        self.w += w
    def universe(self, keys, vals):
        self.nk, self.nv = len(keys), len(vals)
        self.l.append("keys " + " ".join(keys))
        self.l.append("vals " + " ".join(vals))
        self.l.append("uni")
    def dump(self, h):
        self.a("dump %d" % h, 1 + self.nk // 40)
    def iter(self, h, form=None):
        self.a("iter %d %s" % (h, form or self.rng.choice(["it", "im", "ri", "rm", "in"])),
               1 + self.nk // 20)
    def img(self, p, n, htx=False, need=True):
        self.a("image %s %s%s" % (p, n, " htx" if htx else ""), 3 + self.nk // 4)
    def done(self):
        return Scenario(self.id, self.l, self.w)

# ---------------------------------------------------------------- universes
def ukeys(rng, ty, n, style="short"):
    """n distinct keys of a type, shuffled"""
    out = []
    seen = set()
    def add(b):
        if b in seen:
            return
        seen.add(b)
        if ty == "B" or (ty == "S" and not utf8(b)):
            out.append("x:" + b.hex())
        else:
            out.append("h:" + b.hex())
    if ty == "I":
        pool = [0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1,
                1 << 32, (1 << 56) - 1, 1 << 56, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]
        vals = set()
        if style == "dense":
            vals = set(range(rng.randrange(1000), rng.randrange(1000) + 3000))
            vals = set(rng.sample(sorted(vals), min(n, len(vals)))) if len(vals) >= n else vals
        if style == "edge":
            vals |= set(pool[:n])
        while len(vals) < n:
            vals.add(rng.getrandbits(rng.choice([8, 16, 20, 32, 48, 64])))
        vs = list(vals)[:n]
        rng.shuffle(vs)
        return ["u:%d" % v for v in vs]
    tries = 0
    while len(out) < n:
        tries += 1
        if tries > 20 * n + 100:
            style = "fix"
        if style == "short":
            add(bytes(rng.choice(b"abcdefgh0123") for _ in range(rng.randrange(1, 7))))
        elif style == "prefix":
            m = rng.choice([b"a", b"\0", b"\xff", b"ab", b"a\0"]) * rng.randrange(0, 9)
            add(m + bytes([rng.choice([0, 1, 97, 98, 127, 255])] * rng.randrange(0, 3)))
        elif style == "size":
            ln = rng.choice(LENS)
            add(bytes(rng.choice(b"abc") for _ in range(ln)))
        elif style == "twin":
            # long keys which differ in one byte only
            ln = rng.choice([9, 16, 33, 64, 65, 200, 1030])
            b = bytearray(b"p" * ln)
            b[rng.choice([0, 7, 8, ln // 2, ln - 1, rng.randrange(ln)])] = 97 + rng.randrange(20)
            add(bytes(b))
        elif style == "raw":
            add(bytes(rng.getrandbits(8) for _ in range(rng.randrange(0, 12))))
        elif style == "seq":
            add(b"k%05d" % len(out))
        elif style == "fix":
            add(b"%07d" % rng.randrange(10 ** 7))
        else:
            raise ValueError(style)
    rng.shuffle(out)
    return out

def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False

def twins(rng, n, lens):
    """values of one or two lengths which differ in a single byte, anywhere"""
    ln = [max(2, x) for x in (rng.choice(lens), rng.choice(lens))]
    out = []
    for i in range(n):
        l = ln[0] if rng.random() < 0.8 else ln[1]
        at = rng.choice([0, 1, 7, 8, l // 3, l // 2, l - 1, l - 2, rng.randrange(l)])
        out.append("t:%d:%d:%d" % (l, at, i))
    return out

def uvals(rng, n, style="mixed", ascii_only=True):
    out = []
    if style in ("mixed", "big") and rng.random() < 0.2:
        return twins(rng, n, rng.choice([LENS, LENS, [2000, 4096, 5000]]))
    for i in range(n):
        if i == n - 1 and style in ("short", "mixed", "big") and rng.random() < 0.25:
            ln = 0      # the empty value
        elif style == "short":
            ln = rng.randrange(1, 20)
        elif style == "mixed":
            ln = rng.choice(LENS) if rng.random() < 0.7 else rng.randrange(0, 60)
        elif style == "twin":
            return twins(rng, n, LENS[20:])
        elif style == "one":
            ln = 5
        elif style == "huge":
            ln = rng.choice([4088, 8184, 16376, 16377, 32760, 32768, 65527, 65528, 65529, 65536, 70000, 131064, 131072, 131073,
                             200000, 262144, 300001])
        elif style == "big":
            ln = rng.choice([900, 1000, 1016, 1017, 1100, 1144, 1145, 1272, 1400, 2000, 2500, 4088, 4096, 5000])
        else:
            raise ValueError(style)
        out.append(("a" if ascii_only else rng.choice("ab")) + ":%d:%d" % (ln, i + 1))
    return out

def forms(rng, ty, s_ok=True):
    r = rng.random()
    if r < 0.2 and s_ok:
        return "s"
    if r < 0.32:
        return "k"
    if r < 0.5:
        return "c"
    return ""

def churn(sc, h, nops, p=(5, 3, 2), keys=None, s_ok=True):
    """random puts, deletes and gets"""
    rng = sc.rng
    ks = keys or range(sc.nk)
    ks = list(ks)
    tot = sum(p)
    for _ in range(nops):
        x = rng.randrange(tot)
        k = rng.choice(ks)
        f = forms(rng, sc.ty, s_ok)
        if x < p[0]:
            sc.a("put%s %d %d %d" % (f, h, k, rng.randrange(sc.nv)))
        elif x < p[0] + p[1]:
            sc.a("del%s %d %d" % (f, h, k))
        else:
            sc.a("get%s %d %d" % (f, h, k))

def order(rng, n, how):
    v = list(range(n))
    if how == "rand":
        rng.shuffle(v)
    elif how == "desc":
        v.reverse()
    elif how == "zig":
        v = [x for p in zip(v[:(n + 1) // 2], reversed(v[n // 2:])) for x in p][:n]
    elif how == "mid":
        v.sort(key=lambda x: abs(x - n // 2))
    return v

STYLES = {"S": ["short", "prefix", "size", "seq", "fix", "twin"], "B": ["raw", "prefix", "short", "size", "twin"],
          "I": ["dense", "edge", "rand"]}

def begin(sid, rng, ty=None, nk=20, nv=8, kstyle=None, vstyle="mixed", ascii_only=True, params="="):
    sc = Sc(sid, rng)
    sc.ty = ty or rng.choice("SIB")
    st = kstyle or rng.choice(STYLES[sc.ty])
    sc.universe(ukeys(rng, sc.ty, nk, st), uvals(rng, nv, vstyle, ascii_only))
    sc.a("open 1 db")
    sc.a("mapopen 1 1 m %s %s" % (sc.ty, params))
    sc.a("map db m " + sc.ty)
    return sc

def sized(rng, sizes):
    return sizes[rng.randrange(len(sizes))]

# ---------------------------------------------------------------- P01
def g_dict(rng, n, big=False, tag="d"):
    out = []
    for i in range(n):
        nk = sized(rng, [1, 2, 3, 5, 8, 13, 20, 40, 80, 160]) if not big else sized(rng, [300, 500, 800])
        asc = rng.random() < 0.7
        sc = begin("%s%d" % (tag, i), rng, nk=nk, nv=rng.choice([1, 3, 8]), ascii_only=asc,
                   vstyle=rng.choice(["mixed", "short", "one", "twin"]))
        how = rng.choice(["asc", "desc", "rand", "zig", "mid", "churn", "churn"])
        if how != "churn":
            # by key order: the generator does not know the ranks of the keys, the
            # universes "seq" and "dense" are the sorted ones
            for k in order(rng, nk, how):
                sc.a("put 1 %d %d" % (k, rng.randrange(sc.nv)))
            sc.dump(1)
            for k in order(rng, nk, rng.choice(["asc", "desc", "rand", "zig", "mid"])):
                sc.a("del 1 %d" % k)
                if rng.random() < 3.0 / (nk + 3):
                    sc.dump(1)
            sc.dump(1)
        for _ in range(rng.randrange(1, 5)):
            churn(sc, 1, min(3 * nk + 5, 400), rng.choice([(5, 3, 2), (2, 5, 1), (8, 1, 1), (4, 4, 0)]), s_ok=asc)
            sc.dump(1)
        if rng.random() < 0.3:
            sc.iter(1)
        out.append(sc.done())
    return out

def sorted_keys(rng, ty, n):
    """keys whose script order is the key order"""
    if ty == "I":
        base = rng.randrange(1 << 20)
        return ["u:%d" % (base + 3 * i) for i in range(n)]
    return [("x:" if ty == "B" else "h:") + (b"%06d" % (3 * i)).hex() for i in range(n)]

def g_ordered(rng, n, nks, tag="o", image=False, stats=False, every=7, htx=False, it=False, s_ok=True):
    """insertions and deletions in orders which drive the tree to its limits"""
    out = []
    for i in range(n):
        ty = "SIB"[i % 3]
        nk = nks[i % len(nks)]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(sorted_keys(rng, ty, nk), uvals(rng, 4, rng.choice(["short", "mixed"])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        def look():
            if image:
                sc.a("flush 1 db m")
                sc.img("db", "m", htx)
                if stats:
                    sc.a("statsx 1" if htx else "stats 1", 4 + nk // 10)
            elif it:
                sc.iter(1)
            else:
                sc.dump(1)
        def phase(op, ks):
            step = max(1, every)
            for j, k in enumerate(ks):
                if op == "put":
                    sc.a("put 1 %d %d" % (k, rng.randrange(sc.nv)))
                else:
                    sc.a("del 1 %d" % k)
                if j % step == step - 1:
                    look()
            look()
        hows = ["asc", "desc", "rand", "zig", "mid"]
        for _ in range(rng.randrange(1, 3)):
            phase("put", order(rng, nk, rng.choice(hows)))
            d = order(rng, nk, rng.choice(hows))
            cut = rng.choice([nk, nk, nk * 3 // 4, nk // 2])
            phase("del", d[:cut])
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P02
COLL = {"S": "c", "B": "cb", "I": "ci"}
def coll_universe(rng, ty, groups=3, others=3):
    ks = []
    for g in rng.sample(range(12), groups):
        m = 3 if g < 4 else 2
        ks += ["%s:%d:%d" % (COLL[ty], g, j) for j in range(m)]
    if ty == "S" and rng.random() < 0.4:
        ks += ["h:", "ce:0", "ce:1", "ce:2"]
    have = len(ks)
    if ty == "I":
        ks += ["u:%d" % (10 ** 9 + rng.randrange(10 ** 9)) for _ in range(others)]
    else:
        ks += [("x:" if ty == "B" else "h:") + (b"zz%04d" % rng.randrange(10 ** 4)).hex() for _ in range(others)]
    ks = list(dict.fromkeys(ks))
    rng.shuffle(ks)
    return ks

def g_coll(rng, n, tag="h"):
    out = []
    for i in range(n):
        ty = "SBI"[i % 3]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(coll_universe(rng, ty), uvals(rng, 5, rng.choice(["short", "mixed", "one"])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        for _ in range(rng.randrange(2, 6)):
            for _ in range(rng.randrange(5, 25)):
                churn(sc, 1, 1, (5, 4, 3))
                if rng.random() < 0.4:
                    sc.dump(1)
            r = rng.random()
            if r < 0.35:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
            elif r < 0.5:
                sc.a("flush 1 db m")
                sc.img("db", "m", True)
            sc.iter(1)
            sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- keys displaced from their slots
M64 = (1 << 64) - 1
def xs(x):
    x ^= x >> 12
    x = (x ^ (x << 25)) & M64
    return x ^ (x >> 27)
def xs_inv(y):
    x = y
    for _ in range(3):
        x = y ^ (x >> 27)
    y = x
    for _ in range(3):
        x = y ^ ((x << 25) & M64)
    y = x
    for _ in range(6):
        x = y ^ (x >> 12)
    return x
def partner(b, j):
    """another key of eight bytes in the hash slot of the key b; only what is
    covered depends on the hash function, not what is right"""
    s = xs(8)
    h = xs((s + int.from_bytes(b, "little")) & M64)
    return ((xs_inv((h & 0xffffff) | (j << 24)) - s) & M64).to_bytes(8, "little")

def displaced(rng, ty, n):
    """n pairs of keys of one slot each: the first of a pair in dense order"""
    lo = rng.randrange(10 ** 6)
    step = rng.choice([1, 1, 3, 1000])
    pairs = []
    for i in range(n):
        b = (b"%08d" % (lo + i * step)) if ty != "I" else (lo + i * step).to_bytes(8, "big")
        while True:
            p = partner(b, rng.getrandbits(40))
            if ty != "S" or utf8(p):
                break
        f = {"I": lambda x: "u:%d" % int.from_bytes(x, "big"), "S": lambda x: "h:" + x.hex(),
             "B": lambda x: "x:" + x.hex()}[ty]
        pairs += [f(b), f(p)]
    return pairs

def g_displaced(rng, n, tag="dp", nks=(8, 20, 70, 130), reads=False):
    """large trees in which most keys are found without the help of the hash index"""
    out = []
    for i in range(n):
        ty = "ISB"[i % 3]
        m = nks[i % len(nks)]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(displaced(rng, ty, m), uvals(rng, 5, rng.choice(["short", "short", "one"])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        first = rng.choice([0, 0, 1])
        step = max(1, m // 40)
        at = 0
        def put(k):
            nonlocal at
            sc.a("put 1 %d %d" % (k, rng.randrange(sc.nv)))
            at += 1
            if at % step == 0:
                sc.dump(1)
        o = order(rng, m, rng.choice(["asc", "desc", "rand", "zig"]))
        if rng.random() < 0.5:
            for k in o:
                put(2 * k + first)
            for k in o:
                put(2 * k + 1 - first)
        else:
            for k in o:
                put(2 * k + first)
                put(2 * k + 1 - first)
        sc.iter(1)
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < 0.3:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
            elif r < 0.5:
                sc.a("bget 1 " + " ".join(str(rng.randrange(sc.nk)) for _ in range(min(sc.nk, 60))))
            d = order(rng, m, rng.choice(["asc", "desc", "rand", "mid"]))
            side = rng.choice([0, 1])
            for j, k in enumerate(d[:rng.choice([m // 3, m // 2, m])]):
                sc.a("del 1 %d" % (2 * k + side))
                if j % max(1, m // 20) == 0:
                    sc.dump(1)
            churn(sc, 1, m // 2, (3, 2, 4))
            sc.dump(1)
            sc.iter(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P03
def g_iter(rng, n, tag="i"):
    out = []
    for i in range(n):
        nk = sized(rng, [1, 2, 3, 6, 7, 12, 20, 40, 70, 130])
        sc = begin("%s%d" % (tag, i), rng, nk=nk, nv=4, vstyle="short", kstyle=None)
        for f in ("it", "im", "ri", "rm", "in"):
            sc.iter(1, f)          # empty
        for _ in range(rng.randrange(2, 7)):
            churn(sc, 1, rng.randrange(1, 2 * nk + 4), rng.choice([(5, 3, 0), (2, 5, 0), (1, 9, 0), (9, 1, 0)]))
            sc.iter(1)
            if rng.random() < 0.5:
                sc.iter(1, "%s:%d" % (rng.choice(["it", "im", "ri", "rm", "in"]), rng.randrange(0, nk + 3)))
            if rng.random() < 0.2:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % sc.ty)
                sc.iter(1)
        if rng.random() < 0.5:
            for k in range(nk):
                sc.a("del 1 %d" % k)
            sc.iter(1)
        out.append(sc.done())
    return out

def g_wide(rng, n, tag="w", look="iter", opt=()):
    """a tree of three levels with nodes of the size of the default build: the root becomes full"""
    out = []
    for i in range(n):
        ty = "SIB"[i % 3]
        nk = 2330
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(sorted_keys(rng, ty, nk), uvals(rng, 4, "short"))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        def see():
            if look == "iter":
                sc.iter(1)
            elif look == "img":
                sc.a("flush 1 db m")
                sc.img("db", "m")
            else:
                sc.dump(1)
        asc = i % 2 == 0
        ks = list(range(nk)) if asc else list(range(nk - 1, -1, -1))
        load = lambda ks: sc.a("bput 1 " + " ".join("%d=%d" % (k, rng.randrange(4)) for k in ks), 3 + len(ks) // 30)
        # the root is split when it would get its 64th key: near 2112 in this order
        for c in (0, 500, 1000, 1500):
            load(ks[c:c + 500])
        see()
        at = 2000
        while at < nk:
            g = rng.choice([16, 31, 32]) if look != "dump" else 32
            load(ks[at:at + g])
            at += g
            see()
        if i % 3 == 2:
            sc.a("close")
            sc.a("open 1 db")
            sc.a("mapopen 1 1 m %s =" % ty)
        d = order(rng, nk, rng.choice(["asc", "desc", "rand", "mid"]))
        for c in range(0, nk, 256):
            sc.a("bdel 1 " + " ".join(str(k) for k in d[c:c + 256]), 12)
            see()
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P04
def g_bulk(rng, n, tag="b", mem=False):
    out = []
    for i in range(n):
        nk = sized(rng, [1, 2, 3, 5, 10, 25, 60])
        asc = rng.random() < 0.8
        ty = rng.choice("SIB")
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        st = rng.choice(STYLES[ty])
        if ty == "S" and st == "prefix":
            st = "short"     # one form of keys for the slices
        sc.universe(ukeys(rng, ty, nk, st), uvals(rng, rng.choice([2, 6]), rng.choice(["short", "mixed"]), asc))
        sc.a("memopen 1 db" if mem else "open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        for _ in range(rng.randrange(2, 8)):
            ln = sized(rng, [0, 1, 2, 3, 5, 8, 20, 50, 200, rng.choice([256, 300, 520])])
            dup = rng.random() < 0.6
            ks = [rng.randrange(nk) for _ in range(ln)] if dup else rng.sample(range(nk), min(ln, nk))
            f = "s" if asc and rng.random() < 0.5 else ""
            op = rng.choice(["put", "put", "get", "del"])
            if op == "put":
                sc.a("bput%s 1 %s" % (f, " ".join("%d=%d" % (k, rng.randrange(sc.nv)) for k in ks)), 1 + ln // 5)
            elif op == "get":
                sc.a("bget%s 1 %s" % (f, " ".join(map(str, ks))), 1 + ln // 5)
            else:
                sc.a("bdel%s 1 %s" % (f, " ".join(map(str, ks))), 1 + ln // 5)
            sc.dump(1)
            if not mem and rng.random() < 0.3:
                sc.iter(1)
            if rng.random() < 0.3:
                churn(sc, 1, rng.randrange(1, nk + 2), s_ok=asc)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P05
def close_some_way(sc, hs, ds):
    """drops everything, in a random order"""
    rng = sc.rng
    r = rng.random()
    if r < 0.25:
        sc.a("close")
    elif r < 0.5:
        sc.a("close db")
    else:
        todo = ["drop %d" % h for h in hs] + ["ddrop %d" % d for d in ds]
        rng.shuffle(todo)
        for t in todo:
            sc.a(t)

PARAMS = ["=", "-", "k=S1000,v=S1000,i=S1000,h=S1000", "k=P0,v=P0,i=P0,h=P0", "k=A,v=A,i=A,h=A",
          "k=P1000,v=P1000,i=P1000,h=P10", "k=S3000000,v=S5000000,i=S4194304,h=S2500000", "k=P2000,v=P65535,i=P1001,h=P999",
          "k=S70000,v=P100,i=S16384,h=S8192", "k=P500,v=S4096,i=P1,h=A"]

def g_sessions(rng, n, tag="s", reopen_params=True):
    out = []
    for i in range(n):
        nk = sized(rng, [1, 3, 8, 20, 60, 150])
        asc = rng.random() < 0.6
        sc = begin("%s%d" % (tag, i), rng, nk=nk, nv=5, vstyle=rng.choice(["short", "mixed", "big"]), ascii_only=asc)
        for s in range(rng.randrange(2, 6)):
            if s > 0:
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(PARAMS) if reopen_params and rng.random() < 0.5 else "="))
                if rng.random() < 0.5:
                    sc.dump(1)
                if rng.random() < 0.3:
                    sc.iter(1)
            churn(sc, 1, rng.choice([0, 1, 2, nk, 3 * nk]), rng.choice([(5, 3, 2), (9, 1, 0), (1, 8, 1)]), s_ok=asc)
            if rng.random() < 0.5:
                sc.a("%s 1 db m" % rng.choice(["flush", "sync", "syncd"]))
                if rng.random() < 0.6:
                    churn(sc, 1, rng.randrange(1, nk + 2), s_ok=asc)
            if rng.random() < 0.5:
                sc.dump(1)
            if rng.random() < 0.25:
                sc.a("dirty 1")
            close_some_way(sc, [1], [1])
            sc.a("kimg")          # the files after the clean close
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % sc.ty)
        sc.dump(1)
        sc.iter(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P06
SAVES = ["flush", "sync", "syncd", "dsync", "dsyncd"]
def save_cmd(what, h=1, d=1, p="db", n="m"):
    return "%s %d %s" % (what, d, p) if what.startswith("d") else "%s %d %s %s" % (what, h, p, n)

def g_durable(rng, n, tag="y"):
    out = []
    for i in range(n):
        nk = sized(rng, [1, 2, 4, 10, 30, 90])
        sc = begin("%s%d" % (tag, i), rng, nk=nk, nv=5, vstyle=rng.choice(["short", "mixed", "big"]),
                   params=rng.choice(PARAMS))
        for s in range(rng.randrange(3, 10)):
            r = rng.random()
            if r < 0.25:
                churn(sc, 1, 1)
            elif r < 0.4:
                churn(sc, 1, rng.randrange(1, 2 * nk + 3))
            elif r < 0.46:
                sc.iter(1)
            elif r < 0.5:
                k = rng.randrange(nk)
                sc.a("bput 1 " + " ".join("%d=%d" % (rng.randrange(nk), rng.randrange(5)) for _ in range(3)))
            if rng.random() < 0.5:
                sc.a("dirty 1")
            if rng.random() < 0.75:
                for _ in range(rng.choice([1, 1, 2])):
                    sc.a(save_cmd(rng.choice(SAVES)))
                if rng.random() < 0.4:
                    sc.a("dirty 1")
            r = rng.random()
            if r < 0.5:
                sc.a("kimg")
            if r > 0.25:
                sc.a("pimg")
            if rng.random() < 0.3:
                sc.a("drop 1")
                if rng.random() < 0.5:
                    sc.a("pimg")
                    sc.a("kimg")
                    sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(PARAMS)))
                else:
                    sc.a("ddrop 1")
                    sc.a("pimg")
                    sc.a("kimg")
                    sc.a("open 1 db")
                    sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(PARAMS)))
                sc.dump(1)
            elif rng.random() < 0.25:
                sc.a(save_cmd(rng.choice(SAVES[1:])))
                if rng.random() < 0.6:
                    churn(sc, 1, 1, (0, 0, 1))
                sc.a(rng.choice(["kill", "power"]))
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(PARAMS)))
                sc.a("dirty 1")
                sc.dump(1)
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- maps larger than their buffers
TIGHT = ["k=P1,v=P1,i=P1,h=P1", "i=P1", "k=S0,v=S0,i=S0,h=S0", "i=P10,k=A", "v=P1,k=P1", "k=P5,v=P20,i=P5,h=P3"]
def g_evict(rng, n, tag="E", faults=False, power=False, reopen=False):
    """hundreds of keys in small buffers: nodes and chunks are evicted while the map changes and while it is saved"""
    out = []
    for i in range(n):
        wide = i % 4 == 3
        nk = 6000 if wide else sized(rng, [300, 450, 650])
        ty = "SI"[i % 8 // 4] if wide else "SIB"[i % 3]
        if wide:
            sc = Sc("%s%d" % (tag, i), rng)
            sc.ty = ty
            sc.universe(sorted_keys(rng, ty, nk), uvals(rng, 6, "short"))
            sc.a("open 1 db")
            sc.a("mapopen 1 1 m %s %s" % (ty, ("i=P1", TIGHT[0])[i % 8 // 4]))
            sc.a("map db m " + ty)
        else:
            sc = begin("%s%d" % (tag, i), rng, ty=ty, nk=nk, nv=6, vstyle="short" if rng.random() < 0.6 else "mixed",
                       kstyle={"S": "seq", "I": "dense", "B": "raw"}[ty] if rng.random() < 0.7 else None, params=TIGHT[i % len(TIGHT)])
        def load(ks, v=None):
            for c in range(0, len(ks), 300 if wide else 60):
                sc.a("bput 1 " + " ".join("%d=%d" % (k, rng.randrange(6) if v is None else v) for k in ks[c:c + (300 if wide else 60)]), 12)
        ks = order(rng, nk, rng.choice(["asc", "rand", "rand", "zig"]))
        part = rng.randrange(nk // 2, nk)
        if wide:
            # more nodes than the buffer of the index holds; later changes touch all of them
            ks = list(range(nk))
            late = rng.sample(ks, 300)
            ks = sorted(set(ks) - set(late)) + late
            part = nk - len(late)
        load(ks[:part])
        if rng.random() < 0.6:
            sc.a(save_cmd(rng.choice(SAVES)))
        live, rest = ks[:part], ks[part:]
        saves = rng.sample(SAVES, len(SAVES))
        for s in range(len(saves) if wide and faults else rng.randrange(2, 4)):
            for _ in range(rng.randrange(0, 8)):
                sc.a("get 1 %d" % rng.randrange(nk))
            # changes all over the tree; the nodes are not written before the save
            ins = [rest.pop() for _ in range(min(len(rest), rng.randrange(12, 24) if wide else rng.randrange(10, 40)))]
            dels = rng.sample(live, min(len(live), rng.randrange(0, 40)))
            if rng.random() < 0.5:
                sc.a("bdel 1 " + " ".join(map(str, dels)), 8) if dels else None
                load(ins)
            else:
                for k in ins:
                    sc.a("put 1 %d %d" % (k, rng.randrange(6)))
                for k in dels:
                    sc.a("del 1 %d" % k)
            gone = set(dels)
            live = [k for k in live if k not in gone] + ins
            if faults:
                sc.a("put 1 %d %d" % (rng.choice(live), rng.randrange(6)))
                if wide:
                    # the first write to the index is the eviction of a chunk while the nodes are written
                    sc.a("fault idx write %d 1 %d" % (1 + s % 5 // 4, rng.choice([5, 28])))
                    sc.a(save_cmd(saves[s]))
                else:
                    sc.a("fault %s write %d %d %d" % (rng.choice(["idx", "idx", "idx", "key", "val", "*"]),
                                                       rng.choice([1, 1, 2, 3, 5, 9]), rng.choice([1, 1, 2, 0]), rng.choice([5, 28])))
                    sc.a(save_cmd(rng.choice(SAVES)))
                sc.a("dirty 1")
                sc.a("fclear")
                if rng.random() < 0.4:
                    sc.dump(1)
                sc.a(save_cmd(rng.choice(SAVES[1:])))
                sc.a("dirty 1")
                sc.a("pimg")
            else:
                if rng.random() < 0.8:
                    sc.a(save_cmd(rng.choice(SAVES)))
                if power:
                    sc.a("pimg")
                if rng.random() < 0.5:
                    sc.a("kimg")
            sc.dump(1)
            if reopen and rng.random() < 0.7:
                sc.a("close")
                sc.a("kimg")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(TIGHT + ["="])))
        sc.iter(1)
        sc.a(rng.choice(["close", "close", "kill"] + (["power"] if faults or power else [])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(["=", TIGHT[0]])))
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P07
def g_faults(rng, n, tag="f", exhaustive=False):
    out = []
    combos = []
    for ext in ("val", "key", "idx", "htx", "*"):
        for op in ("write", "sync", "trunc"):
            for nth in (1, 2, 3, 5):
                combos.append((ext, op, nth))
    for i in range(n):
        nk = sized(rng, [1, 3, 10, 40])
        vst = rng.choice(["short", "mixed", "big"])
        sc = begin("%s%d" % (tag, i), rng, nk=nk, nv=5, vstyle=vst, params=rng.choice(PARAMS[:1] * 3 + PARAMS))
        if rng.random() < 0.6:
            churn(sc, 1, nk)
            if rng.random() < 0.7:
                sc.a(save_cmd(rng.choice(SAVES)))
        for s in range(rng.randrange(1, 4)):
            churn(sc, 1, rng.randrange(1, nk + 2), (5, 3, 0))
            sc.a("put 1 %d %d" % (rng.randrange(nk), rng.randrange(5)))
            what = SAVES[(i + s) % 5]
            ext, op, nth = combos[(i * 7 + s * 13 + rng.randrange(3)) % len(combos)]
            cnt = rng.choice([1, 1, 2, 0])
            sc.a("fault %s %s %d %d %d%s" % (ext, op, nth, cnt, rng.choice([5, 28, 122]),
                                             " short" if op == "write" and rng.random() < 0.3 else ""))
            for _ in range(rng.choice([1, 1, 2])):
                sc.a(save_cmd(what))
            sc.a("dirty 1")
            if cnt != 0 or rng.random() < 0.5:
                sc.a("fclear")
                sc.dump(1)
                if rng.random() < 0.3:
                    sc.iter(1)
                if rng.random() < 0.3:
                    churn(sc, 1, 2)
            else:
                sc.a("fclear")
            w2 = rng.choice(SAVES[1:])
            if rng.random() < 0.3:
                sc.a(save_cmd("flush"))
            sc.a(save_cmd(w2))
            sc.a("dirty 1")
            sc.a("pimg")
            sc.a("kimg")
            sc.dump(1)
        r = rng.random()
        if r < 0.5:
            sc.a("close")
        else:
            sc.a(rng.choice(["kill", "power"]))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % sc.ty)
        sc.dump(1)
        out.append(sc.done())
    return out

def g_fault_grid(rng, tag="F", nths=(1, 2, 3, 4), types="S"):
    """every (save, file, call, n-th call) once: the fault surface of a save"""
    out = []
    i = 0
    for ty in types:
        for what in SAVES:
            for ext in ("val", "key", "idx", "htx"):
                for op in ("write", "sync"):
                    for nth in nths if op == "write" else (1, 2):
                        i += 1
                        sc = begin("%s%d" % (tag, i), rng, ty=ty, nk=12, nv=4, vstyle="mixed", kstyle={"S": "short", "I": "rand", "B": "raw"}[ty])
                        churn(sc, 1, 10, (6, 2, 0))
                        if i % 2:
                            sc.a(save_cmd("sync"))
                            churn(sc, 1, 6, (4, 4, 0))
                        sc.a("put 1 0 1")
                        sc.a("fault %s %s %d %d 5" % (ext, op, nth, 1))
                        sc.a(save_cmd(what))
                        sc.a("dirty 1")
                        sc.dump(1)
                        sc.a("fclear")
                        if i % 3 == 0:
                            sc.a("flush 1 db m")
                        sc.a(save_cmd("dsync" if i % 5 == 0 else "sync"))
                        sc.a("pimg")
                        sc.a("dirty 1")
                        sc.dump(1)
                        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P09, P08, P10, P16, P19
def g_images(rng, n, tag="g", stats=False, htx=False, gran=None, nks=(3, 8, 20, 45), vstyle=None, kst=None, every=None):
    """random histories; the files are decoded after each few operations"""
    out = []
    for i in range(n):
        nk = nks[i % len(nks)]
        st = kst or rng.choice(["size", "short", "fix"])
        ty = rng.choice("SSIB")
        if ty == "B" and st == "fix":
            st = "raw"
        sc = begin("%s%d" % (tag, i), rng, ty=ty, nk=nk, nv=rng.choice([2, 8, 14]),
                   kstyle=None if ty == "I" else st,
                   vstyle=vstyle or ("huge" if i % 7 == 5 else rng.choice(["mixed", "short", "big", "mixed"])))
        sc.a("flush 1 db m")
        sc.img("db", "m", htx)
        if stats:
            sc.a("statsx 1" if htx else "stats 1", 3 + nk // 10)
        steps = 12 + nk // 2
        for s in range(steps):
            g = gran or rng.choice([1, 1, 1, 3, nk])
            churn(sc, 1, g, rng.choice([(5, 3, 0), (3, 6, 0), (8, 2, 0)]))
            if stats and rng.random() < 0.3:
                sc.a("stats 1", 3 + nk // 10)     # with changes not yet flushed
            sc.a("flush 1 db m")
            if rng.random() < 0.08:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % sc.ty)
            sc.img("db", "m", htx)
            if stats:
                sc.a("statsx 1" if htx and rng.random() < 0.3 else "stats 1", 3 + nk // 10)
        sc.dump(1)
        out.append(sc.done())
    return out

def g_lists(rng, n, tag="L"):
    """long lists of free records: a record that fits may lie deep in its list"""
    out = []
    for i in range(n):
        nk = sized(rng, [16, 30, 44])
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "SB"[i % 2]
        base = rng.choice([1030, 1100, 2000]) if i % 5 != 3 else rng.choice([16000, 65300, 130500])
        lens = [base + 128 * j for j in range(14)] + [rng.choice(LENS) for _ in range(4)]
        vals = ["a:%d:%d" % (l, j + 1) for j, l in enumerate(lens)]
        if i % 3 == 0:
            # the keys are large too
            keys = ["r:%d:%d" % (97 + j % 20, base + 128 * (j % 12) + j) for j in range(nk)]
        else:
            keys = sorted_keys(rng, sc.ty, nk)
        sc.universe(keys, vals)
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % sc.ty)
        def look():
            sc.a("flush 1 db m")
            sc.img("db", "m")
        ks = list(range(nk))
        rng.shuffle(ks)
        for k in ks:
            sc.a("put 1 %d %d" % (k, rng.randrange(14)))
        look()
        live = set(ks)
        for s in range(rng.randrange(2, 4)):
            if rng.random() < 0.8:
                for k in rng.sample(sorted(live), len(live) * rng.choice([5, 8, 9]) // 10):
                    sc.a("del 1 %d" % k)
                    live.discard(k)
            else:
                # values which shrink leave their large records
                for k in sorted(live):
                    sc.a("put 1 %d %d" % (k, 14 + rng.randrange(4)))
            look()
            for _ in range(rng.randrange(5, 14)):
                r = rng.random()
                k = rng.randrange(nk)
                # mostly the largest: most free records are too small
                sc.a("put 1 %d %d" % (k, rng.choice([13, 13, 12, 11, rng.randrange(18)])))
                live.add(k)
                if r < 0.2:
                    k = rng.choice(sorted(live))
                    sc.a("del 1 %d" % k)
                    live.discard(k)
                look()
            if rng.random() < 0.3:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % sc.ty)
        sc.dump(1)
        out.append(sc.done())
    return out

def g_cycles(rng, n, tag="c", nks=(5, 20, 60)):
    """the same data inserted and deleted again and again"""
    out = []
    for i in range(n):
        nk = nks[i % len(nks)]
        ty = "SBI"[i % 3]
        vst = ["short", "mixed", "big", "mixed", "huge"][(i // 3) % 5]
        sc = begin("%s%d" % (tag, i), rng, ty=ty, nk=nk, nv=max(2, nk // 2),
                   kstyle={"S": rng.choice(["size", "short"]), "B": rng.choice(["size", "raw"]), "I": "rand"}[ty], vstyle=vst)
        ins = list(range(nk))
        rng.shuffle(ins)
        dele = list(range(nk))
        if rng.random() < 0.5:
            rng.shuffle(dele)
        elif rng.random() < 0.5:
            dele = list(reversed(ins))
        else:
            dele = list(ins)
        keep = nk // rng.choice([3, 100])
        # the tree of an emptied map is one node, of one of eight sizes: after as
        # many cycles they repeat
        for c in range(12):
            for j, k in enumerate(ins):
                sc.a("put 1 %d %d" % (k, j % sc.nv))
            if c == 0:
                sc.a("len db m peak")
            for k in dele[keep:]:
                sc.a("del 1 %d" % k)
            if c == 2 and rng.random() < 0.3:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % sc.ty)
            sc.a("flush 1 db m")
            sc.a("len db m " + ("base" if c < 9 else "cmp"))
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P11, P12, P21
NAMES = ["m", "ma", "m.a", "a", "m.key", "n1", "map"]
# names which are easily taken for each other
ODD = [["m", "m_"], ["m", "m%20"], ["M", "m"], ["m", ".m"], ["m", "m."], ["a.b", "a-b", "a_b"], ["m", "mm"], ["1", "01"],
       ["m.val", "m", "m.htx"], ["x" * 80, "x" * 81], ["x" * 200 + "a", "x" * 200 + "b"], ["\u00e9", "e"], ["m", "m~"], ["m1", "m10", "m2"],
       ["db", "m"], ["m.idx", "m.key", "m.val"], ["ab", "ba"], ["a%20b", "ab"], ["m#", "m"], ["k", "key"]]
def pick_names(rng, n):
    if rng.random() < 0.5:
        return rng.sample(NAMES, min(n, len(NAMES)))
    out = list(rng.choice(ODD))
    for x in rng.sample(NAMES, len(NAMES)) + sum(rng.sample(ODD, 6), []):
        if len(out) < n and x not in out:
            out.append(x)
    return out
class Multi:
    """several databases, maps and handles; keeps track of what is open"""
    def __init__(self, sc, rng, paths, names, same_type_names=False, mem=False):
        self.sc, self.rng, self.paths = sc, rng, paths
        self.mem = mem
        self.types = {}          # (path, name) -> type
        for p in paths:
            for n in names:
                self.types[(p, n)] = sc.ty if same_type_names else rng.choice("SIB")
        self.dbs = {}
        self.hs = {}             # handle -> (path, name)
        self.nd = 0
        self.nh = 0
    def open_db(self, p):
        live = [d for d, q in self.dbs.items() if q == p]
        held = [h for h, (q, _) in self.hs.items() if q == p]
        self.nd += 1
        if live:
            self.sc.a("dclone %d %d" % (self.nd, live[0]))
        elif held:
            return None          # a second independent open of a directory in use
        else:
            self.sc.a("open %d %s" % (self.nd, p))
        self.dbs[self.nd] = p
        return self.nd
    def open_map(self, p, n):
        live = [d for d, q in self.dbs.items() if q == p]
        if not live:
            d = self.open_db(p)
            if d is None:
                return None
        else:
            d = self.rng.choice(live)
        self.nh += 1
        self.sc.a("mapopen %d %d %s %s %s" % (self.nh, d, n, self.types[(p, n)], self.rng.choice(PARAMS)))
        self.hs[self.nh] = (p, n)
        return self.nh
    def clone(self, h):
        self.nh += 1
        self.sc.a("clone %d %d" % (self.nh, h))
        self.hs[self.nh] = self.hs[h]
    def drop(self, h):
        self.sc.a("drop %d" % h)
        del self.hs[h]
    def ddrop(self, d):
        self.sc.a("ddrop %d" % d)
        del self.dbs[d]
    def close(self):
        self.sc.a(self.rng.choice(["close", "close db"]))
        self.dbs, self.hs = {}, {}

def any_universe(rng, nk, ints=True):
    """keys that fit every type: 8 byte strings, so that a map of integers takes them too"""
    out = []
    seen = set()
    while len(out) < nk:
        v = rng.choice([rng.getrandbits(16), rng.getrandbits(48), rng.randrange(50)])
        if v in seen:
            continue
        seen.add(v)
        out.append("u:%d" % v)
    return out

def g_multi(rng, n, tag="m", npaths=2, nnames=3, focus="iso"):
    out = []
    for i in range(n):
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        nk = sized(rng, [2, 4, 8, 20])
        # integer keys are accepted by the maps of every type
        sc.universe(any_universe(rng, nk), uvals(rng, 6, rng.choice(["short", "mixed"])))
        paths = rng.choice([["db", "db2"], ["db", "db.m"], ["db", "Db"], ["a.b", "a"], ["db", "db_"]])[:npaths]
        names = pick_names(rng, nnames)
        m = Multi(sc, rng, paths, names)
        if focus != "handle":
            for (p, nm), t in m.types.items():
                sc.a("map %s %s %s" % (p, nm, t))
        for p in paths:
            for nm in names:
                if focus == "handle" or rng.random() < 0.8:
                    m.open_map(p, nm)
        for _ in range(rng.randrange(15, 50)):
            r = rng.random()
            hs = sorted(m.hs)
            if not hs:
                m.open_map(rng.choice(paths), rng.choice(names))
                continue
            h = rng.choice(hs)
            if r < 0.45:
                churn(sc, h, rng.randrange(1, 4), s_ok=True)
            elif r < 0.55:
                sc.dump(rng.choice(hs))
            elif r < 0.6:
                sc.iter(rng.choice(hs))
            elif r < 0.68:
                m.open_map(rng.choice(paths), rng.choice(names))
            elif r < 0.73:
                m.clone(h)
            elif r < 0.8:
                m.drop(h)
            elif r < 0.83 and m.dbs:
                m.ddrop(rng.choice(sorted(m.dbs)))
            elif r < 0.85:
                m.open_db(rng.choice(paths))
            elif r < 0.91:
                w = rng.choice(SAVES)
                if w.startswith("d"):
                    if m.dbs:
                        d = rng.choice(sorted(m.dbs))
                        sc.a("%s %d %s" % (w, d, m.dbs[d]))
                else:
                    sc.a("%s %d %s %s" % (w, h, m.hs[h][0], m.hs[h][1]))
            elif r < 0.95:
                sc.a("dirty %d" % rng.choice(hs))
            elif r < 0.975:
                if focus != "handle":
                    sc.a(rng.choice(["kimg", "pimg"]), 3 * len(m.types))
            else:
                m.close()
        for h in sorted(m.hs):
            sc.dump(h)
        m.close()
        for p in paths:
            for nm in names:
                h = m.open_map(p, nm)
                sc.dump(h)
                sc.iter(h)
        out.append(sc.done())
    return out

# pairs of names; every one must be another map
NAME_PAIRS = [["m", "M"], ["map", "MAP"], ["m", "m%20"], ["m", "%20m"], ["m", ".m"], ["m", "m."], ["m", "_m"], ["m", "-m"],
              ["m", "m-"], ["m", "mm"], ["1", "01"], ["0", "00"], ["m", "m.key"], ["m", "m.val"], ["m", "m.idx"], ["m", "m.htx"],
              ["m.key", "m.key.key"], ["a.b", "a"], ["a.b", "b"], ["a.b", "a.c"], ["a.b", "a_b"], ["a-b", "a_b"], ["a%20b", "a_b"],
              ["x" * 80, "x" * 81], ["x" * 250 + "a", "x" * 250 + "b"], ["x" * 64 + "a", "x" * 64 + "b"], ["a" + "x" * 32, "b" + "x" * 32],
              ["\u00e9", "e\u0301"], ["\u00e9", "e"], ["\u00c9", "\u00e9"], ["\uff4d", "m"], ["\u0437", "3"], ["ab", "ba"], ["m~", "m"],
              ["m1", "m10"], ["m0", "mO"], ["m+", "m"], ["m%", "m"], ["m#", "m"], ["m@", "m"], ["m:1", "m:2"], ["string", "bytes"],
              ["int", "string"], ["key", "val"], ["idx", "htx"], ["m.db", "m"], ["m.tmp", "m"], ["m.bak", "m"], ["m.1", "m.2"]]
def g_names(rng, n, tag="nm", mem=False):
    """names which are easily taken for each other, of one type or of two"""
    out = []
    for i in range(n):
        pair = list(NAME_PAIRS[i % len(NAME_PAIRS)])
        if i // len(NAME_PAIRS) % 2:
            pair.reverse()
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        sc.universe(any_universe(rng, 4), uvals(rng, 6, "short"))
        ty = "SIB"[(i + i // len(NAME_PAIRS)) % 3]
        tys = [ty, ty if rng.random() < 0.7 else rng.choice("SIB")]
        sc.a("memopen 1 db" if mem else "open 1 db")
        if not mem:
            for nm, t in zip(pair, tys):
                sc.a("map db %s %s" % (nm, t))
        def opn():
            for h in (0, 1):
                sc.a("mapopen %d 1 %s %s %s" % (h + 1, pair[h], tys[h], "=" if mem else rng.choice(PARAMS)))
        # the first map already has entries when the second one is made
        first = rng.random() < 0.5
        if first:
            sc.a("mapopen 1 1 %s %s =" % (pair[0], tys[0]))
            churn(sc, 1, 5, (5, 1, 1))
            if not mem:
                sc.a(rng.choice(["flush 1 db " + pair[0], "sync 1 db " + pair[0], "dsync 1 db", "dirty 1"]))
            sc.a("mapopen 2 1 %s %s =" % (pair[1], tys[1]))
        else:
            opn()
        for _ in range(2):
            for h in (1, 2):
                churn(sc, h, 5, (5, 2, 1))
                sc.dump(3 - h)
                sc.dump(h)
                if not mem:
                    sc.a("dirty %d" % (3 - h))
            # by name again
            x = rng.choice([0, 1])
            sc.a("mapopen 3 1 %s %s =" % (pair[x], tys[x]))
            sc.dump(3)
            churn(sc, 3, 3, (5, 2, 1))
            sc.dump(1)
            sc.dump(2)
            sc.a("drop 3")
            if mem:
                continue
            sc.a("sync 1 db " + pair[0])
            sc.a("dirty 2")
            if rng.random() < 0.5:
                sc.a("pimg", 8)
            sc.a("close")
            sc.a("kimg", 8)
            sc.a("open 1 db")
            if rng.random() < 0.5:
                pair.reverse()
                tys.reverse()
            opn()
            sc.dump(1)
            sc.dump(2)
        if not mem:
            for h in (1, 2):
                sc.iter(h)
        out.append(sc.done())
    return out

def g_dbsync(rng, n, tag="z"):
    out = []
    for i in range(n):
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        nk = sized(rng, [2, 4, 10])
        sc.universe(any_universe(rng, nk), uvals(rng, 6, rng.choice(["short", "mixed"])))
        names = pick_names(rng, rng.choice([1, 2, 3, 4, 5, 7, 10]))
        m = Multi(sc, rng, ["db"], names, same_type_names=rng.random() < 0.3)
        for (p, nm), t in m.types.items():
            sc.a("map %s %s %s" % (p, nm, t))
        for nm in names:
            m.open_map("db", nm)
        for s in range(rng.randrange(2, 6)):
            for _ in range(rng.randrange(1, 6)):
                if not m.hs:
                    m.open_map("db", rng.choice(names))
                h = rng.choice(sorted(m.hs))
                churn(sc, h, rng.randrange(1, 4), (5, 3, 0))
                r = rng.random()
                if r < 0.2:
                    m.clone(h)
                elif r < 0.45 and len(m.hs) > 1:
                    m.drop(h)
                elif r < 0.55:
                    m.open_db("db")
                elif r < 0.65:
                    m.open_map("db", rng.choice(names))
            if not m.dbs:
                m.close()
                for nm in names:
                    m.open_map("db", nm)
            d = rng.choice(sorted(m.dbs))
            if rng.random() < 0.3:
                sc.a("fault %s %s %d %d 5" % (rng.choice(["val", "key", "idx", "htx", "*"]), rng.choice(["write", "sync"]),
                                              rng.choice([1, 1, 2, 4, 7]), rng.choice([1, 1, 0])))
                sc.a("%s %d db" % (rng.choice(["dsync", "dsyncd"]), d))
                sc.a("fclear")
            sc.a("%s %d db" % (rng.choice(["dsync", "dsyncd"]), d))
            for h in sorted(m.hs):
                if rng.random() < 0.6:
                    sc.a("dirty %d" % h)
            sc.a("pimg", 3 * len(names))
            if rng.random() < 0.3:
                sc.a("kimg", 3 * len(names))
            if rng.random() < 0.25:
                sc.a("power")
                m.dbs, m.hs = {}, {}
                for nm in names:
                    sc.dump(m.open_map("db", nm))
        for h in sorted(m.hs):
            sc.dump(h)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P13
def g_types(rng, n, tag="t"):
    out = []
    for i in range(n):
        t1 = "SIB"[i % 3]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        nk = sized(rng, [1, 3, 12])
        sc.universe(any_universe(rng, nk), uvals(rng, 4, "mixed"))
        sc.a("map db m " + t1)
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % t1)
        if rng.random() < 0.4:
            sc.a("mapopen 2 1 n %s =" % rng.choice("SIB"))
            churn(sc, 2, 4)
        if rng.random() < 0.8:
            churn(sc, 1, rng.randrange(1, 3 * nk + 1))
        for s in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < 0.3:
                sc.a(save_cmd(rng.choice(SAVES)))
            others = [t for t in "SIB" if t != t1]
            rng.shuffle(others)
            live = True
            if rng.random() < 0.6:
                sc.a("close")
                sc.a("open 1 db")
                live = False
                if rng.random() < 0.3:
                    sc.a("mapopen 1 1 m %s =" % t1)
                    live = True
            for t in others[:rng.randrange(1, 3)]:
                if not live and rng.random() < 0.5:
                    sc.a("snap db")
                    sc.a("trymap 9 1 m %s %s" % (t, rng.choice(PARAMS)))
                    sc.a("cmp db")
                else:
                    sc.a("trymap 9 1 m %s %s" % (t, rng.choice(PARAMS)))
            if rng.random() < 0.5:
                sc.a("kimg")
            if not live and rng.random() < 0.5:
                sc.a("close")
                sc.a("open 1 db")
            sc.a("mapopen 1 1 m %s =" % t1)
            sc.dump(1)
            sc.iter(1)
            churn(sc, 1, rng.randrange(0, nk + 1))
        sc.a("close")
        sc.a("kimg")
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % t1)
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P14
SIZES = ["S0", "S1", "S100", "S1000", "S1024", "S4095", "S4096", "S5000", "S8192", "S12000", "S65536", "S1000000",
         "P0", "P1", "P5", "P10", "P100", "P333", "P500", "P900", "P999", "P1000", "P1001", "P2000", "P65535", "A"]
def g_params(rng, n, tag="p"):
    out = []
    for i in range(n):
        def prm():
            c = lambda: rng.choice(SIZES)
            r = rng.random()
            if r < 0.25:
                x = SIZES[(i * 3) % len(SIZES)]
                return "k=%s,v=%s,i=%s,h=%s" % (x, x, x, x)
            f = [("k", c()), ("v", c()), ("i", c()), ("h", c())]
            if r < 0.5:
                f = rng.sample(f, rng.randrange(1, 4))
            return ",".join("%s=%s" % x for x in f)
        nk = sized(rng, [3, 20, 80, 200])
        vst = rng.choice(["short", "mixed", "big", "big"])
        kst = rng.choice(["size", "short", "fix"])
        sc = begin("%s%d" % (tag, i), rng, ty=rng.choice("SSBI") , nk=nk, nv=6, vstyle=vst,
                   kstyle=None, params=prm())
        for s in range(rng.randrange(1, 4)):
            churn(sc, 1, rng.randrange(nk, 3 * nk), (6, 3, 1))
            sc.dump(1)
            r = rng.random()
            if r < 0.5:
                sc.a(save_cmd(rng.choice(SAVES)))
                sc.a(rng.choice(["kimg", "pimg"]))
                churn(sc, 1, rng.randrange(0, nk), (4, 4, 1))
            if rng.random() < 0.3:
                sc.a("fill 1 db m")
                sc.dump(1)
            sc.iter(1)
            sc.a("close")
            sc.a("kimg")
            sc.a("open 1 db")
            sc.a("mapopen 1 1 m %s %s" % (sc.ty, prm() if rng.random() < 0.8 else "="))
            if rng.random() < 0.3:
                sc.a("fill 1 db m")
            sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P15
def g_mem(rng, n, tag="e"):
    out = []
    for i in range(n):
        ty = "SBI"[i % 3]
        nk = sized(rng, [1, 3, 8, 20, 50])
        asc = rng.random() < 0.7
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        if ty == "I":
            ks = ukeys(rng, ty, nk, rng.choice(["dense", "edge", "rand"]))
        else:
            ks = ukeys(rng, ty, nk, rng.choice(["raw", "short", "prefix", "raw"]))
        sc.universe(ks, uvals(rng, 6, rng.choice(["short", "mixed"]), asc))
        sc.a("memopen 1 db")
        sc.a("open 2 fdb")
        sc.a("mapopen 1 1 m %s =" % ty)
        sc.a("mapopen 11 2 m %s =" % ty)
        m = [1]
        f = [11]
        nh = 1
        for _ in range(rng.randrange(10, 60)):
            r = rng.random()
            j = rng.randrange(len(m))
            if r < 0.55:
                a = len(sc.l)
                churn(sc, m[j], rng.randrange(1, 4), s_ok=asc)
                for ln in sc.l[a:]:
                    t = ln.split()
                    t[1] = str(f[j])
                    sc.a(" ".join(t))
            elif r < 0.72:
                ln = rng.choice([0, 1, 2, 4, 10])
                kk = [rng.randrange(nk) for _ in range(ln)]
                s = "s" if asc and rng.random() < 0.5 else ""
                op = rng.choice(["bput", "bget", "bdel"])
                a = " ".join(("%d=%d" % (k, rng.randrange(sc.nv))) if op == "bput" else str(k) for k in kk)
                for h in (m[j], f[j]):
                    sc.a("%s%s %d %s" % (op, s, h, a))
            elif r < 0.85:
                sc.dump(m[j])
                sc.dump(f[j])
            elif r < 0.93 and nh < 6:
                nh += 1
                if rng.random() < 0.5:
                    sc.a("clone %d %d" % (nh, m[j]))
                    sc.a("clone %d %d" % (nh + 10, f[j]))
                else:
                    sc.a("mapopen %d 1 m %s =" % (nh, ty))
                    sc.a("mapopen %d 2 m %s =" % (nh + 10, ty))
                m.append(nh)
                f.append(nh + 10)
            elif len(m) > 1:
                sc.a("drop %d" % m.pop(j))
                sc.a("drop %d" % f.pop(j))
        for h in m + f:
            sc.dump(h)
        out.append(sc.done())
    # several maps, also the same name with another type
    for i in range(max(1, n // 4)):
        sc = Sc("%sm%d" % (tag, i), rng)
        sc.ty = "I"
        sc.universe(any_universe(rng, 5), uvals(rng, 5, "short"))
        sc.a("memopen 1 db")
        sc.a("memopen 2 db2")
        hs = []
        for h in range(1, 9):
            sc.a("mapopen %d %d %s %s =" % (h, rng.choice([1, 1, 2]), rng.choice(["a", "ab", "m"]), rng.choice("SIB")))
            hs.append(h)
        for _ in range(30):
            churn(sc, rng.choice(hs), 1)
            if rng.random() < 0.3:
                sc.dump(rng.choice(hs))
        for h in hs:
            sc.dump(h)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P17
def g_reads(rng, n, tag="r"):
    out = []
    for i in range(n):
        nk = sized(rng, [1, 4, 15, 60, 150])
        sc = begin("%s%d" % (tag, i), rng, nk=nk, nv=5, vstyle=rng.choice(["short", "mixed", "big"]))
        sc.a("mapopen 7 1 other S =")
        churn(sc, 1, rng.choice([0, nk, 2 * nk]), (6, 2, 0))
        def reads():
            for _ in range(rng.randrange(1, 8)):
                r = rng.random()
                if r < 0.3:
                    churn(sc, 1, rng.randrange(1, 5), (0, 0, 1))
                elif r < 0.45:
                    sc.a("bget%s 1 %s" % (rng.choice(["", "s"]), " ".join(str(rng.randrange(nk)) for _ in range(rng.randrange(0, 8)))))
                elif r < 0.6:
                    sc.iter(1)
                elif r < 0.7:
                    sc.iter(1, "it:%d" % rng.randrange(nk + 1))
                elif r < 0.8:
                    sc.a("fill 1 db m")
                elif r < 0.9:
                    sc.a(rng.choice(["stats 1", "stats 1", "statsx 1"]), 3 + nk // 10)
                else:
                    sc.dump(1)
                if rng.random() < 0.3:
                    sc.a("dirty 1")
        sc.a("dirty 1")
        reads()
        sc.a("dirty 1")
        sc.dump(1)
        for s in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < 0.45:
                # a map without unsynced changes: nothing is written
                sc.a(save_cmd(rng.choice(["sync", "syncd"])))
                sc.a("sync 7 db other")
                sc.a("dirty 1")
                sc.a("snap db")
                reads()
                sc.a("cmp db")
                sc.a("dirty 1")
            else:
                # a session that only reads
                sc.a("close")
                sc.a("snap db")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s %s" % (sc.ty, rng.choice(PARAMS)))
                if rng.random() < 0.5:
                    sc.a("dirty 1")
                reads()
                if rng.random() < 0.5:
                    sc.a("dirty 1")
                if rng.random() < 0.3:
                    sc.a(save_cmd(rng.choice(SAVES)))
                sc.a("close")
                sc.a("cmp db")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % sc.ty)
                sc.a("mapopen 7 1 other S =")
            sc.dump(1)
            churn(sc, 1, rng.randrange(0, nk), (5, 3, 0))
        out.append(sc.done())
    return out

def g_coll_reads(rng, n, tag="rc"):
    """reads of keys that share slots, of which other keys were deleted"""
    out = []
    for i in range(n):
        ty = "SBI"[i % 3]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(coll_universe(rng, ty, groups=rng.choice([1, 2, 3])), uvals(rng, 5, rng.choice(["short", "mixed"])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        for s in range(rng.randrange(2, 5)):
            for _ in range(rng.randrange(1, 12)):
                churn(sc, 1, 1, (5, 4, 1))
                if rng.random() < 0.2:
                    sc.dump(1)
            how = rng.choice(["sync", "syncd", "close"])
            if how == "close":
                sc.a("close")
                sc.a("snap db")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
            else:
                sc.a(save_cmd(how))
                sc.a("snap db")
            sc.a("dirty 1")
            for _ in range(rng.randrange(1, 4)):
                r = rng.random()
                if r < 0.5:
                    churn(sc, 1, rng.randrange(1, sc.nk), (0, 0, 1))
                elif r < 0.7:
                    sc.a("bget 1 " + " ".join(str(rng.randrange(sc.nk)) for _ in range(sc.nk)))
                else:
                    sc.dump(1)
                sc.a("dirty 1")
            sc.dump(1)
            sc.a("dirty 1")
            if how == "close":
                sc.a("close")
            sc.a("cmp db")
            if how == "close":
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
        out.append(sc.done())
    return out

def slot_universe(rng, ty):
    """keys of the first and of the last hash slot, and others"""
    ks = ["sl:%s:%d:%d" % (ty, e, j) for e in (0, 1) for j in range(3)]
    ks += coll_universe(rng, ty, groups=1, others=2)
    rng.shuffle(ks)
    return ks

def g_slots(rng, n, tag="sl", stats=False):
    """the ends of the hash table"""
    out = []
    for i in range(n):
        ty = "SBI"[i % 3]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(slot_universe(rng, ty), uvals(rng, 5, "short"))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        for s in range(rng.randrange(2, 5)):
            for _ in range(rng.randrange(1, 8)):
                churn(sc, 1, rng.randrange(1, 4), (5, 3, 1))
            sc.dump(1)
            sc.a("flush 1 db m")
            sc.img("db", "m", True)
            if stats:
                sc.a("statsx 1", 5)
            if rng.random() < 0.4:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
                sc.dump(1)
        for k in range(sc.nk):
            sc.a("del 1 %d" % k)
        sc.dump(1)
        sc.a("flush 1 db m")
        sc.img("db", "m", True)
        if stats:
            sc.a("statsx 1", 5)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- walks of MCTree
def g_tree_walks(rng, ws, tag="T", look=("img",), every=1):
    """scripts from walks through the shapes of the index tree"""
    from fractions import Fraction as F
    out = []
    for i, w in enumerate(ws):
        ty = "SIB"[i % 3]
        cur, used, ops = [], [], []
        for op, p, *_ in w:
            if op == "put":
                lo = cur[p - 1] if p > 0 else None
                hi = cur[p] if p < len(cur) else None
                free = [x for x in used if (lo is None or x > lo) and (hi is None or x < hi)]
                if free and rng.random() < 0.6:
                    x = rng.choice(free)
                else:
                    if lo is None and hi is None:
                        x = F(0)
                    elif lo is None:
                        x = hi - 1
                    elif hi is None:
                        x = lo + 1
                    else:
                        x = (lo + hi) / 2
                    if x in used:
                        x = x + F(1, 1 << 40) if x not in cur and (hi is None or x + F(1, 1 << 40) < hi) else x
                    if x not in used:
                        used.append(x)
                cur.insert(p, x)
            else:
                x = cur.pop(p - 1)
            ops.append((op, x))
        rank = {x: j for j, x in enumerate(sorted(used))}
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(sorted_keys(rng, ty, len(rank)), uvals(rng, 4, rng.choice(["short", "mixed"])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        for j, (op, x) in enumerate(ops):
            if op == "put":
                sc.a("put 1 %d %d" % (rank[x], rng.randrange(sc.nv)))
            else:
                sc.a("del 1 %d" % rank[x])
            if j % every == every - 1 or j == len(ops) - 1:
                for lk in look:
                    if lk == "img":
                        sc.a("flush 1 db m")
                        sc.img("db", "m")
                    elif lk == "iter":
                        sc.iter(1)
                    elif lk == "stats":
                        sc.a("stats 1", 4 + len(rank) // 10)
                    else:
                        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- walks of Alloc
VLEN = {16: (1, 8), 24: (9, 16), 32: (17, 24), 1024: (889, 1013), 1152: (1016, 1140), 1280: (1144, 1268)}
def g_alloc_walks(rng, ws, tag="A", fixed=False, look=True):
    """scripts from walks of the model of a record file: values (or keys) of
    the sizes of the walk; the files are decoded after every step"""
    sizes = sorted(VLEN)
    out = []
    for i, w in enumerate(ws):
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty = rng.choice("SB") if fixed else "SBI"[i % 3]
        owners = sorted({a[1] for a in w})
        if fixed:
            sz = {a[1]: a[2] for a in w if a[0] == "put"}
            # a key of 8 bytes more than a value of the same record size
            ks = ["%s:%s" % ("h" if ty == "S" else "x",
                             (bytes([97 + o]) * (rng.randrange(*VLEN[sz.get(o, 16)]) - (8 if sz.get(o, 16) > 16 else 0))).hex() or "61%02x" % (97 + o))
                  for o in owners]
            sc.universe(ks, uvals(rng, 3, "short"))
        else:
            vs, byv = [], {}
            for s in sizes:
                for e in (0, 1):
                    byv.setdefault(s, []).append(len(vs))
                    vs.append("a:%d:%d" % (VLEN[s][e], len(vs) + 1))
            sc.universe(sorted_keys(rng, ty, len(owners)), vs)
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        idx = {o: j for j, o in enumerate(owners)}
        for op, o, s in w:
            if op == "put":
                sc.a("put 1 %d %d" % (idx[o], rng.randrange(sc.nv) if fixed else rng.choice(byv[s])))
            else:
                sc.a("del 1 %d" % idx[o])
            if look:
                sc.a("flush 1 db m")
                sc.img("db", "m")
            if rng.random() < 0.04:
                sc.dump(1)
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- walks of Htx
def g_htx_walks(rng, ws, tag="H", look=("dump",), slots=None):
    """scripts from walks of the model of the hash index.  Key 1 is the empty
    key or any other of its slot"""
    out = []
    for i, w in enumerate(ws):
        ty = "SBI"[i % 3]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        a = [k + 1 for k, s in enumerate(slots) if s == 1]
        b = [k + 1 for k, s in enumerate(slots) if s == 2]
        key = {}
        if ty == "S" and rng.random() < 0.7:
            names = ["h:"] + ["ce:%d" % j for j in range(3)]
        else:
            g = rng.randrange(4)
            names = ["%s:%d:%d" % (COLL[ty], g, j) for j in range(3)]
            if rng.random() < 0.5:
                rng.shuffle(names)
        for k, n in zip(a, names):
            key[k] = n
        g2 = 4 + rng.randrange(8)
        for j, k in enumerate(b):
            key[k] = "%s:%d:%d" % (COLL[ty], g2, j)
        order_ = sorted(key)
        sc.universe([key[k] for k in order_], uvals(rng, 5, rng.choice(["short", "mixed"])))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        idx = {k: j for j, k in enumerate(order_)}
        for op, k, v in w:
            if k not in idx:
                continue
            if op == "put":
                sc.a("put 1 %d %d" % (idx[k], rng.randrange(sc.nv)))
            else:
                sc.a("del 1 %d" % idx[k])
            for lk in look:
                if lk == "img":
                    sc.a("flush 1 db m")
                    sc.img("db", "m", True)
                elif lk == "ro":
                    sc.a("sync 1 db m")
                    sc.a("dirty 1")
                    sc.a("snap db")
                    sc.dump(1)
                    sc.a("dirty 1")
                    sc.a("cmp db")
                else:
                    sc.dump(1)
            if rng.random() < 0.04:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s =" % ty)
        sc.iter(1)
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- walks of Storage
GROW = [3, 40, 130, 400, 900, 1500, 3000, 5000]
def g_storage_walks(rng, ws, tag="Y", nm=1, look=("dirty", "kimg", "pimg")):
    """scripts from walks of the model of the buffers and saves of a map"""
    out = []
    for i, w in enumerate(ws):
        sc = Sc("%s%d" % (tag, i), rng)
        ty = "SIB"[i % 3]
        sc.ty = "I"
        pre = rng.choice([0, 0, 3, 30])
        keys = any_universe(rng, 2 + pre)
        vals = []
        for ln in GROW:
            for _ in range(2):
                vals.append("a:%d:%d" % (ln, len(vals) + 1))
        if i % 3 == 1:
            vals[0] = "a:0:1"       # the empty value
        sc.universe(keys, vals)
        names = rng.sample(NAMES, nm)
        tys = [ty] + [rng.choice("SIB") for _ in range(nm - 1)]
        order_ = {"B": 0, "I": 1, "S": 2}
        if nm == 2:        # the order in which a database sync visits them
            ms = sorted(zip(tys, names), key=lambda x: (order_[x[0]], x[1]))
            tys, names = [m[0] for m in ms], [m[1] for m in ms]
        prm = rng.choice(PARAMS[:2] * 2 + PARAMS)
        def opn():
            sc.a("open 1 db")
            for m in range(nm):
                sc.a("mapopen %d 1 %s %s %s" % (m + 1, names[m], tys[m], prm))
        opn()
        for m in range(nm):
            sc.a("map db %s %s" % (names[m], tys[m]))
        if pre:
            for m in range(nm):
                for k in range(2, 2 + pre):
                    sc.a("put %d %d %d" % (m + 1, k, rng.randrange(10)))
            sc.a("dsync 1 db")
        size = [0] * nm
        def put(m, lv):
            size[m] = lv
            sc.a("put%s %d 0 %d" % (rng.choice(["", "s", "k", "c"]), m + 1, 2 * lv + rng.randrange(2)))
        for a in w:
            op = a[0]
            m = a[1] - 1 if len(a) > 1 and a[1] else 0
            if op == "new":
                put(m, rng.choice([0, 0, 0, 2]))
            elif op == "upd":
                put(m, size[m])
            elif op == "grow":
                put(m, min(size[m] + 1, len(GROW) - 1))
            elif op == "del":
                sc.a("del%s %d 0" % (rng.choice(["", "s", "k", "c"]), m + 1))
            elif op == "miss":
                sc.a("get %d 1" % (m + 1))
            elif op == "ask":
                sc.a("dirty %d" % (m + 1))
            elif op in ("flush", "sync", "dsync"):
                if a[2]:
                    sc.a("fault %s %s 1 1 %d" % (a[2], a[3], rng.choice([5, 28])))
                if op == "sync":
                    op = rng.choice(["sync", "syncd"])
                if op == "dsync":
                    op = rng.choice(["dsync", "dsyncd"])
                sc.a("%s %d db%s" % (op, 1 if op[0] == "d" else m + 1, "" if op[0] == "d" else " " + names[m]))
                if a[2]:
                    sc.a("fclear")
            elif op == "reopen":
                sc.a(rng.choice(["close", "close db"]))
                opn()
            elif op in ("kill", "power"):
                sc.a(op)
                opn()
            r = rng.random()
            for lk in look:
                if lk == "dirty":
                    if r < 0.5:
                        sc.a("dirty %d" % (1 + rng.randrange(nm)))
                elif rng.random() < 0.6:
                    sc.a(lk)
            if r < 0.3:
                sc.dump(1 + rng.randrange(nm))
        for m in range(nm):
            sc.dump(m + 1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P18
BIG = [4000, 4079, 4080, 4088, 4096, 8184, 8192, 10000, 16384, 65519, 65535, 65536, 70000, 131072, 300000]
HUGE = [(1 << 20) - 16, 1 << 20, (1 << 20) + 5, (1 << 21) + 1, 3000000, (1 << 24) - 8, (1 << 24) + 9]
def g_bytes(rng, n, tag="x", huge=False):
    out = []
    for i in range(n):
        ty = "SBSBI"[i % 5]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        if ty == "I":
            ks = ukeys(rng, ty, rng.choice([5, 20, 30]), rng.choice(["edge", "edge", "rand"]))
        else:
            seen = set()
            ks = []
            base = [b"", b"\0", b"\0\0", b"\xff", b"\xff\xff", b"a", b"a\0", b"a\0\0", b"a\xff", b"ab", b"aa",
                    b"\x7f", b"\x80", b"\xc3\xa9", b"\xed\xa0\x80"]
            for b in rng.sample(base, rng.randrange(3, len(base))):
                seen.add(b)
            for _ in range(rng.randrange(1, 12)):
                ln = rng.choice(LENS)
                seen.add(bytes([rng.choice([0, 97, 255, 98])]) * ln)
                seen.add(bytes(rng.getrandbits(8) if rng.random() < 0.5 else 97 for _ in range(ln)))
            ks = [("x:" if ty == "B" or not utf8(b) or rng.random() < 0.2 else "h:") + b.hex() for b in sorted(seen)]
            for _ in range(rng.choice([0, 1, 2])):
                ks.append("r:%d:%d" % (rng.choice([98, 99, 100]), rng.choice(BIG[:11]) + rng.randrange(3)))
            ks = list(dict.fromkeys(ks))
            rng.shuffle(ks)
        vs = uvals(rng, 4, "mixed", False) + ["a:0", "z:%d" % rng.choice(LENS[1:]), "f:%d" % rng.choice(LENS[1:]), "z:1", "f:1"]
        for _ in range(rng.choice([1, 2, 3])):
            vs.append("b:%d:%d" % (rng.choice(BIG) + rng.randrange(-1, 2), rng.randrange(1000)))
        if i % 8 == 3:
            vs.append("b:%d:%d" % (rng.choice(HUGE[:-2] if i % 16 == 3 else HUGE), rng.randrange(1000)))
        if i % 16 == 11 and ty != "I":
            ks.append("r:%d:%d" % (rng.choice([1, 101]), rng.choice(HUGE[:-2])))
        sc.universe(ks, vs)
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        sc.a("map db m " + ty)
        ids = list(range(sc.nk))
        rng.shuffle(ids)
        for k in ids:
            sc.a("put%s 1 %d %d" % (rng.choice(["", "k", "c"]), k, rng.randrange(sc.nv)))
        sc.dump(1)
        churn(sc, 1, sc.nk * 2, (6, 2, 1), s_ok=False)
        sc.iter(1)
        r = rng.random()
        if r < 0.6:
            sc.a("close")
            sc.a("kimg")
            sc.a("open 1 db")
            sc.a("mapopen 1 1 m %s =" % ty)
        sc.dump(1)
        churn(sc, 1, sc.nk, (6, 2, 1), s_ok=False)
        sc.dump(1)
        sc.iter(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- P20
def g_create(rng, n, tag="k"):
    out = []
    for i in range(n):
        ty = "SIB"[i % 3]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        sc.universe(any_universe(rng, 4), uvals(rng, 3, "short"))
        prm = (["=", "-"] + PARAMS)[(i // 3) % (2 + len(PARAMS))]
        sc.a("open 1 db")
        if i % 2:
            t2 = rng.choice("SIB")
            sc.a("mapopen 2 1 old %s =" % t2)
            sc.a("map db old " + t2)
            churn(sc, 2, 6, (6, 1, 0))
            sc.a(rng.choice(["flush 2 db old", "sync 2 db old"]))
            if rng.random() < 0.5:
                sc.a("close")
                sc.a("open 1 db")
            if rng.random() < 0.3:
                sc.a("mapopen 2 1 old %s =" % t2)
        sc.a("map db m " + ty)
        # several kills one after another, each at some point of the opening
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if i >= 3 else 0):
            sc.a("mkcrash 1 1 db m %s %s %d" % (ty, rng.choice([prm] + PARAMS), rng.randrange(1000)), 150)
            sc.a("open 1 db")
        sc.a("mkcrash 1 1 db m %s %s" % (ty, prm), 150)
        sc.dump(1)
        churn(sc, 1, 6)
        sc.dump(1)
        out.append(sc.done())
    return out

def g_session_walks(rng, ws, tag="U", nkeys=1, look=("dump",), often=0.6, mem=False):
    """scripts from walks of the state graphs of MCSession"""
    out = []
    for i, w in enumerate(ws):
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        keys = any_universe(rng, nkeys)
        vals = uvals(rng, 4, rng.choice(["short", "mixed", "big"]))
        sc.universe(keys, vals)
        names = dict(zip("ab", rng.sample(NAMES, 2)))
        perm = rng.sample("SIB", 3)
        types = dict(zip("SIB", perm))
        perm = rng.sample(range(nkeys), nkeys)
        told = set()
        hs, dbs = {}, set()
        def shown():
            for lk in look:
                if lk == "dump":
                    for h in sorted(hs):
                        sc.a("dump %d" % h)
                elif lk == "iter" and hs:
                    sc.iter(rng.choice(sorted(hs)))
                elif lk == "dirty":
                    for h in sorted(hs):
                        sc.a("dirty %d" % h)
                elif lk in ("kimg", "pimg") and rng.random() < 0.5:
                    sc.a(lk)
        for a in w:
            op = a[0]
            if op == "opendb":
                sc.a("%s %d db" % ("memopen" if mem else "open", a[1]))
            elif op == "clonedb":
                sc.a("dclone %d %d" % (a[1], a[2]))
            elif op == "dropdb":
                sc.a("ddrop %d" % a[1])
            elif op in ("open", "touch", "refuse"):
                d, n, t = a[-3:]
                nm, ty = names[n], types[t]
                if op != "refuse" and n not in told and not mem:
                    told.add(n)
                    sc.a("map db %s %s" % (nm, ty))
                if op == "open":
                    hs[a[1]] = (n, t)
                    sc.a("mapopen %d %d %s %s %s" % (a[1], d, nm, ty, rng.choice(PARAMS)))
                else:
                    sc.a("trymap 99 %d %s %s %s" % (d, nm, ty, rng.choice(PARAMS)))
            elif op == "clone":
                hs[a[1]] = hs[a[2]]
                sc.a("clone %d %d" % (a[1], a[2]))
            elif op == "drop":
                del hs[a[1]]
                sc.a("drop %d" % a[1])
            elif op == "put":
                sc.a("put%s %d %d %d" % (rng.choice(["", "s", "k", "c"]), a[1], perm[a[2] - 1], 2 * (a[3] - 1) + rng.randrange(2)))
            elif op == "del":
                sc.a("del%s %d %d" % (rng.choice(["", "s", "k", "c"]), a[1], perm[a[2] - 1]))
            elif op in ("flush", "sync"):
                if op == "sync":
                    op = rng.choice(["sync", "syncd"])
                sc.a("%s %d db %s" % (op, a[1], names[hs[a[1]][0]]))
            elif op == "dsync":
                sc.a("%s %d db" % (rng.choice(["dsync", "dsyncd"]), a[1]))
            elif op == "close":
                hs = {}
                sc.a(rng.choice(["close", "close db"]))
            elif op in ("kill", "power"):
                hs = {}
                sc.a(op)
            if rng.random() < often:
                shown()
        shown()
        out.append(sc.done())
    return out

def g_fixtures(rng, n, tag="X", small=False, fixdir=None):
    """databases written by the pinned release"""
    import json, os
    out = []
    pre = "small" if small else "default"
    fs = sorted(x for x in os.listdir(fixdir) if x.startswith(pre))
    for i in range(n):
        f = fs[i % len(fs)]
        with open(os.path.join(fixdir, f)) as fh:
            fx = json.load(fh)
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = "I"
        keys = fx["keys"].split(" ") + ["u:%d" % (rng.getrandbits(50) | (1 << 49)) for _ in range(6)]
        vals = fx["vals"].split(" ")
        keys = list(dict.fromkeys(keys))
        sc.universe(keys, vals + ["b:%d:%d" % (x, 1000 + x) for x in (1500, 3000)])
        sc.a("fixture db @FIX@/%s" % f[:-5])
        for nm, ty, kv in fx["maps"]:
            sc.a("map db %s %s" % (nm, ty))
            sc.a("known db %s %s %s" % (nm, ty, kv))
        for nm, ty, kv in fx["maps"]:
            sc.a("image db %s htx" % nm, 4 + sc.nk // 2)
        sc.a("snap db")
        for s in range(rng.randrange(1, 3)):
            sc.a("open 1 db")
            for h, (nm, ty, kv) in enumerate(fx["maps"]):
                sc.a("mapopen %d 1 %s %s %s" % (h + 1, nm, ty, rng.choice(PARAMS)))
                sc.dump(h + 1)
                sc.iter(h + 1)
            if s == 0:
                sc.a("cmp db")
            m = len(fx["maps"])
            if s > 0 or rng.random() < 0.8:
                for h in range(m):
                    churn(sc, h + 1, rng.randrange(1, sc.nk + 10), rng.choice([(5, 3, 2), (2, 5, 1)]), s_ok=False)
                    sc.dump(h + 1)
                    sc.a(rng.choice(["sync", "flush"]) + " %d db %s" % (h + 1, fx["maps"][h][0]))
                    sc.a("image db %s htx" % fx["maps"][h][0], 4 + sc.nk // 2)
            sc.a("close")
            sc.a("kimg")
        out.append(sc.done())
    return out

def g_bulk_walks(rng, ws, tag="V", mem=False):
    """every slice of the model on every content"""
    out = []
    for i, w in enumerate(ws):
        sc = Sc("%s%d" % (tag, i), rng)
        ty = sc.ty = "SIB"[i % 3]
        keys = ukeys(rng, ty, 3, {"S": rng.choice(["short", "seq"]), "B": rng.choice(["raw", "prefix"]), "I": "rand"}[ty])
        sc.universe(keys, uvals(rng, 4, rng.choice(["short", "mixed"]), True))
        perm = rng.sample(range(3), 3)
        sc.a("memopen 1 db" if mem else "open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        for a in w:
            s = rng.choice(["", "s"])
            ks = [perm[k - 1] for k in a[1]]
            if a[0] == "bput":
                sc.a("bput%s 1 %s" % (s, " ".join("%d=%d" % (k, 2 * (v - 1) + rng.randrange(2)) for k, v in zip(ks, a[2]))))
            else:
                sc.a("%s%s 1 %s" % (a[0], s, " ".join(map(str, ks))))
            if a[0] != "bget" and rng.random() < 0.5:
                sc.dump(1)
        sc.dump(1)
        out.append(sc.done())
    return out

# ---------------------------------------------------------------- other builds of the crate
def g_mix(rng, n, tag="mix", htx=True):
    """some of everything; n: the size"""
    out = []
    def some(f, k, name, **kw):
        k = int(k * n) + (rng.random() < (k * n) % 1)
        if k:
            out.extend(f(rng, k, tag=tag + name, **kw))
    some(g_dict, 5, "d")
    some(g_ordered, 2, "o", nks=rng.choice([[9, 77], [150, 20], [300, 5]]), every=11)
    some(g_ordered, 1, "oi", nks=[rng.choice([30, 65, 140])], every=5, it=True)
    some(g_iter, 4, "i")
    some(g_bulk, 3, "b")
    some(g_sessions, 5, "s")
    some(g_durable, 6, "y")
    some(g_faults, 4, "f")
    some(g_bytes, 3, "x")
    some(g_multi, 3, "m")
    some(g_multi, 2, "h", npaths=1, nnames=2, focus="handle")
    some(g_dbsync, 2, "z")
    some(g_params, 3, "p")
    some(g_reads, 3, "r")
    some(g_types, 1, "t")
    some(g_evict, 1, "e", power=True, reopen=True)
    some(g_wide, 0.25, "w")
    some(g_create, 0.5, "k")
    if htx:
        some(g_coll, 4, "hc")
        some(g_coll_reads, 2, "hr")
        some(g_displaced, 2, "hd")
    return out

# ---------------------------------------------------------------- P23
ERRNOS = [5, 5, 5, 12, 75, 11, 28]
def g_rfault(rng, n, tag="rf", what="read", image=True):
    """operations while reads of the files fail, or writes of full buffers"""
    out = []
    for i in range(n):
        big = i % 3 == 2
        nk = rng.choice([350, 600]) if big else sized(rng, [2, 10, 40, 120])
        ty = "SIB"[i % 3] if not big else "SIB"[(i // 3) % 3]
        sc = begin("%s%d" % (tag, i), rng, ty=ty, nk=nk, nv=5, vstyle=rng.choice(["short", "mixed", "big"] if not big else ["short", "mixed"]),
                   kstyle={"S": "seq", "I": "dense", "B": "raw"}[ty] if big and rng.random() < 0.6 else None,
                   params=rng.choice(TIGHT) if big else rng.choice(PARAMS + TIGHT))
        ks = order(rng, nk, rng.choice(["asc", "rand", "zig"]))
        live = ks[:rng.randrange(nk // 2, nk) + 1]
        for c in range(0, len(live), 60):
            sc.a("bput 1 " + " ".join("%d=%d" % (k, rng.randrange(5)) for k in live[c:c + 60]), 12)
        churn(sc, 1, rng.randrange(6))
        if rng.random() < 0.6:
            sc.a(save_cmd(rng.choice(SAVES)))
        for s in range(rng.randrange(1, 4)):
            fresh = rng.random() < 0.6
            at_open = fresh and rng.random() < 0.3
            def arm(at=None):
                ext = rng.choice(["val", "key", "idx", "htx", "*", "*"])
                cnt = rng.choice([0, 0, 1, 1, 2])
                op = what if what != "both" else rng.choice(["read", "write"])
                sc.a("fault %s %s %d %d %d%s" % (ext, op, at or rng.choice([1, 1, 1, 2, 3, 5]), cnt, rng.choice(ERRNOS),
                                                 " short" if op == "write" and rng.random() < 0.3 else ""))
            if fresh:
                # nothing of the files is in memory
                sc.a(rng.choice(["close", "close", "close db"]))
                sc.a("open 1 db")
                prm = rng.choice(TIGHT) if big else rng.choice(PARAMS + TIGHT)
                if at_open:
                    arm()
                    for _ in range(rng.choice([1, 2])):
                        sc.a("rd trymap 1 1 m %s %s" % (ty, prm))
                    if rng.random() < 0.7:
                        sc.a("fclear")
                        at_open = False
                    else:
                        sc.a("fclear")
                sc.a("mapopen 1 1 m %s %s" % (ty, prm))
            if rng.random() < 0.5:
                sc.a("snap db")
            if not fresh or rng.random() < 0.3:
                churn(sc, 1, rng.randrange(1, 30), (5, 3, 1))
            for w in range(rng.choice([1, 1, 2, 4])):
                arm()
                for _ in range(rng.choice([1, 2, 4, 12] + [30] * big)):
                    r = rng.random()
                    k = rng.randrange(nk)
                    if r < 0.6:
                        sc.a("rd get%s 1 %d" % (forms(rng, ty), k))
                    elif r < 0.75:
                        sc.a("rd bget 1 " + " ".join(map(str, rng.sample(range(nk), min(nk, rng.randrange(1, 12))))))
                    elif r < 0.9:
                        f = rng.choice(["it", "im", "ri", "rm", "in"])
                        sc.a("rd iter 1 " + f + (":%d" % rng.randrange(1, nk + 1) if rng.random() < 0.4 else ""), 1 + nk // 20)
                    elif r < 0.95:
                        sc.a("rd dump 1", 1 + nk // 40)
                    else:
                        sc.a("rd fill 1")
                sc.a("fclear")
                if rng.random() < 0.3:
                    sc.dump(1)
                if rng.random() < 0.3:
                    sc.a("dirty 1")
            sc.dump(1)
            sc.iter(1)
            sc.a("dirty 1")
            sc.a("cmp db")
            if rng.random() < 0.5:
                churn(sc, 1, rng.randrange(1, 10), (5, 3, 1))
                sc.dump(1)
            if rng.random() < 0.6:
                sc.a(save_cmd(rng.choice(SAVES)))
                sc.a(rng.choice(["kimg", "pimg"]))
            if rng.random() < 0.3 and image:
                sc.img("db", "m")
        if rng.random() < 0.5:
            # a change which fails says so
            if rng.random() < 0.5:
                sc.a("close")
                sc.a("open 1 db")
                sc.a("mapopen 1 1 m %s %s" % (ty, rng.choice(TIGHT)))
            arm()
            for _ in range(rng.choice([1, 3, 20])):
                k = rng.randrange(nk)
                r = rng.random()
                sc.a("rd put 1 %d %d" % (k, rng.randrange(5)) if r < 0.5 else "rd del 1 %d" % k if r < 0.8 else
                     "rd bput 1 %d=0 %d=1" % (k, rng.randrange(nk)) if r < 0.9 else "rd bdel 1 %d %d" % (k, rng.randrange(nk)))
            sc.a("fclear")
            sc.dump(1)
        out.append(sc.done())
    return out

def g_noise(rng, n, tag="nz"):
    """the system reads and writes parts, or is interrupted: that is no failure"""
    out = []
    src = []
    def some(f, k, name, **kw):
        src.extend(f(rng, max(1, int(k * n / 10)), tag=tag + name, **kw))
    some(g_durable, 3, "y")
    some(g_sessions, 2, "s")
    some(g_bytes, 2, "x")
    some(g_evict, 1, "e", power=True, reopen=True)
    some(g_iter, 2, "i")
    for i, s in enumerate(src):
        at = s.lines.index("uni") + 1
        ls = list(s.lines)
        noise = "fault * %s 1 0 %s" % (("write", "read")[i % 2], ("0 short", "4")[i // 2 % 2])
        ls.insert(at, noise)
        out.append(Scenario(s.id, ls, s.weight))
    return out

def g_rfault_wide(rng, n, tag="rw"):
    """more nodes than any cache holds; full caches and buffers cannot be written during reads"""
    out = []
    for i in range(n):
        nk = 7000
        ty = "SI"[i % 2]
        sc = Sc("%s%d" % (tag, i), rng)
        sc.ty = ty
        sc.universe(sorted_keys(rng, ty, nk), uvals(rng, 6, "short"))
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s i=P1" % ty)
        sc.a("map db m " + ty)
        ks = list(range(nk))
        late = rng.sample(ks, 400)
        first = sorted(set(ks) - set(late))
        for c in range(0, len(first), 300):
            sc.a("bput 1 " + " ".join("%d=%d" % (k, rng.randrange(6)) for k in first[c:c + 300]), 12)
        sc.a(save_cmd("sync"))
        for s in range(3):
            for c in [late.pop() for _ in range(40)]:
                sc.a("put 1 %d %d" % (c, rng.randrange(6)))
            for c in rng.sample(first, 40):
                sc.a("del 1 %d" % c)
            sc.a("fault idx write %d %d 5" % (rng.choice([1, 1, 2]), rng.choice([0, 1, 2])))
            for _ in range(40):
                r = rng.random()
                if r < 0.7:
                    # absent keys are looked for in the tree
                    sc.a("rd get 1 %d" % rng.choice(late if rng.random() < 0.6 else ks))
                elif r < 0.9:
                    sc.a("rd iter 1 it:%d" % rng.randrange(1, 3000), 30)
                else:
                    sc.a("rd bget 1 " + " ".join(map(str, rng.sample(late, 8))))
            sc.a("fclear")
            sc.dump(1)
            sc.iter(1)
            sc.a(save_cmd(rng.choice(SAVES)))
            sc.a("kimg")
        sc.a("close")
        sc.a("open 1 db")
        sc.a("mapopen 1 1 m %s =" % ty)
        sc.dump(1)
        out.append(sc.done())
    return out
