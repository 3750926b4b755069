#!/usr/bin/env python3
"""Writes fixtures/: databases written by the pinned release (the base commit of
/repo), with the content they have.  Run once; the checks only read the result.

usage: mkfixtures.py <worktree of the base commit>"""
import base64, json, os, random, shutil, subprocess, sys, tempfile, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, gens

OUT = os.path.join(lib.ROOT, "fixtures")

def pack(path):
    """non zero 64 byte blocks of a file, compressed"""
    runs = []
    with open(path, "rb") as f:
        n = 0
        while True:
            b = f.read(1 << 20)
            if not b:
                break
            if b.count(0) != len(b):
                for i in range(0, len(b), 64):
                    c = b[i:i + 64]
                    if c.count(0) != len(c):
                        if runs and runs[-1][0] + len(runs[-1][1]) == n + i:
                            runs[-1][1] += c
                        else:
                            runs.append([n + i, bytearray(c)])
            n += len(b)
    raw = b"".join(bytes(r[1]) for r in runs)
    idx = " ".join("%d:%d" % (r[0], len(r[1])) for r in runs)
    return {"len": n, "runs": base64.b64encode(zlib.compress(idx.encode(), 9)).decode(),
            "data": base64.b64encode(zlib.compress(raw, 9)).decode()}

def scenario(i, rng):
    """one or two maps; values stay below what the release mishandles"""
    sc = gens.Sc("f%d" % i, rng)
    kind = ["one", "few", "many", "churn", "two", "empty"][(i // 3) % 6]
    ty = "SIB"[i % 3]
    nk = {"one": 1, "few": 9, "many": 330, "churn": 200, "two": 30, "empty": 2}[kind]
    style = {"S": rng.choice(["short", "prefix", "size"]), "B": rng.choice(["raw", "prefix", "size"]), "I": "edge"}[ty]
    if kind == "two":
        keys = ["u:%d" % rng.getrandbits(40) for _ in range(nk)]
    else:
        # (large records are mishandled by the release when they are reused)
        keys = [k for k in gens.ukeys(rng, ty, nk, style) if ty == "I" or len(k) < 1900]
        nk = len(keys)
    sizes = [0, 1, 7, 8, 9, 15, 16, 23, 24, 40, 56, 72, 88, 100, 119, 120, 121, 200, 247, 248, 249, 300, 376, 500, 632, 700, 800, 888, 889, 1000]
    vals = ["b:%d:%d" % (n, j + 1) for j, n in enumerate(sizes) if n > 2] + ["b:0:1", "z:3", "f:2"]
    sc.universe(keys, vals)
    maps = [("m", ty)] if kind != "two" else [("m", ty), ("m.2", "SIB"[(i + 1) % 3]), ("a", "SIB"[(i + 2) % 3])]
    sc.a("open 1 db")
    content = []
    for h, (n, t) in enumerate(maps):
        sc.a("mapopen %d 1 %s %s -" % (h + 1, n, t))
        c = {}
        def put(k):
            v = rng.randrange(sc.nv)
            c[k] = v
            sc.a("put %d %d %d" % (h + 1, k, v))
        if kind != "empty":
            for k in rng.sample(range(nk), nk):
                put(k)
        if kind in ("churn", "two", "few"):
            for _ in range(3 * nk):
                k = rng.randrange(nk)
                if rng.random() < 0.6:
                    if k in c:
                        sc.a("del %d %d" % (h + 1, k))
                        del c[k]
                else:
                    put(k)
        sc.a("dump %d" % (h + 1))
        sc.a("sync %d db %s" % (h + 1, n))
        content.append((n, t, c))
    sc.a("close")
    # the release itself reads it back
    sc.a("open 1 db")
    for h, (n, t) in enumerate(maps):
        sc.a("mapopen %d 1 %s %s -" % (h + 1, n, t))
        sc.a("dump %d" % (h + 1))
        if kind != "empty":
            sc.a("iter %d it" % (h + 1))
    sc.a("close")
    sc.a("save db @SAVE@")
    return sc, keys, vals, content

def main():
    base = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="mkfix.", dir="/tmp")
    os.makedirs(OUT, exist_ok=True)
    h = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(lib.ROOT, "harness"), h)
    p = os.path.join(h, "Cargo.toml")
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % base)
    open(p, "w").write(s)
    for small in (False, True):
        env = lib.cargo_env("x")
        env["CARGO_TARGET_DIR"] = os.path.join(tmp, "t%d" % small)
        subprocess.check_call(["cargo", "build", "--offline", "--quiet"] + (["--features", "small"] if small else []), cwd=h, env=env)
        binary = os.path.join(tmp, "t%d" % small, "debug", "sdb-harness")
        for i in range(18):
            sc, keys, vals, content = scenario(i, random.Random("fix%d%s" % (i, small)))
            save = os.path.join(tmp, "save")
            sc.l = [x.replace("@SAVE@", save) for x in sc.l]
            ev = lib.run_harness(binary, [sc.done()], tmp, "f", 60)
            viol, _ = lib.validate(ev, ["res", "panic", "open", "iter"], tmp, "f")
            assert not viol, (i, viol)
            files = {x: pack(os.path.join(save, x)) for x in sorted(os.listdir(save))}
            with open(os.path.join(OUT, "%s%02d.json" % ("small" if small else "default", i)), "w") as f:
                json.dump({"keys": " ".join(keys), "vals": " ".join(vals),
                           "maps": [[n, t, " ".join("%d=%d" % kv for kv in sorted(c.items()))] for n, t, c in content],
                           "files": files}, f, indent=0)
            shutil.rmtree(save)
            print(small, i, {k: v["len"] for k, v in files.items()})
    shutil.rmtree(tmp)

main()
