"""What each check explores: models, scenario batches and the tags it judges."""
import os, random
import lib, gens, walks
from gens import *

ASSUMPTIONS = [
    "the events recorded by harness/ are what the crate returned and wrote (interposed C library calls)",
    "storage after a power loss is, per file, its content at the last successful fsync/fdatasync",
    "TLC and the community modules evaluate the specification correctly",
]

class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.samples = []
        self.extra = {}
        self.graphs = {}
        self.cover = {}
    def rng(self, name):
        return random.Random("%s/%s/%s" % (self.pid, name, self.seed))
    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

FIXTURES = os.path.join(lib.ROOT, "fixtures")
def prepare_fixtures(scratch):
    """the databases of the pinned release, as files in the scratch directory"""
    import base64, json, zlib
    for f in os.listdir(FIXTURES):
        d = os.path.join(scratch, "fix", f[:-5])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(FIXTURES, f)) as fh:
            fx = json.load(fh)
        for name, x in fx["files"].items():
            raw = zlib.decompress(base64.b64decode(x["data"]))
            runs = zlib.decompress(base64.b64decode(x["runs"])).decode().split()
            with open(os.path.join(d, name), "wb") as out:
                at = 0
                for r in runs:
                    off, n = map(int, r.split(":"))
                    out.seek(off)
                    out.write(raw[at:at + n])
                    at += n
                out.truncate(x["len"])
def fixtures(small):
    def f(ctx):
        if not os.path.isdir(os.path.join(ctx.scratch, "fix")):
            prepare_fixtures(ctx.scratch)
        tag = "fixs" if small else "fix"
        return g_fixtures(ctx.rng(tag), ctx.n(18, 180), tag=tag, small=small, fixdir=FIXTURES)
    return ("fixs" if small else "fix", f, {"variants": ["small" if small else "default"]})

def mc_db(ctx):
    return lib.model_check("SiameseDb", "MCSiameseDb.tla",
                           "MCSiameseDb.cfg", ctx.scratch, workers=1)

TREE_INV = dict(invariants=["TreeInv"], properties=["Effect", "EffectCount"])
def mc_tree_keys(ctx):
    """all trees over a set of keys (nodes of at most 3 keys; thorough: also of at most 5)"""
    c = {"MaxK": 4, "Half": 2, "NK": 10, "Mode": '"keys"', "Bug": '"none"'}
    if ctx.tier != "quick":
        c = {"MaxK": 6, "Half": 3, "NK": 14, "Mode": '"keys"', "Bug": '"none"'}
    return walks.explore("MCTree-keys", "MCTree.tla", ctx.scratch, c, log=False, **TREE_INV)[0]
def mc_tree_shape(ctx):
    """all shapes of the tree with the small nodes of the crate"""
    c = {"MaxK": 6, "Half": 3, "NK": ctx.n(21, 24), "Mode": '"shape"', "Bug": '"none"'}
    st, ctx.graphs["tree"] = walks.explore("MCTree-shapes", "MCTree.tla", ctx.scratch, c, **TREE_INV)
    return st
mc_tree_shape.graph = True

ALLOC_INV = dict(invariants=["Accounted"], properties=["GrowsOnlyIfNeeded", "SizesStay"], constraint=["Small"])
def mc_alloc(ctx):
    """a record file with values of five sizes, three owners"""
    c = {"Owners": "{1,2,3}", "Sizes": "{16,1024,1152,1280}" if ctx.tier == "quick" else "{16,24,1024,1152,1280}",
         "Large": 1024, "Fixed": "FALSE", "MaxRecs": ctx.n(4, 5), "Bug": '"none"'}
    return walks.explore("Alloc", "Alloc.tla", ctx.scratch, c, log=False, **ALLOC_INV)[0]
def mc_alloc_val(ctx):
    c = {"Owners": "{1,2}", "Sizes": "{16,24,1024,1152,1280}", "Large": 1024, "Fixed": "FALSE",
         "MaxRecs": ctx.n(4, 5), "Bug": '"none"'}
    st, ctx.graphs["alloc"] = walks.explore("Alloc-values", "Alloc.tla", ctx.scratch, c, **ALLOC_INV)
    return st
def mc_alloc_key(ctx):
    c = {"Owners": ctx.n("{1,2,3,4}", "{1,2,3,4,5}"), "Sizes": "{16,1024,1152,1280}", "Large": 1024, "Fixed": "TRUE",
         "MaxRecs": ctx.n(5, 6), "Bug": '"none"'}
    st, ctx.graphs["allock"] = walks.explore("Alloc-keys", "Alloc.tla", ctx.scratch, c, **ALLOC_INV)
    return st
mc_alloc_val.graph = mc_alloc_key.graph = True

HTX_INV = dict(invariants=["Transparent", "TreeIsDict", "SlotsLive"])
def mc_htx(ctx):
    """the hash index, three keys of one slot and two of another, two values"""
    six = ctx.tier != "quick"
    c = {"NK": 6 if six else 5, "NV": 1 if six else 2, "SlotOf <- Slot%d" % (6 if six else 5): None,
         "ClassOf <- Class%d" % (6 if six else 5): None, "MaxRecs": 9, "Bug": '"none"'}
    return walks.explore("Htx", "MCHtx.tla", ctx.scratch, c, log=False, **HTX_INV)[0]
HTX_SLOTS = [1, 1, 1, 2, 2]
def mc_htx_walk(ctx):
    c = {"NK": 5, "NV": 1, "SlotOf <- Slot5": None, "ClassOf <- Class5": None, "MaxRecs": 9, "Bug": '"none"'}
    st, ctx.graphs["htx"] = walks.explore("Htx-walks", "MCHtx.tla", ctx.scratch, c, **HTX_INV)
    return st
mc_htx_walk.graph = True

STORE_INV = dict(invariants=["TypeOK", "PromiseOs", "PromiseDisk", "NotDirtyIsSaved", "DirtyCovers", "NothingLost"])
def mc_storage(ctx):
    """one map with its four files; thorough: also two maps with two files each"""
    c = {"NM": 1, "Files <- AllFiles": None, "Faulty": "TRUE", "Evicts": "TRUE", "Bug": '"none"'}
    if ctx.tier != "quick":
        c = {"NM": 2, "Files <- TwoFiles": None, "Faulty": "TRUE", "Evicts": "TRUE", "Bug": '"none"'}
    return walks.explore("Storage", "Storage.tla", ctx.scratch, c, log=False, **STORE_INV)[0]
def mc_storage_walk(ctx):
    c = {"NM": 1, "Files <- AllFiles": None, "Faulty": "TRUE", "Evicts": "FALSE", "Bug": '"none"'}
    st, ctx.graphs["storage"] = walks.explore("Storage-walks", "Storage.tla", ctx.scratch, c, **STORE_INV)
    return st
def mc_storage_quiet(ctx):
    c = {"NM": 1, "Files <- AllFiles": None, "Faulty": "FALSE", "Evicts": "FALSE", "Bug": '"none"'}
    st, ctx.graphs["quiet"] = walks.explore("Storage-no-faults", "Storage.tla", ctx.scratch, c, **STORE_INV)
    return st
def mc_storage_two(ctx):
    c = {"NM": 2, "Files <- OneFile": None, "Faulty": "TRUE", "Evicts": "FALSE", "Bug": '"none"'}
    st, ctx.graphs["two"] = walks.explore("Storage-two-maps", "Storage.tla", ctx.scratch, c, **STORE_INV)
    return st
mc_storage_walk.graph = mc_storage_quiet.graph = mc_storage_two.graph = True

def mc_bulk(ctx):
    """every slice of up to four of three keys, on every content"""
    c = {"NK": 3, "NV": 2, "MaxPut": 3, "MaxLen": 4, "Bug": '"none"'}
    st, ctx.graphs["bulk"] = walks.explore("Bulk", "Bulk.tla", ctx.scratch, c, invariants=["SameAsSingle"])
    return st
mc_bulk.graph = True
def mc_create(ctx):
    """creation of a map, killed at every point, again and again"""
    return walks.explore("Create", "Create.tla", ctx.scratch, {"Bug": '"none"'}, log=False, **CREATE_INV)[0]

CREATE_INV = dict(view=None, invariants=["OpensAgain", "OpenIsWhole", "OpenIsWritten", "NothingLost"], properties=["Monotone"])
BROKEN = {  # deliberately wrong designs: the invariants must tell them from the right one
    "tree": ("MCTree.tla", {"MaxK": 6, "Half": 3, "NK": 26, "Mode": '"shape"'}, TREE_INV,
             ["split", "over", "under", "rotate", "delmax", "trim", "climb"]),
    "alloc": ("Alloc.tla", {"Owners": "{1,2,3}", "Sizes": "{16,1024,1152,1280}", "Large": 1024, "Fixed": "FALSE", "MaxRecs": 4},
              ALLOC_INV, ["lose", "strict", "shrink", "relink"]),
    "htx": ("MCHtx.tla", {"NK": 5, "NV": 2, "SlotOf <- Slot5": None, "ClassOf <- Class5": None, "MaxRecs": 9}, HTX_INV,
            ["trust", "keep", "keepempty"]),
    "storage": ("Storage.tla", {"NM": 1, "Files <- AllFiles": None, "Faulty": "TRUE", "Evicts": "TRUE"}, STORE_INV,
                ["updclean", "nodes", "ignore", "skiphtx", "flushclean", "early", "swallow", "dropnodes", "evictlost"]),
    "storage2": ("Storage.tla", {"NM": 2, "Files <- OneFile": None, "Faulty": "TRUE", "Evicts": "TRUE"}, STORE_INV, ["goon"]),
    "bulk": ("Bulk.tla", {"NK": 3, "NV": 2, "MaxPut": 3, "MaxLen": 4}, dict(invariants=["SameAsSingle"]), ["reverse", "dedup"]),
    "create": ("Create.tla", {}, CREATE_INV, ["lenfirst", "nocomplete", "noflush", "clean"]),
}
def mc_broken(*names):
    """thorough tier: every deliberately wrong design violates an invariant"""
    def f(ctx):
        if ctx.tier == "quick":
            return {"model": "wrong designs", "states": 0, "transitions": 0, "skipped": "thorough tier"}
        found = []
        for n in names:
            module, consts, inv, bugs = BROKEN[n]
            for b in bugs:
                ok, _ = walks.explore("broken-%s-%s" % (n, b), module, ctx.scratch, dict(consts, Bug='"%s"' % b),
                                      log=False, expect_error=True, workers=2, **inv)
                if not ok:
                    raise lib.ToolError("the wrong design %s/%s is not told from the right one" % (n, b))
                found.append("%s/%s" % (n, b))
        return {"model": "wrong designs", "states": 0, "transitions": 0, "violations_found_as_expected": found}
    return f

SESSION_INV = dict(invariants=["TypeOK", "UnchangedIsSafe", "OneState", "OpenIffHeld", "ClosedIsWritten"],
                   properties=["TypesStay", "ContentIsolated"])
SESSIONS = {  # keys, values, database handles, map handles, maps, operations
    "hand1": (2, 2, "{1,2}", "{1,2}", "OneMap", "OpsHandles", True, False),
    "hand2": (1, 1, "{1,2}", "{1,2,3}", "Two", "OpsHandles", True, False),
    "memh": (1, 1, "{1,2}", "{1,2,3}", "TwoTypes", "OpsMemory", False, False),
    "save": (1, 2, "{1}", "{1,2}", "OneMap", "OpsSave", True, False),
    "types": (1, 1, "{1}", "{1,2}", "ManyTypes", "OpsTypes", True, False),
    "maps": (1, 1, "{1}", "{1,2}", "Mixed", "OpsMaps", True, True),
}
def mc_session(which):
    def f(ctx):
        nk, nv, ds, hs, maps, ops, file, per = SESSIONS[which]
        c = {"NK": nk, "NV": nv, "DbIds": ds, "Handles": hs, "NameTypes <- " + maps: None, "Ops <- " + ops: None,
             "File": str(file).upper(), "PerMap": str(per).upper()}
        inv = dict(SESSION_INV)
        if file:
            inv["invariants"] = inv["invariants"] + ["OneType"]
        st, ctx.graphs[which] = walks.explore("Session-" + which, "MCSession.tla", ctx.scratch, c, **inv)
        return st
    f.graph = True
    return f

def walk_batch(graph, name, gen, q, t, maxlen, opt=None, **kw):
    def f(ctx):
        rng = ctx.rng(name)
        prefer = (lambda a: a[2] != "plain") if graph == "tree" else None
        ws, cov = walks.walks(ctx.graphs[graph], rng, maxlen, ctx.n(q, t), prefer=prefer)
        ctx.cover[name] = dict(cov, model=graph)
        return gen(rng, ws, tag=name, **kw)
    return (name, f, opt)
SMALL = {"variants": ["small"]}
DEF = {"variants": ["default"]}

BASE = ["panic", "open"]
BOTH = ["default", "small"]
PLANS = {}
def plan(pid, tags, note, batches, variants=BOTH, models=(mc_db,)):
    PLANS[pid] = {"scope": BASE + tags, "note": note, "variants": list(variants), "models": list(models),
                  "batches": [dict(name=n, gen=g, **(o if o else {})) for n, g, o in batches]}

def B(name, f, q, t, opt=None, **kw):
    """a batch from a generator: q scenarios in the quick tier, t in the thorough one"""
    return (name, lambda ctx: f(ctx.rng(name), ctx.n(q, t), tag=name, **kw), opt)

plan("P01", ["res"], "random and ordered histories of puts, deletes and gets in every API form",
     [walk_batch("tree", "walk", g_tree_walks, 3000, 60000, 90, SMALL, look=("dump",), every=2),
      B("dict", g_dict, 60, 1500), B("order", g_ordered, 9, 120, nks=[9, 30, 77, 150, 260], every=11),
      B("disp", g_displaced, 9, 240, nks=[30, 70, 130]),
      B("big", g_dict, 2, 60, {"variants": ["default"]}, big=True)],
     models=(mc_broken("tree"), mc_db, mc_tree_keys, mc_tree_shape))
plan("P02", ["res", "iter", "bulk", "htx"], "histories over keys that share hash slots",
     [walk_batch("htx", "walk", g_htx_walks, 6000, 60000, 60, slots=HTX_SLOTS),
      walk_batch("htx", "wimg", g_htx_walks, 400, 8000, 40, slots=HTX_SLOTS, look=("img", "dump")),
      B("coll", g_coll, 90, 3000), B("slot", g_slots, 9, 200),
      B("disp", g_displaced, 12, 300)],
     models=(mc_broken("htx"), mc_db, mc_htx, mc_htx_walk))
plan("P03", ["iter"], "iteration in every form after histories",
     [walk_batch("tree", "walk", g_tree_walks, 3000, 60000, 90, SMALL, look=("iter",)),
      B("iter", g_iter, 70, 2000), B("order", g_ordered, 6, 90, nks=[5, 18, 60, 140], every=5, it=True),
      B("edge", g_ordered, 3, 30, {"variants": ["default"]}, nks=[66, 65, 101], every=1, it=True),
      B("wide", g_wide, 2, 30, {}),
      B("deep", g_ordered, 6, 60, {"variants": ["small"]}, nks=[350, 800, 1500], every=170, it=True)],
     models=(mc_broken("tree"), mc_db, mc_tree_keys, mc_tree_shape))
plan("P04", ["bulk", "res", "iter"], "bulk operations with repeated keys",
     [walk_batch("bulk", "walk", g_bulk_walks, 14000, 14000, 150),
      walk_batch("bulk", "wmem", g_bulk_walks, 14000, 14000, 150, DEF, mem=True),
      B("bulk", g_bulk, 90, 2500), B("mem", g_bulk, 30, 600, {"variants": ["default"]}, mem=True)],
     models=(mc_broken("bulk"), mc_db, mc_bulk))
plan("P05", ["res", "iter", "os", "bulk"], "sessions closed in every order",
     [walk_batch("save", "walk", g_session_walks, 4500, 30000, 60, look=("dump", "kimg")),
      walk_batch("hand1", "whnd", g_session_walks, 2000, 30000, 60, look=("dump", "iter", "kimg"), nkeys=2),
      B("sess", g_sessions, 60, 1500), B("evi", g_evict, 8, 200, reopen=True)],
     models=(mc_db, mc_session("save"), mc_session("hand1")))
plan("P06", ["sync", "os", "disk", "dirty", "res", "iter"], "kills and power losses",
     [walk_batch("quiet", "walk", g_storage_walks, 3000, 20000, 60, DEF),
      B("dur", g_durable, 60, 1500), B("evi", g_evict, 6, 200, power=True)],
     models=(mc_broken("storage"), mc_db, mc_storage, mc_storage_quiet))
plan("P07", ["fault", "sync", "dirty", "os", "disk", "res", "ro", "iter"], "failing calls",
     [walk_batch("storage", "walk", g_storage_walks, 3000, 20000, 60, DEF),
      ("grid", lambda ctx: g_fault_grid(ctx.rng("grid"), nths=ctx.n((1, 2), (1, 2, 3, 4, 6)), types=ctx.n("S", "SIB")), {"variants": ["default"]}),
      B("flt", g_faults, 40, 1500), B("evi", g_evict, 9, 240, faults=True)],
     models=(mc_broken("storage"), mc_db, mc_storage, mc_storage_walk))
plan("P08", ["tree"], "images",
     [walk_batch("tree", "walk", g_tree_walks, 9000, 60000, 120, SMALL),
      B("img", g_images, 24, 500), B("ord", g_ordered, 9, 150, nks=[25, 60, 110, 200], image=True, every=4),
      B("edge", g_ordered, 3, 30, {"variants": ["default"]}, nks=[66, 70, 101], image=True, every=1),
      B("wide", g_wide, 2, 30, {"variants": ["default"]}, look="img")],
     models=(mc_broken("tree"), mc_db, mc_tree_keys, mc_tree_shape))
plan("P09", ["acct", "tree"], "images",
     [walk_batch("alloc", "wval", g_alloc_walks, 5000, 40000, 70, DEF),
      walk_batch("allock", "wkey", g_alloc_walks, 2500, 30000, 70, DEF, fixed=True),
      walk_batch("tree", "wtree", g_tree_walks, 2500, 30000, 120, SMALL),
      B("list", g_lists, 9, 300),
     B("img", g_images, 24, 500), B("ord", g_ordered, 6, 100, nks=[25, 60, 110, 200], image=True, every=9)],
     models=(mc_broken("alloc"), mc_db, mc_alloc, mc_alloc_val, mc_alloc_key, mc_tree_shape))
plan("P10", ["grow"], "images and cycles",
     [walk_batch("alloc", "wval", g_alloc_walks, 5000, 40000, 70, DEF),
      walk_batch("allock", "wkey", g_alloc_walks, 2500, 30000, 70, DEF, fixed=True),
      B("list", g_lists, 16, 400), B("img", g_images, 20, 400, gran=1), B("cyc", g_cycles, 18, 300)],
     models=(mc_broken("alloc"), mc_db, mc_alloc, mc_alloc_val, mc_alloc_key))
plan("P11", ["res", "iter", "os", "disk", "dirty", "ro", "bulk", "sync"], "several maps",
     [walk_batch("maps", "walk", g_session_walks, 6000, 60000, 60, look=("dump", "dirty", "kimg", "pimg"), often=0.4),
      B("names", g_names, 51, 600), B("multi", g_multi, 40, 1200)],
     models=(mc_db, mc_session("maps")))
plan("P12", ["res", "iter", "bulk", "os"], "several handles",
     [walk_batch("hand1", "walk", g_session_walks, 6000, 40000, 60, look=("dump", "kimg"), nkeys=2),
      walk_batch("hand2", "wmap", g_session_walks, 4000, 80000, 60, look=("dump", "kimg")),
      B("hand", g_multi, 40, 1200, npaths=1, nnames=2, focus="handle")],
     models=(mc_db, mc_session("hand1"), mc_session("hand2")))
plan("P13", ["type", "res", "iter", "os"], "wrong types", 
     [walk_batch("types", "walk", g_session_walks, 3000, 30000, 40, DEF, look=("dump", "kimg"), often=0.4),
      B("types", g_types, 60, 900)],
     models=(mc_db, mc_session("types")))
plan("P14", ["res", "iter", "os", "disk", "fill", "sync"], "parameters",
     [B("prm", g_params, 50, 1200), B("evi", g_evict, 8, 200, reopen=True, power=True)])
plan("P15", ["res", "bulk"], "memory maps", 
     [walk_batch("memh", "walk", g_session_walks, 5000, 30000, 60, look=("dump",), mem=True),
      B("mem", g_mem, 40, 1200)],
     variants=["default"], models=(mc_db, mc_session("memh")))
plan("P16", ["stat"], "statistics", [B("st", g_images, 20, 400, stats=True, htx=False),
                                      B("sto", g_ordered, 6, 90, nks=[12, 40, 90], image=True, stats=True, every=9),
                                      B("stx", g_images, 4, 40, stats=True, htx=True, nks=(3, 8)),
                                      B("slot", g_slots, 6, 60, stats=True)])
plan("P17", ["ro", "res"], "reads", [B("ro", g_reads, 40, 900), B("roc", g_coll_reads, 40, 900),
     walk_batch("htx", "walk", g_htx_walks, 700, 9000, 50, DEF, slots=HTX_SLOTS, look=("ro",))],
     models=(mc_db, mc_htx, mc_htx_walk))
plan("P18", ["res", "iter", "os"], "bytes", [B("byt", g_bytes, 40, 900)])
plan("P19", ["fmt", "htx", "res", "iter", "os"], "format", [fixtures(False), fixtures(True), B("img", g_images, 12, 300, htx=True)])
plan("P20", ["create", "res"], "kill at creation", [B("cre", g_create, 12, 200)],
     models=(mc_broken("create"), mc_db, mc_create))
plan("P21", ["sync", "disk", "dirty", "ro", "fault", "res"], "database sync",
     [walk_batch("two", "walk", g_storage_walks, 5000, 40000, 60, DEF, nm=2),
      B("dbs", g_dbsync, 30, 900)],
     models=(mc_broken("storage2"), mc_db, mc_storage, mc_storage_two))

plan("P23", ["rfault", "res", "iter", "bulk", "dirty", "ro", "os", "disk", "sync", "tree", "acct", "fill"],
     "operations while reads fail or full buffers cannot be written, partial and interrupted reads and writes",
     [B("rd", g_rfault, 90, 2500), B("wr", g_rfault, 60, 1500, what="write"), B("both", g_rfault, 30, 900, what="both"),
      B("noise", g_noise, 24, 400), B("wide", g_rfault_wide, 2, 30, {"variants": ["small", "v_lru,small"]}), B("lru", g_rfault, 30, 400, {"variants": ["v_lru,small"]}, what="both", image=False)],
     variants=["default", "small", "v_lru,small"], models=(mc_broken("storage"), mc_db, mc_storage))
for _b in PLANS["P23"]["batches"]:
    _b.setdefault("variants", BOTH)

# builds of the crate with other features (harness/Cargo.toml) and the release profile
BUILDS = ["rel", "v_vu", "v_min", "v_nonc", "v_nohtx", "v_str", "v_key", "v_lru", "rel,small", "v_vu,small"]
BUILDS_MORE = ["v_fix", "v_lfu", "v_dbg", "v_min,small", "v_key,small", "v_nohtx,small", "v_nonc,small", "v_lru,small"]
def mix(v):
    htx = not any(x in v for x in ("v_min", "v_nohtx", "v_key"))
    name = v.replace(",", "-")
    return (name, lambda ctx: g_mix(ctx.rng(name), ctx.n(1, 6), tag="mix-" + name, htx=htx), {"variants": [v]})
plan("P22", ["res", "iter", "bulk", "sync", "dirty", "os", "disk", "ro", "type", "fault", "create"],
     "a mix of all histories on builds with other features",
     [mix(v) for v in BUILDS + BUILDS_MORE], variants=BUILDS + BUILDS_MORE)
PLANS["P22"]["quick_variants"] = BUILDS

for _p in PLANS.values():
    _p["technique"] = ", ".join("%s" % b["name"] for b in _p["batches"])
