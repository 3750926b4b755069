"""State graphs of the models and walks through them.

A model prints every transition it generates (ACTION_CONSTRAINT Logged: a JSON
object with the state s, the action a and the next state t).  Walks from the
initial state are chosen so that they cover the transitions; a generator turns
each into a script for the real code."""
import json, os, re
from collections import deque
import lib

def write_cfg(path, spec="Spec", consts=None, invariants=(), properties=(), view=None, log=False, constraint=(),
              extra_action=()):
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
        for k, v in (consts or {}).items():
            f.write("CONSTANT %s\n" % k if v is None else "CONSTANT %s = %s\n" % (k, v))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for p in properties:
            f.write("PROPERTY %s\n" % p)
        if view:
            f.write("VIEW %s\n" % view)
        for c in constraint:
            f.write("CONSTRAINT %s\n" % c)
        acts = list(extra_action) + (["Logged"] if log else [])
        for c in acts:
            f.write("ACTION_CONSTRAINT %s\n" % c)

def canon(x):
    """one text for a value, whatever the representation in TLC"""
    return json.dumps(x, sort_keys=True).replace("{}", "[]")

class Graph:
    def __init__(self):
        self.ids = {}
        self.out = []        # state -> [(action, next state)]
        self.init = None
        self.edges = 0
    def sid(self, s):
        i = self.ids.get(s)
        if i is None:
            i = self.ids[s] = len(self.out)
            self.out.append([])
        return i

def explore(name, module, scratch, consts, invariants=(), properties=(), view="View", log=True, workers=4,
            heap="6g", timeout=800, expect_error=False, constraint=()):
    """model checks; with log also returns the graph.  -> (statistics, Graph or None)"""
    import time
    t0 = time.time()
    cfg = os.path.join(scratch, "w-%s.cfg" % name)
    consts = dict(consts)
    consts["Log"] = "TRUE" if log else "FALSE"
    write_cfg(cfg, consts=consts, invariants=invariants, properties=properties, view=view, log=log, constraint=constraint)
    rc, out = lib.tlc(module, cfg, os.path.join(scratch, "mw-" + name), workers=workers, heap=heap, timeout=timeout)
    if expect_error:
        # 12: safety, 13: liveness/temporal
        return rc != 0 and ("is violated" in out or "Error: Invariant" in out or "was violated" in out), None
    if rc != 0 or "No error has been found" not in out:
        short = "\n".join(x for x in out.split("\n") if not x.startswith('"{'))
        raise lib.ToolError("model %s: TLC exit %d\n%s" % (name, rc, short[-3000:]))
    st = lib.tlc_stats(out)
    g = None
    if log:
        g = Graph()
        init, lines = None, set()
        for ln in out.split("\n"):
            if not ln.startswith('"{'):
                continue
            try:
                o = json.loads(json.loads(ln))
            except ValueError:
                continue
            e = (canon(o["s"]), json.dumps(o["a"]), canon(o["t"]))
            if init is None:
                init = e[0]         # the first transition printed leaves the initial state
            lines.add(e)
        # in an order that does not depend on the workers of TLC
        g.init = g.sid(init)
        for s, a, t in sorted(lines):
            g.out[g.sid(s)].append((json.loads(a), g.sid(t)))
            g.edges += 1
    st.update(model=name, constants={k: "" if v is None else str(v) for k, v in consts.items() if k != "Log"}, wall_s=round(time.time() - t0, 1))
    if g is not None:
        st["transitions_distinct"] = g.edges
    return st, g

def walks(g, rng, maxlen, budget, restart=0.0, prefer=None):
    """walks (lists of actions) covering as many transitions as the budget (a
    number of steps) allows; every walk starts in the initial state"""
    todo = [list(range(len(o))) for o in g.out]
    for o in todo:
        rng.shuffle(o)
    later = None
    total = sum(len(o) for o in todo)
    if prefer:
        # the transitions that matter most first
        later = [[i for i in o if not prefer(g.out[s][i][0])] for s, o in enumerate(todo)]
        todo = [[i for i in o if prefer(g.out[s][i][0])] for s, o in enumerate(todo)]
    left = sum(len(o) for o in todo)
    first = left
    done = 0
    # distance from the initial state, for the way to what is left
    res = []
    steps = 0
    def nearest(src, limit):
        """path of edges to the nearest state with an uncovered transition"""
        if todo[src]:
            return []
        prev = {src: None}
        q = deque([(src, 0)])
        while q:
            s, d = q.popleft()
            if d >= limit:
                continue
            for i, (_, t) in enumerate(g.out[s]):
                if t in prev:
                    continue
                prev[t] = (s, i)
                if todo[t]:
                    path = []
                    while prev[t] is not None:
                        ps, pi = prev[t]
                        path.append((ps, pi))
                        t = ps
                    path.reverse()
                    return path
                q.append((t, d + 1))
        return None
    while steps < budget:
        if left == 0:
            if later is None:
                break
            for s, o in enumerate(later):
                todo[s].extend(o)
            left = sum(len(o) for o in todo)
            later = None
            continue
        cur = g.init
        w = []
        while len(w) < maxlen:
            path = nearest(cur, maxlen - len(w))
            if path is None:
                break
            for s, i in path:
                a, t = g.out[s][i]
                w.append(a)
                cur = t
            if not todo[cur]:
                break
            i = todo[cur].pop()
            left -= 1
            done += 1
            a, t = g.out[cur][i]
            w.append(a)
            cur = t
            if restart and rng.random() < restart:
                break
        if not w:
            if later is None:
                break
            left = 0      # the rest of these cannot be reached within a walk
            continue
        steps += len(w)
        res.append(w)
    cov = {"transitions_in_model": total, "transitions_covered": done, "walks": len(res), "steps": steps}
    if prefer:
        cov["structural_transitions"] = first
        cov["structural_covered"] = min(done, first)
    return res, cov
