"""P14: the number of threads, the schedule and earlier computations never change a result."""
import os
from checks.common import *
from dv.cast import load, REPO
from dv.effects import World, walk, kids
from dv.regions import Give, Region, parallel_nodes
from replay import py

FRAME = "assigns clauses (least fixpoint over the call graph)"
OWN = "ownership of the iterations (z3, mixed radix)"
CATEGORIES = (("scalars", "every scalar the body writes belongs to the iteration"),
              ("elements", "the elements written are the iteration's own, and no other iteration's are read"),
              ("calls", "the functions called write only what belongs to the iteration"),
              ("externals", "external functions are functions of their arguments and safe to call concurrently"))


def show(roots):
    nm = {"P": "what parameter %s points to", "Q": "what is reachable from parameter %s", "G": "static storage %s"}
    return ", ".join(sorted(nm[r[0]] % r[1] for r in roots)) or "nothing but automatic variables and its own allocations"


def threads(c, scratch):
    c.replay = (lambda: py.threads(c, scratch), "rebuilt module, bitwise with 1, 3 and 8 threads")
    src = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c") and f != "main.c")
    tus = [load(f) for f in src]
    opened, sure = [], []
    t = time.time()
    w = World(tus)
    c.solver_s += time.time() - t

    def verdict(name, problems, backend=OWN, secs=0.0):
        if not problems:
            c.ok(name, backend, secs)
            return
        c.open(name, "; ".join(x[1] for x in problems)[:600])
        opened.append((name, [x[1] for x in problems][:20]))
        if any(x[0] for x in problems):
            sure.append(opened[-1])
    # the regions
    called = set()
    regions = []
    for n in sorted(w.fn):
        k = 0
        for x in parallel_nodes(w.fn[n]):
            if not x["kind"].startswith("OMPParallel"):
                continue
            k += 1
            name = "%s region %d" % (n, k)
            t = time.time()
            r = Region(w, n, x)
            try:
                r.analyse()
            except (Give,) + ERR as g:
                for tag, text in CATEGORIES:
                    verdict("%s: %s" % (name, text), [(False, "%s: %s" % (type(g).__name__, g))])
                called |= w.reach(w.refs(x))
                continue
            regions.append(name)
            called |= w.reach(w.refs(x))
            for tag, text in CATEGORIES:
                verdict("%s: %s" % (name, text), [p for p in r.problems if p[2] == tag], secs=(time.time() - t) / 4)
            c.function(name, "iteration owns its private variables, allocations and %d store(s) at its own index; %d call(s) by frame contract" % (r.counts["stores"], r.counts["calls"]))
    # functions the iterations call
    for n in sorted(called):
        s, notes = w.sum[n], w.info[n].notes
        c.function(n, "assigns " + show(s.writes))
        verdict("%s called concurrently: no static storage" % n, [(v[0], "writes %s: %s" % (r[1], v[1])) for r, v in s.writes.items() if r[0] == "G"], FRAME)
        verdict("%s called concurrently: planning is serialised" % n, [(True, "the FFTW planner outside a critical section: %s" % x) for k, x in notes if k == "planner"], FRAME)
        verdict("%s called concurrently: external functions" % n,
                [(k == "nondet", "%s is not a function of its arguments" % x if k == "nondet" else "%s has no contract" % x)
                 for k, x in notes if k in ("nondet", "unknown")], FRAME)
    locks = {x for n in called for k, x in w.info[n].notes if k == "planned"}
    verdict("planning uses one lock", [(True, "critical sections of different names around the FFTW planner: %s" % sorted(locks))] if len(locks) > 1 else [], FRAME)
    # no history: nothing outlives a call but what the caller passed in
    for n in sorted(set(w.fn) - called):
        verdict("%s: keeps nothing in static storage" % n, [(v[0], "writes %s: %s" % (r[1], v[1])) for r, v in w.sum[n].writes.items() if r[0] == "G"], FRAME)
    # the number of threads is used for nothing else
    use = []
    for n in sorted(w.fn):
        stores = {id(kids(x)[0]) for x in walk(w.fn[n]) if x.get("kind") == "BinaryOperator" and x.get("opcode") == "="}
        clauses = set()
        for d in parallel_nodes(w.fn[n]):
            for cl in kids(d):
                if cl.get("kind") not in ("CapturedStmt",):
                    clauses |= {id(x) for x in walk(cl)}
        for x in walk(w.fn[n]):
            if x.get("kind") == "MemberExpr" and x.get("name") == "nthreads" and id(x) not in stores and id(x) not in clauses:
                use.append((False, "%s in %s" % (w.info[n].text(x), n)))
    verdict("the number of threads is used in num_threads clauses only", use, FRAME)
    if not regions:
        c.open("regions", "no parallel region was found")
        opened.append(("regions", ["no parallel region was found"]))
    c.assume("storage passed as distinct parameters (settings, background, integrals, table) does not overlap",
             "rows of arrays of pointers are separate allocations; strict aliasing; array indices do not overflow",
             "external functions write what their C declarations and manuals say (table in dv/effects.py); stdio and malloc are thread-safe",
             "GSL interpolation accelerators are shared between threads: the cached bracket never shows in a value (the cache is read once per lookup and validated before use)",
             "gsl_rng_env_setup stores the same values whenever it is called",
             "built as here: without CLASS and CUBA")
    if not opened and not forced(c):
        return
    try:
        n, bad = py.threads(c, scratch)
    except BuildError as e:
        n, bad = 0, []
        print("  replay unavailable: %s" % str(e)[:300])
    if bad:
        c.violation((sure or opened or [("(forced replay)",)])[0][0], {"open_obligations": opened, "failing_inputs": bad[:4]})
        return
    for o in sure[:3]:
        c.violation(o[0], {"open_obligations": [o], "verifier": o[1], "replay": "%d values agreed for 1, 3 and 8 threads" % n}, failing_input=False)
    for o, why in opened:
        if (o, why) not in sure:
            c.bound(o, "rebuilt module, bitwise with 1, 3 and 8 threads: %d values" % n)
    if not opened and n:
        c.agreed("rebuilt module, bitwise with 1, 3 and 8 threads", n)
        print("  forced replay: %d values agree" % n)

