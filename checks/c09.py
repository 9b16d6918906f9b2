"""C09: get_job_tasks partitions the tasks exactly and evenly over the workers."""
METHOD = ("finite.get_job_tasks is executed for every rank of a given number of workers with a symbolic number of tasks (every feasible value explored) and symbolic task "
          "values; z3 decides, for an arbitrary symbolic value v, that v occurs in the shares of all workers together exactly as often as in the task list, that share sizes "
          "differ by at most one, and that the task list is unchanged.")
BOUNDS = "1..16 workers (1..40 thorough) and 0..3*workers+5 tasks (at least 0..20), tasks given as list, tuple or range, task values symbolic 8-bit integers (repetitions included)."
OUTSIDE = "more workers or tasks."
HISTORY = 6


def configs(tier):
    T = tier == "thorough"
    return [dict(name="ranks=%d tasks=0..%d %s" % (p, max(20, 3 * p + 5), kind), p=p, N=max(20, 3 * p + 5), kind=kind, weight=p, deadline=200)
            for p in (range(1, 41) if T else list(range(1, 13)) + [16]) for kind in ("list", "range", "tuple")]


def run(X, cfg):
    p = cfg["p"]
    fin = X.world().ed("finite")
    n = int(X.int("n", 0, cfg["N"]))
    if cfg["kind"] == "range":
        tasks = range(n)
    else:
        tasks = [X.int("task%d" % k, -100, 100) for k in range(n)]
        if cfg["kind"] == "tuple":
            tasks = tuple(tasks)
    before = list(tasks)
    X.reach("distributed")
    shares = [fin.get_job_tasks(r, p, tasks) for r in range(p)]
    X.claim(len(tasks) == n and all(a is b or X.same(a, b) is True for a, b in zip(tasks, before)), "task list unchanged")
    sizes = [len(s) for s in shares]
    X.claim(sum(sizes) == n, "as many assignments as tasks", repr(sizes))
    X.claim(max(sizes) - min(sizes) <= 1, "balanced", repr(sizes))
    flat = [t for s in shares for t in s]
    v = X.int("value", -100, 100)
    # cancel by identity first, the solver decides the rest
    rest = list(before)
    left = []
    for t in flat:
        for k, u in enumerate(rest):
            if u is t:
                del rest[k]
                break
        else:
            left.append(t)
    X.claim(X.same(X.count([X.same(t, v) for t in left]), X.count([X.same(t, v) for t in rest])), "every task is assigned exactly once")
