"""C16: getRIXSmap = second-order formula for every polarisation pair."""
from checks.opref import apply_op, abs2, allowed_fn
from checks.c13 import lanczos, dot
from checks.c14 import closure, conjp
from checks.c15 import make_op
TOL = 1e-4
METHOD = ("spectra.getRIXSmap is executed in all four parallelisation modes (1-3 simulated ranks) with lists of states, incoming and outgoing transition operators and both meshes; "
          "scipy's bicgstab is replaced by its contract (the exact solution of a x = y); one group of inputs at a time is symbolic (loss or incoming mesh, broadenings, energies, "
          "Hamiltonian strengths, transition strengths); z3 decides for every element equality with the second-order formula evaluated by exact linear solves on independently computed spaces.")
BOUNDS = "0-3 states, 0-2 incoming and 0-3 outgoing operators, intermediate and final spaces of 0-3 product states, 0-3 incoming and 0-2 loss energies, 1-3 ranks; exact arithmetic; cutoff 0."
OUTSIDE = "convergence of bicgstab; truncated Krylov spaces; the small-weight truncation of the intermediate state for positive cutoffs; exact cancellations; rounding."

H2 = [(((0, "c"), (1, "a")), "z"), (((0, "c"), (0, "a")), "r"), (((1, "c"), (1, "a")), "r"), (((2, "c"), (0, "c"), (0, "a"), (2, "a")), "r"), (((2, "c"), (2, "a")), "r")]
H3 = [(((0, "c"), (1, "a")), "z"), (((1, "c"), (2, "a")), "p"), (((0, "c"), (0, "a")), "r"), (((0, "c"), (3, "c"), (3, "a"), (0, "a")), "r"), (((3, "c"), (3, "a")), "r")]
H1 = [(((0, "c"), (1, "a")), "z"), (((0, "c"), (0, "a")), "r"), (((0, "c"), (2, "c"), (2, "a"), (0, "a")), "r"), (((2, "c"), (2, "a")), "r")]
# model: spin-orbitals, Hamiltonian, states, operators in, operators out
MODELS = {
    # one core orbital, empty valence: intermediate dimension 2, final dimension 1
    "a": (3, H1, {"v": [("001", 2)], "x": [("011", 2)], "full": [("111", 2)]},
          {"i": [(((0, "c"), (2, "a")), "t"), (((1, "c"), (2, "a")), "t")], "j": [(((1, "c"), (2, "a")), 2)]},
          {"o": [(((2, "c"), (0, "a")), "t"), (((2, "c"), (1, "a")), "t")], "p": [(((2, "c"), (0, "a")), 1)], "none": []}),
    # one valence electron: intermediate dimension 1 (per hole), final dimension 2
    "b": (4, H2, {"v": [("1011", 0), ("0111", 1)], "x": [("0111", 2)], "full": [("1111", 2)]},
          {"i": [(((0, "c"), (2, "a")), "t"), (((1, "c"), (3, "a")), "t")], "j": [(((0, "c"), (2, "a")), 1)]},
          {"o": [(((2, "c"), (0, "a")), "t"), (((2, "c"), (1, "a")), "t"), (((3, "c"), (0, "a")), 2)], "p": [(((2, "c"), (1, "a")), 1), (((2, "c"), (0, "a")), 3)], "none": []}),
    "c": (4, H3, {"v": [("0101", 0), ("0011", 1)], "one": [("0101", 2)], "two": [("0011", 2)], "x": [("0111", 2)], "full": [("1111", 2)]},
          {"i": [(((0, "c"), (3, "a")), "t"), (((1, "c"), (3, "a")), "t")], "j": [(((0, "c"), (3, "a")), 1)]},
          {"o": [(((3, "c"), (0, "a")), "t"), (((3, "c"), (1, "a")), "t")], "p": [(((3, "c"), (2, "a")), 1)]}),
}


def configs(tier):
    T = tier == "thorough"
    out = []

    def add(model, states, ins, outs, mode, p, sym, nin=2, nloss=1, **k):
        out.append(dict(name="model %s, states %s, in %s, out %s, %s ranks=%d symbolic=%s mesh=%dx%d%s" % (model, "+".join(states) or "none", "+".join(ins) or "none", "+".join(outs) or "none",
                   mode, p, sym, nin, nloss, "".join(" %s=%s" % x for x in sorted(k.items()))), model=model, states=states, ins=ins, outs=outs, mode=mode, p=p, sym=sym, nin=nin, nloss=nloss,
                   exact_sqrt=True, max_coinc=0, deadline=150 if not T else 500, weight=len(states) * len(ins) * len(outs) * nin + 1, **k))
    for mode in ("serial", "H_build", "wIn", "H_build_wIn"):
        ranks = (1, 2, 3) if mode != "serial" else (1,)
        for sym in ("loss", "in", "strength", "transition", "energy", "delta"):
            add("a", ["v"], ["i"], ["o"], mode, 1, sym)
        for p in ranks:
            add("a", ["v", "x", "full"], ["i", "j"], ["o", "p", "none"], mode, p, "energy")
            add("b", ["v"], ["i"], ["o"], mode, p, "loss")
            add("c", ["v", "x"], ["i"], ["o", "p"], mode, p, "loss", 2 if p < 2 else 3, 1)
        p = ranks[-1]
        add("b", ["full", "x", "v"], ["j", "i"], ["p", "o"], mode, min(p, 2), "loss", 1, 2)
        add("b", ["x", "v"], ["j", "i"], ["p", "none", "o"], mode, 1, "num", 2, 2)
        add("c", ["v"], ["i"], ["o"], mode, min(p, 2), "in", 1, 1, thorough=1) if T else None
        add("a", ["v"], ["i", "j"], ["p"], mode, p, "in", 3, 2)
        add("b", ["v", "x"], ["i"], ["o", "p"], mode, p, "loss", res=[[0, 1], 1, 2])
        add("b", ["v", "x"], ["i"], ["o", "p"], mode, 1, "loss", res=[[0, 1], 1, 1])
        add("c", ["v", "x"], ["i"], ["o"], mode, p, "loss", res=[[2], 0, 0])
        add("c", ["x"], ["j"], ["o", "p"], mode, p, "loss", res=[[0, 1], 1, 2])
        add("c", ["v", "x"], ["i"], ["o"], mode, p, "loss", cached=True)
        add("c", ["v", "x"], ["i"], ["o"], mode, min(p, 2), "loss", earlier=True)
        add("a", ["v", "x"], ["i"], ["o"], mode, min(p, 2), "energy", 2, 2, earlier=True)
        add("b", ["v", "x"], ["i", "i"], ["o", "o"], mode, min(p, 2), "loss", equal=True)
        for st in (["full", "v", "x"], ["x", "full", "v"], ["v", "one", "two"], ["two", "one"]):
            for m in ("a", "b", "c"):
                if all(x in MODELS[m][2] for x in st):
                    add(m, st, ["i"], ["o"], mode, 1, "loss", 1, 1, equal=True)
        add("a", [], ["i"], ["o"], mode, p, "num")
        add("a", ["v"], [], ["o"], mode, p, "num")
        add("a", ["v"], ["i"], [], mode, p, "num")
        add("a", ["v"], ["i"], ["o"], mode, p, "num", 0, 1)
        add("a", ["v"], ["i"], ["o"], mode, p, "num", 1, 0)
    return out


def exact_solve(X):
    def bicgstab(a, b, *args, **kw):
        if len(b) == 0:
            return b, 0
        return X.solve(a.toarray() if hasattr(a, "toarray") else a, b), 0
    return bicgstab


def run(X, cfg):
    n, Ht, S, Ti, To = MODELS[cfg["model"]]
    sym = cfg["sym"]
    hop = make_op(X, Ht, sym == "strength", True, "h")
    tin = [make_op(X, Ti[t], sym == "transition", False, "i%s" % t, True) for t in cfg["ins"]]
    tout = [make_op(X, To[t], sym == "transition", False, "o%s" % t, True) for t in cfg["outs"]]
    amps = [X.rat(4, 5), X.rat(3, 5) * 1j, X.rat(1)]
    states = [[([c == "1" for c in s], amps[a]) for s, a in S[x]] for x in cfg["states"]]
    psis = [{X.bytes(b): a for b, a in st} for st in states]
    es = [X.real("e%d" % i) if sym == "energy" else X.rat(-3 * i + 1, 2) for i in range(len(psis))]
    if cfg.get("equal"):
        es = [X.rat(1, 2) for _ in es]
    win = [X.rat(1, 2), X.rat(-2), X.rat(5, 2)][:cfg["nin"]]
    wloss = [X.rat(3, 2), X.rat(-1)][:cfg["nloss"]]
    d1, d2 = X.rat(1, 4), X.rat(3, 8)
    if sym == "loss":
        wloss[0] = X.real("wloss")
    elif sym == "in":
        win[0] = X.real("win")
    elif sym == "delta":
        d1, d2 = X.real("delta1", 0.05, 2), X.real("delta2", 0.05, 2)
    res = cfg.get("res")
    restr = None if res is None else {X.idxset(res[0]): (res[1], res[2])}
    allowed = None if res is None else allowed_fn(X, [tuple(res)])

    def nonzero(out):
        for b, v in out.values():
            X.assume(abs2(X, v) >= 1e-6)
        return [(b, v) for b, v in out.values()]

    def resolvent(vec, z):
        keys, H, bits = closure3(X, hop, [b for b, _ in vec], allowed)
        N = len(keys)
        v = [a for _, a in vec] + [0] * (N - len(vec))
        return bits, H, v, X.solve([[(z if a == b else 0) - H[a][b] for b in range(N)] for a in range(N)], v)
    ref, ended = {}, []
    for i, st in enumerate(states):
        for a, ti in enumerate(tin):
            psi1 = nonzero(apply_op(X, ti, st, allowed))
            for k, w in enumerate(win):
                psi2 = []
                if psi1:
                    bits, _, _, x = resolvent(psi1, w + 1j * d1 + es[i])
                    for b, y in zip(bits, x):
                        m = X.same(abs2(X, y), 0)
                        if m is True:
                            continue
                        X.assume(abs2(X, y) >= 1e-6)
                        psi2.append((b, y))
                for c, to in enumerate(tout):
                    psi3 = nonzero(apply_op(X, to, psi2, allowed)) if psi2 else []
                    for l, wl in enumerate(wloss):
                        if not psi3:
                            ref[i, a, c, k, l] = 0
                            continue
                        _, H, v, x = resolvent(psi3, wl + 1j * d2 + es[i])
                        ref[i, a, c, k, l] = dot(X, v, x)
                        if l == 0:
                            ended.append((H, v))
    hg = None
    before = [dict(s) for s in psis], dict(hop), [dict(t) for t in tin], [dict(t) for t in tout]
    X.reach("map")

    def body(wd, rank):
        sp = wd.ed("spectra")
        mine = [dict(s) for s in psis]
        hd = {} if cfg.get("cached") else None
        if hd is not None and rank == 0:
            for b in (S["x"][0][0],):
                bits = [c == "1" for c in b]
                hd[X.bytes(bits)] = {k: v for k, (_, v) in apply_op(X, hop, [(bits, 1)], allowed).items()}
        if cfg.get("earlier"):      # an earlier calculation with another Hamiltonian and other operators leaves nothing behind
            other = {q: X.rat(7 + t) for t, q in enumerate(q for q in hop if conjp(q) == q)}
            X.raises(lambda: sp.getRIXSmap(n, other, [{q: 2 * v for q, v in t.items()} for t in tin], [{q: 2 * v for q, v in t.items()} for t in tout], [dict(s) for s in psis], list(es),
                                           X.array([X.rat(5, 2)], "f"), X.array([X.rat(3, 2)], "f"), d1, d2, restr, 1, 0, parallelization_mode=cfg["mode"]))
            g = sp.getRIXSmap(n, hop, tin, tout, mine, list(es), X.array(win, "f"), X.array(wloss, "f"), d1, d2, restr, 12, 0, parallelization_mode=cfg["mode"])
            return g, mine
        g = sp.getRIXSmap(n, hop, tin, tout, mine, list(es), X.array(win, "f"), X.array(wloss, "f"), d1, d2, restr, 12, 0, hd, cfg["mode"])
        return g, mine
    if cfg["p"] > 1:
        r, ex = X.raises(lambda: X.spmd(cfg["p"], body, bicgstab=exact_solve(X)))
    else:
        r, ex = X.raises(lambda: [body(X.world(bicgstab=exact_solve(X)), 0)])
    if ex is not None:
        end = False
        for H, v in ended:
            nrm = X.sqrt(sum((abs2(X, y) for y in v), 0))
            if bool(lanczos(X, H, [y / nrm for y in v], len(v), "Green")[2]):
                end = True
                break
        X.claim(end, "fails only when the recurrence ends early", repr(ex))
        return
    g = r[0][0]
    X.claim(tuple(g.shape) == (len(psis), len(tin), len(tout), len(win), len(wloss)), "shape (states, in, out, incoming, loss)", repr(g.shape))
    for k, v in ref.items():
        X.claim(X.eq(g[k], v), "element = <psi3|((wloss+i delta2+e)-H)^-1|psi3>", "state %d in %d out %d incoming %d loss %d" % k)
    for _, mine in r:
        for a, b in zip(mine, before[0]):
            X.eq_dict(a, b, "input states unchanged")
    X.eq_dict(hop, before[1], "Hamiltonian unchanged")
    for a, b in zip(tin + tout, before[2] + before[3]):
        X.eq_dict(a, b, "transition operators unchanged")


def closure3(X, op, bits, allowed):
    keys, H = closure(X, op, bits, allowed)
    allb = [[bool(c) for c in X.unpack(k)] for k in keys] if hasattr(X, "unpack") else None
    if allb is None:
        known = {X.bytes(b): b for b in bits}
        todo = list(bits)
        while todo:
            b = todo.pop()
            for k, (c, _) in apply_op(X, op, [(b, 1)], allowed).items():
                if k not in known:
                    known[k] = c
                    todo.append(c)
        allb = [known[k] for k in keys]
    return keys, H, allb
