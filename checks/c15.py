"""C15: getSpectra = T-weighted resolvents for every state and transition operator."""
from checks.opref import apply_op, abs2, allowed_fn
from checks.c13 import lanczos, dot
from checks.c14 import closure, conjp
METHOD = ("spectra.getSpectra is executed (both parallelisation modes, 1-3 simulated ranks) with lists of states and transition operators; amplitudes, operator strengths, energies or the "
          "mesh are symbolic; z3 decides for every element that it equals an exact linear solve of <psi|T+ ((w+i delta+e)-H)^-1 T|psi> built by an independent reference (operator action and "
          "restrictions included), so no element can depend on the other entries.")
BOUNDS = "0-4 states, 0-5 transition operators, reachable spaces of 0-3 product states, 0-2 mesh points, 1-3 ranks; exact arithmetic; Krylov size covering the space."
OUTSIDE = "amplitudes that cancel exactly while the cutoff is exactly zero (the normalisation then divides by zero); truncated Krylov spaces; rounding; coincidences where the recurrence ends early (error, see C13)."

# spin-orbitals: valence 0,1 (and 2 in 'three'), core the remaining ones
H2 = [(((0, "c"), (1, "a")), "z"), (((0, "c"), (0, "a")), "r"), (((1, "c"), (1, "a")), "r"), (((2, "c"), (0, "c"), (0, "a"), (2, "a")), "r")]
H3 = [(((0, "c"), (1, "a")), "z"), (((1, "c"), (2, "a")), "p"), (((0, "c"), (0, "a")), "r"), (((2, "c"), (3, "c"), (3, "a"), (2, "a")), "r")]
S2 = {"mix": [("1011", 0), ("0111", 1)], "full": [("1111", 2)], "empty": [("0011", 2)], "one": [("0111", 2)], "hole": [("1010", 2)]}
S3 = {"mix": [("01011", 0), ("00111", 1)], "full": [("11111", 2)], "two": [("11011", 2)]}
T2 = {"dip": [(((0, "c"), (2, "a")), "t"), (((1, "c"), (3, "a")), "t")], "pes": [(((0, "a"),), 1)], "pes1": [(((1, "a"),), "t")], "ips": [(((1, "c"),), 1)],
      "cancel": [(((0, "a"),), 4), (((1, "a"),), -3)], "none": []}
T3 = {"dip": [(((0, "c"), (3, "a")), "t"), (((1, "c"), (3, "a")), "t")], "pes": [(((1, "a"),), 1)]}
MODELS = {2: (4, H2, S2, T2), 3: (5, H3, S3, T3)}


def configs(tier):
    T = tier == "thorough"
    out = []
    K = ("mesh", "strength", "transition", "amplitude", "energy")

    def add(states, ops, mode, p=1, sym="mesh", m=2, **k):
        out.append(dict(name="%d-orbital valence, states %s, operators %s, %s ranks=%d symbolic=%s%s" % (m, "+".join(states) or "none", "+".join(ops) or "none", mode, p, sym,
                   "".join(" %s=%s" % x for x in sorted(k.items()))), states=states, ops=ops, mode=mode, p=p, sym=sym, m=m, exact_sqrt=True,
                   deadline=150 if not T else 500, weight=10 * len(states) * len(ops) + 1, **k))
    for mode in ("H_build", "eigen_states"):
        for sym in K:
            add(["mix", "one"], ["dip", "pes"], mode, 1, sym)
            add(["mix", "one"], ["dip", "pes"], mode, 2, sym)
            add(["mix"], ["dip"], mode, 3, sym)
        add(["mix"], ["dip", "pes"], mode, 1, "mesh", 3)
        add(["mix", "two"], ["dip"], mode, 2, "mesh", 3)
        for p in (1, 2, 3):
            add(["full", "mix", "empty"], ["pes1", "dip", "ips"], mode, p, "mesh")
            add(["empty", "one", "full", "hole"], ["ips", "pes"], mode, p, "strength")
        add(["one", "mix"], ["pes", "cancel", "none", "ips"], mode, 1, "mesh", cut=1e-7)
        add(["mix", "one"], ["cancel", "pes", "none"], mode, 2, "strength", cut=1e-7)
        add(["mix"], ["dip", "pes"], mode, 1, "transition", cut=1e-7)
        add(["mix", "one"], ["dip", "pes", "ips"], mode, 1, "strength", res=[[0, 1], 1, 1])
        add(["mix", "one"], ["dip", "pes", "ips"], mode, 2, "strength", res=[[0, 1], 1, 2])
        add(["mix", "two"], ["dip", "pes"], mode, 1, "mesh", 3, res=[[0, 1], 1, 2])
        add(["mix"], ["dip"], mode, 2, "mesh", 3, res=[[2], 0, 0])
        for p in (1, 2):
            add(["mix", "one"], ["dip", "pes"], mode, p, neg=True)
            add(["mix", "one"], ["dip", "pes"], mode, p, earlier=True)
            add(["mix", "one", "mix"], ["dip", "pes", "dip"], mode, p, equal=True)
        add([], ["dip"], mode)
        add(["mix"], [], mode)
        add([], ["dip"], mode, 2)
        add(["mix"], ["dip"], mode, nw=0)
    return out


def make_op(X, terms, sym, hermitian, tag, small=False):
    op = {}
    for k, (p, s) in enumerate(terms):
        if isinstance(s, str):
            if sym and s in ("r", "p") or sym and s == "z":
                v = X.real("%s%d" % (tag, k), 0.25, 4)
                if s == "z":
                    v = (X.rat(3, 5) - X.rat(4, 5) * 1j) * v
                elif s == "p":
                    v = (X.rat(4, 5) + X.rat(3, 5) * 1j) * v
            elif sym and small:
                v = X.real("%s%d" % (tag, k), 0.25, 4) * (1 + 2j) if k == 0 else X.rat(3) * 1j
            elif sym:
                v = X.cplx("%s%d" % (tag, k), -2, 2)
            else:
                v = {"z": X.rat(3) - X.rat(4) * 1j, "r": X.rat(3, 2), "p": X.rat(4) + X.rat(3) * 1j, "t": X.rat(3) + X.rat(4) * 1j}[s] * (1 + X.rat(k, 2))
        else:
            v = X.rat(s)
        op[p] = v
        if hermitian and conjp(p) != p:
            op[conjp(p)] = X.conj(v)
    return op


def run(X, cfg):
    n, Ht, S, Tt = MODELS[cfg["m"]]
    sym = cfg["sym"]
    hop = make_op(X, Ht, sym == "strength", True, "h")
    tops = [make_op(X, Tt[t], sym == "transition", False, "t%s" % t, cfg["m"] == 3) for t in cfg["ops"]]
    t = X.real("mix", 0.1, 0.9) if sym == "amplitude" else X.rat(1, 2)     # amplitudes 4/5, 3/5 with a phase
    amps = [2 * t / (1 + t * t), (1 - t * t) / (1 + t * t) * 1j if "cancel" not in cfg["ops"] else (1 - t * t) / (1 + t * t), X.rat(1)]
    # phases: with 'cancel' the amplitudes 4/5 (1011) and 3/5 (0111); c0|1011> = |0011>, c1|0111> = |0011>: 4*4/5-3*3/5 != 0 unless swapped
    if "cancel" in cfg["ops"]:
        amps = [amps[1], amps[0], amps[2]]
    states = [[([c == "1" for c in s], amps[a]) for s, a in S[x]] for x in cfg["states"]]
    psis = [{X.bytes(b): a for b, a in st} for st in states]
    nw = cfg.get("nw", 2)
    delta = X.rat(1, 4)
    es = [X.rat(-3 * i + 1, 2) for i in range(len(psis))]
    w = [X.rat(1, 2), X.rat(-2)][:nw]
    if sym == "mesh" and nw:
        w[0] = X.real("w")
        if cfg["m"] == 2:
            delta = X.real("delta", 0.05, 2)
    if sym == "energy":
        es = [X.real("e%d" % i) for i in range(len(psis))]
    if cfg.get("neg"):
        delta = -delta
    if cfg.get("equal"):
        es = [X.rat(1, 2) for _ in es]
    cut = cfg.get("cut", 0)
    res = cfg.get("res")
    restr = None if res is None else {X.idxset(res[0]): (res[1], res[2])}
    allowed = None if res is None else allowed_fn(X, [tuple(res)])
    # reference
    ref = {}
    for i, st in enumerate(states):
        for j, top in enumerate(tops):
            out = apply_op(X, top, st, allowed)
            keep = []
            for k, (b, v) in out.items():
                X.assume(X.OR(X.same(abs2(X, v), 0) if cut else False, abs2(X, v) >= 1e-5))
                if not bool(X.same(abs2(X, v), 0)):
                    keep.append((b, v))
            if not keep:
                ref[i, j] = None
                continue
            keys, H = closure(X, hop, [b for b, _ in keep], allowed)
            ref[i, j] = (H, [v for _, v in keep] + [0] * (len(keys) - len(keep)))
    before = [dict(s) for s in psis], dict(hop), [dict(t) for t in tops], list(es)
    X.reach("spectra")

    def body(wd, rank):
        sp = wd.ed("spectra")
        mine = [dict(s) for s in psis]
        if cfg.get("earlier"):      # an earlier calculation with another Hamiltonian and other operators leaves nothing behind
            other = {q: X.rat(7 + t) for t, q in enumerate(q for q in hop if conjp(q) == q)}
            X.raises(lambda: sp.getSpectra(n, other, [{q: 2 * v for q, v in t.items()} for t in tops], [dict(s) for s in psis], list(es), X.array(w, "f"), delta, restr, 1, cut, cfg["mode"]))
        g = sp.getSpectra(n, hop, tops, mine, list(es), X.array(w, "f"), delta, restr, 12, cut, cfg["mode"])
        return g, mine
    if cfg["p"] > 1:
        r, ex = X.raises(X.spmd, cfg["p"], body)
    else:
        r, ex = X.raises(lambda: [body(X.world(), 0)])
    if ex is not None:
        ended = False
        for q in ref.values():
            if q is not None:
                nrm = X.sqrt(sum((abs2(X, v) for v in q[1]), 0))
                _, _, end = lanczos(X, q[0], [v / nrm for v in q[1]], len(q[1]), "Green")
                if bool(end):
                    ended = True
                    break
        X.claim(ended, "fails only when the recurrence ends early", repr(ex))
        return
    g = r[0][0]
    X.claim(tuple(g.shape) == (len(psis), len(tops), nw), "shape (states, operators, mesh)", repr(g.shape))
    for (i, j), q in ref.items():
        for k, om in enumerate(w):
            if q is None:
                X.claim(X.eq(g[i, j, k], 0), "an annihilated state contributes zero", "state %d operator %d" % (i, j))
                continue
            H, v = q
            N = len(v)
            z = om + 1j * delta + es[i]
            x = X.solve([[(z if a == b else 0) - H[a][b] for b in range(N)] for a in range(N)], v)
            X.claim(X.eq(g[i, j, k], dot(X, v, x)), "element = <psi|T+ ((w+i delta+e)-H)^-1 T|psi>", "state %d operator %d mesh %d" % (i, j, k))
    for _, mine in r:
        for a, b in zip(mine, before[0]):
            X.eq_dict(a, b, "input states unchanged")
    X.eq_dict(hop, before[1], "Hamiltonian unchanged")
    for a, b in zip(tops, before[2]):
        X.eq_dict(a, b, "transition operators unchanged")
