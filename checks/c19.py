"""C19: double counting equals the multiplet-ligand-field formula or is rejected."""
METHOD = ("finite.dc_MLFT is executed with symbolic Slater integrals, correction and occupations (real-valued, so that integer and non-integer values are both covered; also integers); z3 decides "
          "that the returned numbers equal the average-repulsion formulas and that an exception is raised exactly for non-integer occupations and for inconsistent or partial p inputs.")
BOUNDS = "d occupation in [-20, 20] (real or integer), p occupation absent, symbolic in [-2, 9] or 6; every combination of present/absent p inputs; all real Slater integrals and corrections."
OUTSIDE = "rounding of the constants beyond 1e-9."
HISTORY = 6
HISTORY_SKIP = ("n_p none, Fpd none, Gpd none", "n_p 6, Fpd given, Gpd given")


def configs(tier):
    out = []
    for nd in ("real", "int"):
        for npk in ("none", "real", "int", "6", "6.0"):
            for f in (False, True):
                for g in (False, True):
                    out.append(dict(name="n_d %s, n_p %s, Fpd %s, Gpd %s" % (nd, npk, "given" if f else "none", "given" if g else "none"), nd=nd, np=npk, f=f, g=g, max_coinc=5, deadline=120))
    out.append(dict(name="keywords", nd="int", np="6", f=True, g=True, kw=True, max_coinc=5, deadline=120))
    return out


def run(X, cfg):
    fi = X.world().ed("finite")
    nd = X.int("nd", -20, 20) if cfg["nd"] == "int" else X.real("nd", -20, 20)
    npp = {"none": lambda: None, "real": lambda: X.real("np", -2, 9), "int": lambda: X.int("np", -2, 9), "6": lambda: 6, "6.0": lambda: 6.0}[cfg["np"]]()
    c = X.real("c")
    fdd = [X.real("Fdd%d" % k) for k in range(5)]
    fpd = [X.real("Fpd%d" % k) for k in range(3)] if cfg["f"] else None
    gpd = [X.real("Gpd%d" % k) for k in range(4)] if cfg["g"] else None
    args = list(fdd), None if fpd is None else list(fpd), None if gpd is None else list(gpd)
    if cfg.get("kw"):
        r, ex = X.raises(lambda: fi.dc_MLFT(n3d_i=nd, c=c, Fdd=args[0], n2p_i=npp, Fpd=args[1], Gpd=args[2]))
    else:
        r, ex = X.raises(lambda: fi.dc_MLFT(nd, c, args[0], npp, args[1], args[2]))
    integer = X.is_int(nd) if cfg["nd"] == "real" else True
    only_d = npp is None and fpd is None and gpd is None
    full = npp is not None and fpd is not None and gpd is not None
    six = X.same(npp, 6) if full else False
    good = X.AND(integer, X.OR(only_d, six))
    X.reach("result" if ex is None else "error")
    X.claim(X.IFF(good, ex is None), "numbers exactly for integer occupations and consistent p input", "exception: %r" % ex)
    if ex is not None or not (only_d or full):
        return
    udd = fdd[0] - (fdd[2] + fdd[4]) * 14 / 441
    if only_d:
        X.claim(X.eq(r, udd * nd - c), "dc of d: U_dd n_d - c")
        return
    upd = fpd[0] - gpd[1] / 15 - gpd[3] * 3 / 70
    X.claim(len(r) == 2, "two values")
    X.claim(X.eq(r[0], udd * nd + upd * npp - c), "dc of d: U_dd n_d + U_pd n_p - c")
    X.claim(X.eq(r[1], upd * (nd + 1) - c), "dc of p: U_pd (n_d + 1) - c")
