"""C10: all-gather of dictionaries; splitting a dictionary into chunks."""
METHOD = ("mpi_comm.allgather_dict and dict_chunks_from_one_MPI_rank are executed on every rank of a simulated communicator (collectives are matched; a missing partner, a different "
          "operation or root is an error) with symbolic dictionary sizes per rank, symbolic chunk size and root, and symbolic values; all feasible sizes are explored and z3 decides "
          "that every rank ends with exactly its earlier entries and the union, with unchanged local data.")
BOUNDS = "1..4 ranks; 0..4 entries per rank (0..6 for two ranks), 0..2 earlier entries, chunk size 1..7 and the default; two schedules of the ranks."
OUTSIDE = "message sizes beyond MPI limits; more ranks or entries (the code treats ranks and entries uniformly)."


def configs(tier):
    T = tier == "thorough"
    out = []
    for p, N in ((1, 5), (2, 3), (3, 2), (4, 1)) if not T else ((1, 9), (2, 6), (3, 4), (4, 2), (5, 1)):
        for ch in ("sym", "default"):
            for order in ("up", "down"):
                out.append(dict(name="allgather ranks=%d sizes<=%d chunk=%s schedule=%s" % (p, N, ch, order), what="all", p=p, N=N, ch=ch, order=order, weight=p * 10, deadline=150 if not T else 500))
        out.append(dict(name="chunks ranks=%d sizes<=%d" % (p, N + 2), what="chunks", p=p, N=N + 2, order="up", weight=p * 10, deadline=150))
        out.append(dict(name="chunks default size and root ranks=%d" % p, what="chunks", p=p, N=N + 1, order="down", default=True, weight=p * 10, deadline=150))
    out.append(dict(name="allgather ranks=2 sizes<=2 larger chunks", what="all", p=2, N=2, ch="big", order="up", deadline=150))
    return out


def run(X, cfg):
    p = cfg["p"]
    order = list(range(p)) if cfg["order"] == "up" else list(range(p))[::-1]
    sizes = [int(X.int("size%d" % r, 0, cfg["N"])) for r in range(p)]
    data = [{bytes([r, k]): {bytes([9, k]): X.cplx("v%d.%d" % (r, k))} if (r + k) % 2 else X.cplx("v%d.%d" % (r, k)) for k in range(s)} for r, s in enumerate(sizes)]
    X.reach(cfg["what"])
    if cfg["what"] == "all":
        ch = {"sym": None, "default": "default", "big": "big"}[cfg["ch"]]
        if ch is None:
            ch = X.int("chunk", 1, cfg["N"] + 2)
        elif ch == "big":
            ch = X.int("chunk", 100, 120)
        args = () if ch == "default" else (ch,)
        nold = X.int("earlier", 0, 2 if p < 3 else 0)
        nold = int(nold)
        old = [{bytes([200 + r, k]): X.cplx("o%d.%d" % (r, k)) for k in range(nold)} for r in range(p)]
        # the same earlier entry on all ranks (the usual case)
        for o in old:
            o[b"common"] = X.real("common")
        before = [dict(d) for d in data]
        oldb = [dict(o) for o in old]

        def body(w, rank):
            r = w.ed("mpi_comm").allgather_dict(data[rank], old[rank], *args)
            return r
        X.spmd(p, body, order=order)
        want = {}
        for d in before:
            want.update(d)
        for r in range(p):
            flat(X, data[r], before[r], "local dictionary unchanged on rank %d" % r)
            flat(X, old[r], dict(oldb[r], **{}) | want, "total dictionary is its earlier entries and the union (rank %d)" % r)
    else:
        before = [dict(d) for d in data]
        if cfg.get("default"):
            root, ch, kw = 0, 10 ** 6, {}
        else:
            root = X.int("root", 0, p - 1)
            ch = X.int("chunk", 1, cfg["N"] + 2)
            root = int(root)
            kw = dict(chunk_maxsize=ch, root=root)

        def body(w, rank):
            return list(w.ed("mpi_comm").dict_chunks_from_one_MPI_rank(data[rank], **kw))
        res = X.spmd(p, body, order=order)
        X.claim(all(len(x) == len(res[0]) for x in res), "same number of items on all ranks", repr([len(x) for x in res]))
        tot = {}
        n = 0
        for c in res[root]:
            X.claim(len(c) <= ch, "no chunk exceeds the chunk size")
            n += len(c)
            tot.update(c)
        X.claim(n == len(tot), "chunks are disjoint")
        flat(X, tot, before[root], "chunks together are the dictionary")
        for r in range(p):
            if r != root:
                X.claim(all(not c for c in res[r]), "other ranks get empty items")
            flat(X, data[r], before[r], "dictionary unchanged on rank %d" % r)


def flat(X, a, b, label):
    X.claim(set(a) == set(b) and len(a) == len(b), label + " (keys)", "%r %r" % (sorted(a, key=repr), sorted(b, key=repr)))
    for k in b:
        if k in a:
            if isinstance(b[k], dict):
                X.claim(isinstance(a[k], dict) and set(a[k]) == set(b[k]), label + " (nested keys)")
                X.eq_dict(a[k], b[k], label)
            else:
                X.claim(X.eq(a[k], b[k]), label)
