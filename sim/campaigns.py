"""What each property's check simulates."""
import copy
import json
import os
import random

import core
import scen
from core import ACT, ambient, schedule

HUGE = 1000000000


def files_of(s, text, old=None):
    f = {"in.xml": text}
    for n, (a, v) in s["files"].items():
        f[n] = {"axes": a, "vals": v}
    if old is not None:
        f["in.out"] = old
    return f


def hist_seed(r, n):
    return r.choice([r.randint(1, 1000), r.randint(1, 10 ** 6), r.randint(10 ** 9, 2 ** 31 - 2 - n)])


def threads_of(r, N=None):
    if r.random() < .02:
        return r.choice([256, 257, 300])
    return r.choice([2, 2, 3, 3, 4, 4, 5, 6, 8, 8, 13, 16, 24, 33, 65, 130] if r.random() < .5 else [2, 3, 4, 5, 6, 8, 13])


SER = {"strategy": core.SERIAL, "races": 0}


def enough(steps):
    """steps after which a run that needs this many counts as having no end"""
    return 20000000 + 12 * min(steps, 5000000) + 3 * max(0, steps - 5000000)


class Lab:
    """one case's access to the simulator"""

    def __init__(self, prop, box, exes, r, tier, stats):
        self.prop, self.box, self.exes, self.r, self.tier, self.st = prop, box, exes, r, tier, stats

    def run(self, id, s, N, T, seed, spec=None, ref=False, old=None, chunk=None, exe=None, **kw):
        text = scen.render(s, N, T, chunksize=chunk or (10 if ref else self.r.choice([1, 1, 2, 3, 7, 10, 50, 1000, max(1, N), N + 1])), seed=seed, **kw)
        run = {"id": id, "files": files_of(s, text, old), "spec": dict(spec or SER)}
        if ref:
            run["ref"] = True
            run["spec"].setdefault("budget", 600000000)
        if exe:
            run["exe"] = exe
        return run

    def once(self, run):
        """a run outside any experiment, to learn sizes"""
        n = self.box.nruns
        r = self.box.run(run, cached=True)
        if self.box.nruns != n:
            self.st.run(run, r)
        return r

    def check(self, oracle, params, runs, key=None):
        import exp as X
        import oracles
        e = {"property": self.prop, "oracle": oracle, "params": params, "runs": runs}
        res = X.execute(self.box, e, stats=self.st)
        try:
            msg = X.judge(e, res)
        except oracles.Skip as k:
            self.st.skipped += 1
            self.st.skip_why = str(k)
            return res
        if msg:
            raise X.Violation(e, msg)
        return res

    def sched(self, T, steps, base_steps=None, **kw):
        s = schedule(self.r, T, steps, **kw)
        s["budget"] = enough(steps) + 100000 * T
        return s


def long_batch(r, p=.3):
    """more histories than progress is shown for, or than 16 bits count"""
    if r.random() < p:
        return r.choice([65536, 65537, 66000, 66000, 70001, 70001, 131073])
    return r.choice([10000, 10001, 10007, 12345, 20000, 20001, 25000, 30011])


# --------------------------------------------------------------------- C01
def C01(lab):
    r = lab.r
    big = r.random() < .04
    s = scen.gen_big(r) if big else scen.gen(r)
    N = long_batch(r) if big else r.choice([1, 2, 3, 5, 7, 10, 16, 20, 31, 40])
    seed = hist_seed(r, N)
    b = lab.run("one-thread", s, N, 1, seed, ref=True)
    base = lab.once(b)
    for k in range(2 if big else 8):
        T = threads_of(r)
        sp = lab.sched(T, base["steps"])
        if r.random() < .3:
            sp.update(ambient(r))
        sp["races"] = 0
        v = lab.run("threads=%d" % T, s, N, T, seed, sp)
        lab.check("same", {"base": "one-thread", "others": [v["id"]]}, [b, v])


# --------------------------------------------------------------------- C02
def C02(lab):
    r = lab.r
    mode = r.random()
    if mode < .08:
        s = scen.gen_big(r)
        N = long_batch(r, .5)
        seed = hist_seed(r, N)
        cuts = sorted({0, N} | {r.randint(1, N - 1) for _ in range(r.randint(1, 2))})
        parts = [lab.run("part%d" % a, s, c - a, 1, seed + a, ref=True) for a, c in zip(cuts, cuts[1:])]
        T = r.choice([1, 2, 4, 7])
        w = lab.run("whole", s, N, T, seed, dict(lab.sched(T, sum(lab.once(q)["steps"] for q in parts)), races=0))
        lab.check("combination", {"parts": [p["id"] for p in parts], "whole": ["whole"]}, parts + [w])
        return
    s = scen.gen(r)
    N = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 32])
    seed = hist_seed(r, N)
    parts = [lab.run("history%d" % k, s, 1, 1, seed + k, ref=True) for k in range(N)]
    steps = max(lab.once(p)["steps"] for p in parts)
    for _ in range(6):
        T = r.choice([1, 2, 2, 3, 4, 5, N, N + 1, 2 * N + 1, threads_of(r)])
        T = min(T, 60)
        w = lab.run("whole", s, N, T, seed, dict(lab.sched(T, N * steps), races=0))
        lab.check("combination", {"parts": [p["id"] for p in parts], "whole": ["whole"], "sd": False}, parts + [w])
    # a larger batch, split
    M = r.randint(20, 120)
    cuts = sorted({0, M} | {r.randint(1, M - 1) for _ in range(r.randint(1, 3))})
    parts = [lab.run("part%d" % a, s, c - a, r.choice([1, 2, 5]), seed + a, dict(lab.sched(5, M * steps), races=0)) for a, c in zip(cuts, cuts[1:])]
    T = r.choice([1, 3, threads_of(r)])
    w = lab.run("whole", s, M, T, seed, dict(lab.sched(T, M * steps), races=0))
    lab.check("combination", {"parts": [p["id"] for p in parts], "whole": ["whole"], "sd": False}, parts + [w])


# --------------------------------------------------------------------- C03
def C03(lab):
    r = lab.r
    if r.random() < .1:  # workers with very many histories behind them
        s = scen.gen_big(r, rich=True)
        N = r.choice([20000, 40000, 66000, 70000])
        seed = hist_seed(r, N)
        parts = [lab.run("part%d" % a, s, c - a, 1, seed + a, ref=True) for a, c in pieces(r, N, 12000)]
        steps = sum(lab.once(p)["steps"] for p in parts)
        for T in (1, r.choice([1, 2, 3])):
            w = lab.run("whole", s, N, T, seed, dict(lab.sched(T, steps), races=0))
            lab.check("combination", {"parts": [p["id"] for p in parts], "whole": ["whole"]}, parts + [w])
        return
    s = scen.gen(r, ("multigroup", "multigroup", "multigroup", "continuous", "continuous", "tsl", "cascade"))
    N = r.randint(6, 40)
    seed = hist_seed(r, N)
    singles = [lab.run("history%d" % k, s, 1, 1, seed + k, ref=True) for k in range(N)]
    steps = max(lab.once(p)["steps"] for p in singles)
    ids = [p["id"] for p in singles]
    for _ in range(3):
        T = r.choice([1, 1, 2, 3, 5])
        w = lab.run("whole", s, N, T, seed, dict(lab.sched(T, N * steps), races=0))
        lab.check("combination", {"parts": ids, "whole": ["whole"]}, singles + [w])
    for _ in range(3):
        # the same histories at other positions, after other histories
        L = r.randint(1, max(1, N // 3))
        groups, runs, a = [], [], r.randint(-L, 0)
        off = a
        a = 0
        while a < N:
            n = min(N - a, r.randint(1, L))
            T = r.choice([1, 1, 2, 3])
            i = "batch%d+%d" % (a, n)
            runs.append(lab.run(i, s, n, T, seed + a, dict(lab.sched(T, n * steps), races=0)))
            groups.append(i)
            a += n
        lab.check("regroup", {"groups": [ids, groups]}, singles + runs)


# --------------------------------------------------------------------- C04
def pieces(r, N, most):
    """cut points of a batch"""
    cuts = [0]
    while cuts[-1] < N:
        cuts.append(min(N, cuts[-1] + r.randint(max(1, most // 3), most)))
    return list(zip(cuts, cuts[1:]))


def C04(lab):
    r = lab.r
    if r.random() < .06:  # long batches
        s = scen.gen_big(r)
        N = r.choice([1000, 1001, 1024, 2000, 2500, 4000, 5000, 10000])
        seed = hist_seed(r, N)
        parts = [lab.run("part%d" % a, s, b - a, 1, seed + a, ref=True) for a, b in pieces(r, N, min(900, N // 2))]
        steps = sum(lab.once(p)["steps"] for p in parts)
        for T in (1, r.choice([2, 3, 7])):
            w = lab.run("whole", s, N, T, seed, dict(lab.sched(T, steps), races=0))
            lab.check("combination", {"parts": [p["id"] for p in parts], "whole": ["whole"]}, parts + [w])
        return
    s = scen.gen(r, ("multigroup", "multigroup", "cascade", "shell", "continuous", "tsl"))
    if r.random() < .4:
        s = scen.gen_multigroup(r, fission=True, sens=True)
    same = r.random() < .1
    if same:  # all histories score the same to sensitivities
        s = scen.gen_same(r)
    if r.random() < .3:  # histories that score to many bins, again and again
        if r.random() < .7:
            s = scen.gen_cascade(r)
        for i in range(r.randint(1, 2)):
            e = {"name": "fine%d" % i, "surface": r.choice(s["surfaces"])["name"], "cosine": {"dir": scen.unit(r), "type": "linspace", "min": -1, "max": 1, "bins": r.randint(12, 300)}}
            if r.random() < .5:
                e["energy"] = scen.energy_bins_mg(r, s["groups"]) if s["energy"] == "multigroup" else scen.energy_bins_ce(r)
            s["estimators"].insert(r.randint(0, len(s["estimators"])), e)
    nest = [scen.nested(r, s)] if r.random() < .35 else []
    N = r.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 20, 30] + [r.randint(3, 60)] * 20 * same)
    seed = hist_seed(r, N)
    singles = [lab.run("history%d" % k, s, 1, 1, seed + k, ref=True) for k in range(N)]
    steps = max(lab.once(p)["steps"] for p in singles)
    for _ in range(5):
        T = r.choice([1, 2, 3, 4, 6, 9, 20])
        w = lab.run("whole", s, N, T, seed, dict(lab.sched(T, N * steps), races=0))
        lab.check("combination", {"parts": [p["id"] for p in singles], "whole": ["whole"], "singles": True, "nested": nest}, singles + [w])


# --------------------------------------------------------------------- C05
def C05(lab):
    r = lab.r
    big = r.random() < .04
    s = scen.gen_big(r) if big else scen.gen(r)
    N = 10000 if big else r.choice([4, 8, 16, 24])
    seed = hist_seed(r, N)
    steps = lab.once(lab.run("one", s, N, 1, seed, ref=True))["steps"]
    for k in range(1 if big else 6):
        T = r.choice([2, 2, 3, 4, 6, 8])
        sp = lab.sched(T, steps)
        sp["races"] = 1
        if r.random() < .2:
            sp["thread_fail_mask"] = r.getrandbits(min(T, 64))
        v = lab.run("threads=%d" % T, s, N, T, seed, sp)
        lab.check("races", {"runs": [v["id"]]}, [v])
    # several drivers in one process
    if not big and r.random() < .25:
        q = scen.gen(r)
        f = files_of(s, scen.render(s, 6, 3, seed=seed))
        f["a.xml"] = f.pop("in.xml")
        for k, v in files_of(q, scen.render(q, 6, 3, seed=seed)).items():
            if k == "in.xml":
                f["b.xml"] = v
            elif k not in f:
                f[k] = v
        if not (set(s["files"]) & set(q["files"])):
            sp = dict(lab.sched(4, 2 * steps), races=1, ops=r.choice(["c0a,c1b,s0,s1,s0", "c0a,c1b,p01", "c0a,c1b,p10,s0", "c0a,c1a,p01"]))
            lab.check("races", {"runs": ["drivers"]}, [{"id": "drivers", "exe": "mmcapi", "files": f, "spec": sp}])


# --------------------------------------------------------------------- C06
def C06(lab):
    r = lab.r
    if r.random() < .08:  # long batches
        s = scen.gen_big(r)
        N = r.choice([1000, 10000, 10000, 10001, 20000])
        seed = hist_seed(r, N)
        base = lab.run("one", s, N, 1, seed, ref=True)
        e1 = lab.run("workers1", s, 1, 1, seed, ref=True)
        h2 = [lab.run("history%d" % k, s, 1, 1, seed + k, ref=True) for k in range(2)]
        pair = lab.run("pair", s, 2, 1, seed, ref=True)
        for k in range(4):
            T = threads_of(r)
            steps = lab.once(base)["steps"]
            sp = dict(lab.sched(T, steps, strategy=r.choice([None, "sync"])), races=0)
            if r.random() < .5:
                at = max(2, steps // T)
                sp.update(stall_victim=r.randint(0, T), stall_at=r.choice([r.randint(1, at), int(at * r.uniform(.97, 1.03)), r.randint(1, 300)]), stall_for=0)
            sp.pop("tick", None)
            sp.pop("stall_late", None)
            v = lab.run("threads=%d" % T, s, N, T, seed, sp)
            eT = lab.run("workers%d" % T, s, 1, T, seed, ref=True)
            lab.check("work", {"one": "one", "others": {v["id"]: T}, "empty1": "workers1", "empty%d" % T: eT["id"], "pair": ["history0", "history1", "pair"], "singles": [],
                               "ref_ids": ["one", "workers1", eT["id"]]}, [base, e1, eT, pair, v] + h2)
        return
    s = scen.gen(r)
    N = r.choice([2, 3, 4, 6, 8, 12])
    seed = hist_seed(r, N)
    base = lab.run("one", s, N, 1, seed, ref=True)
    singles = [lab.run("history%d" % k, s, 1, 1, seed + k, ref=True) for k in range(N)]
    pair = lab.run("pair", s, 2, 1, seed, ref=True)
    steps = lab.once(base)["steps"]
    lab.check("work", {"one": "one", "singles": [x["id"] for x in singles], "pair": ["history0", "history1", "pair"], "others": {},
                       "ref_ids": ["one"]}, [base, pair] + singles)
    e1 = lab.run("workers1", s, 1, 1, seed, ref=True)
    h2 = [lab.run("history%d" % k, s, 1, 1, seed + k, ref=True) for k in range(2)]
    for k in range(7):
        T = threads_of(r)
        sp = lab.sched(T, steps)
        if r.random() < .5:
            sp.update(stall_victim=r.randint(0, T), stall_at=r.randint(1, max(2, steps // T)), stall_for=r.choice([0, 0, 0, 5000]))
        if r.random() < .15:
            sp["thread_fail_mask"] = r.getrandbits(min(T, 64))
        sp["races"] = 0
        sp.pop("tick", None)  # polling is not transport work
        sp.pop("stall_late", None)
        v = lab.run("threads=%d" % T, s, N, T, seed, sp)
        eT = lab.run("workers%d" % T, s, 1, T, seed, ref=True)
        lab.check("work", {"one": "one", "others": {v["id"]: T}, "empty1": "workers1", "empty%d" % T: eT["id"], "pair": ["history0", "history1", "pair"], "singles": [],
                           "ref_ids": ["one", "workers1", eT["id"]]}, [base, e1, eT, pair, v] + h2)


# --------------------------------------------------------------------- C07
def C07(lab):
    r = lab.r
    s = scen.gen(r)
    N = r.choice([1, 3, 7, 12, 20])
    seed = hist_seed(r, N)
    old = r.choice([None, "previous results\n"])
    b = lab.run("all-threads", s, N, 1, seed, ref=True, old=old)
    steps = lab.once(b)["steps"]
    for k in range(8):
        T = r.choice([1, 1, 2, 3, 4, 4, 6, 8, 12, 16])
        sp = lab.sched(T, steps)
        m = r.choice(["all", "first", "last", "one", "some", "some", "tail"])
        full = (1 << T) - 1
        sp["thread_fail_mask"] = {"all": (1 << 64) - 1, "first": 1, "last": 1 << (T - 1), "one": 1 << r.randrange(T), "some": r.getrandbits(T) & full or 1,
                                  "tail": ((1 << 64) - 1) & ~((1 << r.randrange(T)) - 1)}[m]
        sp["thread_fail_errno"] = r.choice([11, 11, 11, 12, 1])
        sp["races"] = 0
        v = lab.run("threads=%d" % T, s, N, T, seed, sp, old=old)
        lab.check("same_or_loud", {"base": "all-threads", "others": [v["id"]], "old": old}, [b, v])


# --------------------------------------------------------------------- C08
def C08(lab):
    r = lab.r
    f = r.random()
    if r.random() < .06:
        s = scen.gen_yield(r)
        N = r.choice([40, 60, 100])
        seed = hist_seed(r, N)
        T = r.choice([1, 2, 3, 8])
        v = lab.run("yield", s, N, T, seed, dict(SER if T == 1 else lab.sched(T, 1500 * N), races=0, budget=600000000))
        w = lab.run("none", s, N, 1, seed, dict(SER))
        w["files"]["n0-nubar.hdf5"] = w["files"].pop("n0-none.hdf5")
        del v["files"]["n0-none.hdf5"]
        lab.check("multiplied", {"run": "yield", "none": "none", "yield": s["yield"]}, [v, w])
        return
    if f < .45:
        s = scen.gen_cascade(r, huge=r.random() < .04)
    elif f < .7:
        s = scen.gen_shell(r)
    elif f < .8:
        s = scen.gen_thick(r)
    else:
        s = scen.gen_multigroup(r) if r.random() < .7 else scen.gen_continuous(r, r.random() < .3)
        base = [{"name": "t" + q["name"], "surface": q["name"]} for q in s["surfaces"]]
        eb = scen.energy_bins_mg(r, s["groups"]) if s["energy"] == "multigroup" else scen.energy_bins_ce(r)
        parts = []
        for q in s["surfaces"]:
            for k, e in enumerate(({"energy": eb}, {"cosine": scen.cosine_bins(r)}, {"energy": eb, "cosine": scen.cosine_bins(r)})):
                e.update(name="b%d%s" % (k, q["name"]), surface=q["name"])
                base.append(e)
                parts.append(["t" + q["name"], e["name"]])
        r.shuffle(base)
        s["estimators"], s["parts"], s["exact"], s["expect_leak"] = base, parts, [], 0
    nest = [scen.nested(r, s)] if r.random() < .4 else []
    for k in range(4):
        N = r.choice([1, 3, 10, 30, 60, 100])
        if s["expect_leak"] > 100 or s["family"] == "thick":
            N = r.choice([1, 2, 3, 5] if s["expect_leak"] <= 1024 else [1, 2] if s["expect_leak"] < 10000 else [1])
        if s["expect_leak"] * s.get("groups", 1) > 400:
            N = min(N, 10)
        seed = hist_seed(r, N)
        T = r.choice([1, 1, 2, 3, 4, 8])
        sp = dict(SER)
        if T > 1:
            sp = lab.sched(T, N * lab.once(lab.run("first", s, 1, 1, seed, dict(SER, budget=600000000), ref=True))["steps"])
        sp["races"] = 0
        sp["budget"] = 600000000 + 300000 * N * s["expect_leak"]
        v = lab.run("threads=%d" % T, s, N, T, seed, sp)
        lab.check("conserve", {"runs": [v["id"]], "exact": s["exact"], "parts": s["parts"], "nested": nest, "expect": s["expect_leak"]}, [v])


# --------------------------------------------------------------------- C09
def section_names(est):
    out = []
    for e in est:
        out.append(e["name"])
        for p in e.get("sens", []):
            out.append(e["name"] + "::" + p)
    return out


def C09(lab):
    r = lab.r
    s = scen.gen(r, ("multigroup", "multigroup", "multigroup", "cascade", "shell", "continuous", "tsl"))
    if r.random() < .5:
        s = scen.gen_multigroup(r, sens=True)
    if r.random() < .5:
        scen.rename(r, s)
    N = r.choice([3, 8, 20, 40])
    seed = hist_seed(r, N)
    E = s["estimators"]
    P = s.get("perturbations", [])
    b = lab.run("all-tallies", s, N, 1, seed, ref=True)
    steps = lab.once(b)["steps"]
    full = {e["name"]: e for e in E}
    for k in range(7):
        est, per = copy.deepcopy(E), list(P)
        ops = r.sample(["drop", "drop", "shuffle", "add", "rebin", "sens", "pert", "only"], r.randint(1, 3))
        for o in ops:
            if o == "drop" and len(est) > 1:
                est.pop(r.randrange(len(est)))
            elif o == "only":
                est = [r.choice(est)]
            elif o == "shuffle":
                r.shuffle(est)
                r.shuffle(per)
            elif o == "add":
                x = copy.deepcopy(r.choice(E))
                x["name"] = "added%d" % len(est)
                if r.random() < .5:
                    x["surface"] = r.choice(s["surfaces"])["name"]
                est.insert(r.randint(0, len(est)), x)
            elif o == "rebin":
                x = r.choice(est)
                x["changed"] = True
                for q in ("energy", "cosine"):
                    if r.random() < .5:
                        x.pop(q, None)
                    elif r.random() < .5:
                        x[q] = scen.cosine_bins(r) if q == "cosine" else scen.energy_bins_mg(r, s["groups"]) if s["energy"] == "multigroup" else scen.energy_bins_ce(r)
            elif o == "sens":
                x = r.choice(est)
                if x.get("sens"):
                    r.shuffle(x["sens"])
                    x["sens"] = x["sens"][:r.randint(0, len(x["sens"]))]
            elif o == "pert" and per:
                gone = per.pop(r.randrange(len(per)))["name"]
                for x in est:
                    if x.get("sens"):
                        x["sens"] = [n for n in x["sens"] if n != gone]
        for e in est:
            if "sens" in e:
                e["sens"] = [n for n in e["sens"] if n in [q["name"] for q in per]]
        keep = []
        for e in est:
            o = full.get(e["name"])
            if o is None or e.get("changed"):
                continue
            keep.append(e["name"])
            keep += [e["name"] + "::" + p for p in e.get("sens", []) if p in o.get("sens", [])]
        T = r.choice([1, 1, 2, 4])
        sp = dict(SER) if T == 1 else lab.sched(T, steps)
        sp["races"] = 0
        sp.setdefault("budget", enough(steps))
        v = lab.run("variant", s, N, T, seed, sp, estimators=est, perturbations=per)
        lab.check("sections", {"base": "all-tallies", "others": {"variant": keep}, "names": {"variant": section_names(est)}}, [b, v])


# --------------------------------------------------------------------- I/O
ERRNO = dict(EPERM=1, ENOENT=2, EINTR=4, EIO=5, EAGAIN=11, ENOMEM=12, EACCES=13, EISDIR=21, ENFILE=23, EMFILE=24, EFBIG=27, ENOSPC=28, EROFS=30, EDQUOT=122)


def io_scenario(r):
    s = scen.gen(r, ("multigroup", "multigroup", "cascade", "continuous", "continuous", "tsl"))
    if r.random() < .5:  # more results than one buffer holds
        for i in range(r.randint(1, 3)):
            e = {"name": "wide%d" % i, "surface": r.choice(s["surfaces"])["name"]}
            e["energy"] = {"type": "linspace", "min": .1, "max": 5, "bins": r.randint(60, 400)}
            s["estimators"].insert(r.randint(0, len(s["estimators"])), e)
    return s


def old_of(r):
    return r.choice([None, None, "previous results\n", "previous results, a little longer than the others\n" * r.randint(1, 400)])


def probe(lab, run):
    q = copy.deepcopy(run)
    q["spec"]["want_io"] = q["spec"]["want_own"] = 1
    q["id"] = "probe"
    p = lab.once(q)
    return p


def fail_alloc(r, sp, p):
    """one of the allocations fails: any of them, or one of a place of the program chosen first"""
    if p["own"] and r.random() < .65:
        sp["malloc_own"] = 1
        sp["malloc_fail"] = r.choice(r.choice(p["own"]))
        sp["malloc_fail_len"] = r.choice([1, 1, 1, 1, 2, HUGE])
        return
    M, M1, z = p["mallocs"], p["mallocs_at_multi"] or p["mallocs"], r.random()
    sp["malloc_fail"] = r.randint(0, M1) if z < .35 else r.randint(M1, M) if z < .75 else max(0, M - r.randint(0, 60)) if z < .9 else r.randint(0, M)
    sp["malloc_fail_len"] = r.choice([1, 1, 1, 2, 5, HUGE])


def arg_of(r):
    return r.choice(["in.xml", "in.xml", "./in.xml", "{dir}/in.xml"])


def C10(lab):
    r = lab.r
    s = io_scenario(r)
    N = r.choice([1, 4, 10])
    T = r.choice([1, 1, 2, 4])
    seed = hist_seed(r, N)
    old = old_of(r)
    b = lab.run("undisturbed", s, N, T, seed, ref=True, old=old)
    p = probe(lab, b)
    if not core.ok(p):
        return lab.check("complete", {"base": "undisturbed", "others": []}, [b])
    wops = [o for o in p["io"] if o[1] == "W"]
    n = p["nio_total"]
    writes = [o for o in wops if core.OPS[o[0]] == "write"]
    todo = []
    for o in wops:
        kind = core.OPS[o[0]]
        for a, e in (("ERR", "EIO"), ("ERR", "ENOSPC"), ("ERRP", "EIO"), ("ERRP", "ENOSPC"), ("ERR", "EDQUOT"), ("ERR", "EACCES"), ("ERR", "EROFS"), ("ERRP", "EFBIG")):
            todo.append([[p["io"].index(o), ACT[a], ERRNO[e]]])
        if kind == "write":
            i = p["io"].index(o)
            for k in (1, o[2] // 2, o[2] - 1, r.randint(1, max(1, o[2]))):
                todo.append([[i, ACT["SHORT"], max(1, k)]])
                todo.append([[i, ACT["PARTERR"], max(1, k)]])
            todo.append([[i, ACT["ERR"], ERRNO["EINTR"]]])
    r.shuffle(todo)
    for f in todo[:14]:
        sp = dict(SER, faults=f, budget=enough(p["steps"]), arg=arg_of(r))
        if r.random() < .25:  # a second fault
            sp["faults"] = f + [[r.randrange(n + 2), ACT[r.choice(["SHORT", "ERR"])], r.choice([1, 5, 28])]]
        v = lab.run("faulted", s, N, T, seed, sp, old=old)
        strict = all(x[1] == ACT["SHORT"] for x in sp["faults"])
        res = lab.check("complete", {"base": "undisturbed", "others": ["faulted"], "strict": strict}, [b, v])
    # states of the surroundings
    for k in range(3):
        sp = dict(SER, budget=enough(p["steps"]))
        v = lab.run("surroundings", s, N, T, seed, sp, old=old)
        what = r.choice(["full", "closed", "dir", "nofile", "leftover"])
        if what in ("full", "closed"):
            v["spec"]["out"] = what
        elif what == "dir":
            v["files"]["in.out"] = {"dir": 1}
        elif what == "nofile":
            v["spec"]["nofile"] = r.randint(3, 6)
        else:
            for x in [x for x in p["ls"] if x not in v["files"] and x.startswith("in.")] or ["in.out.tmp"]:
                if x != "in.out":
                    v["files"][x] = "left over by an earlier run\n" * 50
        lab.check("complete", {"base": "undisturbed", "others": ["surroundings"]}, [b, v])


def C11(lab):
    r = lab.r
    s = io_scenario(r)
    N = r.choice([1, 4, 10])
    T = r.choice([1, 2, 4])
    seed = hist_seed(r, N)
    old = old_of(r)
    b = lab.run("undisturbed", s, N, T, seed, ref=True, old=old)
    p = probe(lab, b)
    if not core.ok(p):
        return lab.check("atomic", {"base": "undisturbed", "others": {}}, [b])
    again = lab.run("again", s, N, T, seed, dict(SER, budget=enough(p["steps"])))
    again["keep"] = True
    wops = [i for i, o in enumerate(p["io"]) if o[1] == "W"]
    n = len(p["io"])
    first_w = p["io"][wops[0]][4] if wops else p["steps"]
    for k in range(16):
        sp = dict(SER, budget=enough(p["steps"]))
        m = r.choice(["kill", "kill", "after", "mid", "abort", "step", "step", "err", "err+kill", "alloc"])
        i = r.choice(wops) if wops and r.random() < .8 else r.randrange(n)
        if m == "kill":
            sp["faults"] = [[i, ACT["KILL"], 0]]
        elif m == "after":
            sp["faults"] = [[i, ACT["KILLAFTER"], 0]]
        elif m == "mid":
            ws = [j for j in wops if core.OPS[p["io"][j][0]] == "write"]
            i = r.choice(ws) if ws else i
            sp["faults"] = [[i, ACT["KILLMID"], r.randint(1, max(1, p["io"][i][2]))]]
        elif m == "abort":
            sp["faults"] = [[i, ACT["ABORT"], 0]]
        elif m == "step":
            sp["kill_step"] = r.randint(1, p["steps"]) if r.random() < .5 else r.randint(max(1, first_w - 2000), p["steps"])
        elif m == "alloc":
            fail_alloc(r, sp, p)
        else:
            a = r.choice(["ERR", "ERRP", "PARTERR", "SHORT"])
            sp["faults"] = [[i, ACT[a], r.randint(1, 100) if a in ("PARTERR", "SHORT") else r.choice([5, 28, 13])]]
            if m == "err+kill":
                j = r.choice([x for x in range(i, n)])
                sp["faults"].append([j, ACT["KILL"], 0])
        v = lab.run("disturbed", s, N, T, seed, sp, old=old)
        runs, others = [b, v], {"disturbed": None}
        if r.random() < .6:
            runs, others = [b, v, again], {"disturbed": "again"}
        lab.check("atomic", {"base": "undisturbed", "others": others, "old": old}, runs)


def h5_names(s):
    return sorted(s["files"])


def C12(lab):
    r = lab.r
    s = io_scenario(r)
    N = r.choice([4, 8, 20])
    T = r.choice([1, 1, 3])
    seed = hist_seed(r, N)
    old = old_of(r)
    b = lab.run("undisturbed", s, N, T, seed, ref=True, old=old)
    p = probe(lab, b)
    if not core.ok(p):
        return lab.check("same_or_loud", {"base": "undisturbed", "others": [], "old": old}, [b])
    ops = [(i, o) for i, o in enumerate(p["io"]) if o[1] in "XSH"]
    # the last reads before a file is closed carry its data
    data = {i for n, (i, o) in enumerate(ops) if core.OPS[o[0]] == "read" and any(core.OPS[q[0]] == "close" for _, q in ops[n + 1:n + 3])}
    P = {"base": "undisturbed", "others": ["faulted"], "old": old}
    by = {}
    for i, o in ops:
        by.setdefault((o[1], core.OPS[o[0]]), []).append((i, o))
    for k in range(14):
        few = by[r.choice(sorted(by))]
        late = [x for x in few if x[0] in data]
        i, o = r.choice(late if late and r.random() < .5 else few)
        kind = core.OPS[o[0]]
        acts = ["ERR", "ERR", "ERRP"]
        if kind == "read":
            acts += ["SHORT", "SHORT", "EOF", "EOF"]
        a = r.choice(acts)
        if a == "SHORT":
            arg = r.choice([1, max(1, o[2] // 2), max(1, o[2] - 1), r.randint(1, max(1, o[2]))])
        elif a == "EOF":
            arg = 0
        else:
            arg = ERRNO[r.choice({"open": ["ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ENOMEM", "EINTR"], "read": ["EIO", "EINTR", "EISDIR", "EIO"]}.get(kind, ["EIO", "EACCES"]))]
            if (kind == "close" or a == "ERRP") and arg == ERRNO["EINTR"]:  # an endless stream of interruptions is no fault to survive
                arg = ERRNO["EIO"]
        sp = dict(SER, faults=[[i, ACT[a], arg]], budget=enough(p["steps"]))
        if a == "SHORT" and r.random() < .4:
            sp["faults"].append([i + 1, ACT["EOF"], 0])
        if r.random() < .2:
            j, _ = r.choice(ops)
            sp["faults"].append([j, ACT["ERR"], 5])
        v = lab.run("faulted", s, N, T, seed, sp, old=old)
        lab.check("same_or_loud", P, [b, v])
    # cut short in place while in use
    for k in range(8):
        hs = [n for n in h5_names(s)]
        if hs and r.random() < .6:
            name = r.choice(hs)
            size = os.path.getsize(lab.box.h5file({"axes": s["files"][name][0], "vals": s["files"][name][1]}))
            role = "H"
            at = [i for i, o in ops if o[1] == "H"]
            n = r.choice([0, size - 1, size - 8, size // 2, 2048, 1024, r.randint(0, size - 1)]) % size
        else:
            name, at = "in.xml", [i for i, o in ops if o[1] == "X"]
            t = b["files"][name]
            n = r.choice([0, 1, len(t) // 2, len(t.rstrip()) - 1, r.randint(0, len(t) - 1), t.rfind("<", 0, len(t.rstrip()) - 12)])
        if not at:
            continue
        i = r.choice(at)
        v = lab.run("faulted", s, N, T, seed, dict(SER, budget=enough(p["steps"]), faults=[[i, ACT["CUT"], 4 * n]], repnames=[name]), old=old)
        v["files"][name] = b["files"][name]
        lab.check("same_or_loud", P, [b, v])
    # damaged at rest
    for k in range(10):
        v = lab.run("faulted", s, N, T, seed, dict(SER, budget=enough(p["steps"])), old=old)
        F = v["files"]
        what = r.choice(["xml", "xml", "xmltail", "missing", "empty", "h5", "h5", "h5zero", "xsd", "nofile", "dir", "junk"])
        hs = [n for n in F if isinstance(F[n], dict) and "axes" in F[n]]
        if what.startswith("h5") and not hs:
            what = "xml"
        if what == "xml":
            t = F["in.xml"].rstrip("\n")
            F["in.xml"] = t[:r.randint(0, len(t) - 1)]
        elif what == "xmltail":
            t = F["in.xml"].rstrip("\n")
            F["in.xml"] = t[:len(t) - r.randint(1, 40)]
        elif what == "missing":
            n = r.choice(["in.xml"] + hs)
            if n == "in.xml":
                v["spec"]["arg"] = "gone.xml"
            else:
                del F[n]
        elif what == "empty":
            n = r.choice(["in.xml"] + hs)
            F[n] = "" if n == "in.xml" else {"hex": ""}
        elif what == "h5":
            n = r.choice(hs)
            full = lab.box.h5file({"axes": F[n]["axes"], "vals": F[n]["vals"]})
            size = os.path.getsize(full)
            F[n] = dict(F[n], trunc=r.choice([size - 1, size // 2, r.randint(0, size - 1), 96, 48, 8, 2048]) % size)
        elif what == "h5zero":
            F[r.choice(hs)] = {"hex": "00" * r.choice([1, 512, 4096])}
        elif what == "xsd":
            n = r.choice(["minimc.xsd", "minimc_basictypes.xsd"])
            t = open(core.REPO + "/test/" + n).read()
            F[n] = r.choice([None, "", t[:r.randint(0, len(t) - 20)]])
        elif what == "nofile":
            v["spec"]["nofile"] = r.randint(3, 7)
        elif what == "dir":
            n = r.choice(["in.xml"] + hs)
            F[n] = {"dir": 1}
        elif what == "junk":
            n = r.choice(["in.xml"] + hs)
            j = bytes(r.getrandbits(8) for _ in range(r.randint(1, 300))).hex()
            F[n] = {"hex": j}
        lab.check("same_or_loud", P, [b, v])


def mutate_values(r, s):
    """another valid version of the same input"""
    q = copy.deepcopy(s)
    if s["energy"] == "multigroup":
        for n in q["nuclides"]:
            for d in n["data"].values():
                if "capture" in d:
                    d["capture"] = [round(x * 1.5 + .2, 4) for x in d["capture"]]
    m = r.choice(["aden", "surface", "both"])
    if m != "surface":
        for x in q["materials"]:
            x["aden"] = x["aden"] * 1.7
    return q


def C13(lab):
    r = lab.r
    s = io_scenario(r)
    N = r.choice([4, 10, 20])
    T = r.choice([1, 1, 3])
    seed = hist_seed(r, N)
    old = r.choice([None, "previous results\n"])
    b = lab.run("old-version", s, N, T, seed, ref=True, old=old)
    p = probe(lab, b)
    if not core.ok(p):
        return lab.check("versions", {"versions": ["old-version"], "others": []}, [b])
    for k in range(8):
        hs = h5_names(s)
        if hs and r.random() < .65:
            name = r.choice(hs)
            ax, vals = s["files"][name]
            how = r.choice(["vals", "both", "longer", "longer"] if len(ax) == 1 else ["vals", "vals", "axis"])
            ax2, v2 = copy.deepcopy(ax), list(vals)
            if how in ("vals", "both"):
                v2 = [x * 2.5 + .3 for x in v2]
            if how in ("both", "axis"):
                ax2[0] = [x * 1.9 for x in ax2[0]]
                v2 = [x * 1.4 for x in v2]
            if "fission" in name or "nubar" in name:  # stay subcritical
                v2 = [x * .3 for x in v2]
            if how == "longer":
                ax2[0] = ax2[0] + [ax2[0][-1] * 2]
                ax2[0] = [x * 1.3 for x in ax2[0]]
                v2 = [x * (.3 if "fission" in name or "nubar" in name else 3) for x in v2] + [v2[-1]]
            alt = {"axes": ax2, "vals": v2}
            role = "H"
        else:
            name, role = "in.xml", "X"
            if r.random() < .35:  # a version that the schema rejects
                t = b["files"]["in.xml"]
                alt = r.choice([t.replace("</histories>", "</histories><bogus/>"), t.replace("<materials>", '<materials extra="1">', 1),
                                t.replace("<histories>%d</histories>" % N, "<histories>-5</histories>"),
                                t.replace("<threads>", "<unknown>1</unknown><threads>")])
            else:
                q = mutate_values(r, s)
                alt = scen.render(q, N if r.random() < .6 else N + 3, T, seed=seed if r.random() < .5 else seed + 5)
        n = lab.run("new-version", s, N, T, seed, ref=True, old=old)
        n["files"][name] = alt
        most = max(p["steps"], lab.once(n)["steps"])
        ops = [i for i, o in enumerate(p["io"]) if o[1] == role]
        picks = sorted(set(r.sample(ops, min(len(ops), 9)) + ops[-2:])) if role == "X" or len(ops) < 12 else r.sample(ops, 10)
        for i in picks:
            v = lab.run("replaced", s, N, T, seed, dict(SER, budget=enough(most), faults=[[i, ACT["REPLACE"], 0]], repnames=[name]), old=old, chunk=10)
            v["files"][name + ".alt"] = alt
            lab.check("versions", {"versions": ["old-version", "new-version"], "others": ["replaced"], "old": old}, [b, n, v])


# --------------------------------------------------------------------- C14
def C14(lab):
    r = lab.r
    s = scen.gen(r)
    if r.random() < .4:
        s = io_scenario(r)
    N = r.choice([1, 3, 8, 15])
    T = r.choice([1, 1, 2, 3, 5])
    seed = hist_seed(r, N)
    old = r.choice([None, "previous results\n"])
    b = lab.run("undisturbed", s, N, T, seed, ref=True, old=old)
    base = probe(lab, b)
    for k in range(30):
        sp = dict(SER, budget=enough(base["steps"])) if r.random() < .5 else dict(lab.sched(T, base["steps"]), races=0)
        fail_alloc(r, sp, base)
        v = lab.run("faulted", s, N, T, seed, sp, old=old)
        lab.check("same_or_loud", {"base": "undisturbed", "others": ["faulted"], "old": old}, [b, v])


# --------------------------------------------------------------------- C15
ENVS = [("HOME", "/nowhere"), ("LANG", "de_DE.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("LC_NUMERIC", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("OMP_NUM_THREADS", "3"),
        ("TMPDIR", "/nonexistent"), ("USER", "somebody"), ("HDF5_USE_FILE_LOCKING", "FALSE"), ("MINIMC_SEED", "99"), ("MINIMC_THREADS", "2"),
        ("MINIMC_DEBUG", "1"), ("DEBUG", "1"), ("VERBOSE", "1"), ("SEED", "12345"), ("THREADS", "7"), ("NUM_THREADS", "7"), ("PATH", "/bin"), ("LC_ALL", "C.UTF-8"),
        ("POSIXLY_CORRECT", "1"), ("MALLOC_ARENA_MAX", "1"), ("COLUMNS", "20"), ("TERM", "dumb")]


def C15(lab):
    r = lab.r
    big = r.random() < .04
    s = scen.gen_big(r) if big else scen.gen(r)
    N = long_batch(r, .2) if big else r.choice([3, 10, 30])
    seed = hist_seed(r, N)
    if r.random() < .1:
        seed = None
    b = lab.run("reference", s, N, 1, seed, dict(SER), ref=True)
    base = lab.once(b)
    for k in range(2 if big else 10):
        T = r.choice([1, 1, 1, 3])
        sp = dict(SER, budget=enough(base["steps"])) if T == 1 else dict(lab.sched(T, base["steps"]), races=0)
        auto = None
        for what in r.sample(["memory", "memory", "clock", "entropy", "id", "env", "stdout", "leftover", "arg", "stack"], r.randint(1, 4)):
            if what == "memory":
                sp.update(ambient(r))
            elif what == "clock":
                sp["clock_seed"] = r.randint(1, 10 ** 9)
                sp["clock_base"] = r.choice([0, 1, 2 ** 31 - 1, 2 ** 32, 1700000000, 1893456000, r.getrandbits(33)])
            elif what == "entropy":
                sp["entropy_seed"] = r.getrandbits(32)
            elif what == "id":
                sp["id_seed"] = r.randint(1, 10 ** 6)
            elif what == "env":
                for n, v in r.sample(ENVS, r.randint(1, 6)):
                    sp["env." + n] = v
            elif what == "stdout":
                sp["out"] = r.choice(["full", "closed"])
            elif what == "arg":
                sp["arg"] = arg_of(r)
            elif what == "stack":
                auto = r.choice(["mmcpat", "mmczero"])
        v = lab.run("variant", s, N, T, seed, sp, chunk=10, old=r.choice([None, "previous results\n"]))
        if auto:
            v["exe"] = auto
        lab.check("same_bytes", {"base": "reference", "others": ["variant"], "loose": ["variant"] if T > 1 else []}, [b, v])


# --------------------------------------------------------------------- C16
def failing(r):
    """inputs in which some or all histories cannot be completed"""
    k = r.choice(["gap", "gap", "gap", "gap", "photon", "group", "start", "nofield", "scatterless"])
    s = None
    if k == "gap":
        # a wedge of space outside the model: one side of a plane is missing beyond the sphere
        s = scen.gen_multigroup(r, kind=r.choice(["spheres", "divided", "offset"]))
        outer = s["surfaces"][-1] if s["geometry"] != "divided" else s["surfaces"][0]
        x = round(outer["center"][0] + outer["r"] * r.uniform(.5, .97) * r.choice([-1, 1]), 4)
        s["surfaces"].append({"type": "planex", "name": "gap", "x": x})
        for c in s["cells"]:
            if not c.get("material"):
                c["surfaces"] = c["surfaces"] + [("gap", -1 if x > outer["center"][0] else 1)]
    elif k == "photon":
        s = scen.gen_multigroup(r)
        s["particles"] = "neutron photon"
        for i, n in enumerate(s["nuclides"]):
            if i and r.random() < .5:
                n["data"]["photon"] = scen.mg_data(r, s["groups"], False)
            else:
                n["data"].pop("photon", None)
        s["source"]["particle"] = "photon"
    elif k == "group":
        s = scen.gen_multigroup(r)
        s["source"]["energy"] = r.choice([0, s["groups"] + 1, s["groups"] + 1, s["groups"] + r.randint(2, 5)])
    elif k == "start":
        s = scen.gen_multigroup(r, kind="spheres")
        s["source"]["position"] = [50, 60, 70]
    elif k == "nofield":
        s = scen.gen_multigroup(r, kind="slab")
        s["cells"] = [c for c in s["cells"] if c.get("material") or r.random() < .5]
        if all(c.get("material") or 1 for c in s["cells"]) and len([c for c in s["cells"] if not c.get("material")]) == 2:
            s["cells"].pop()
        for e in s["estimators"]:
            e["surface"] = s["surfaces"][0]["name"] if not any(q["name"] == e["surface"] for q in s["surfaces"]) else e["surface"]
    else:
        # nothing to scatter into
        s = scen.gen_multigroup(r, fission=False)
        for n in s["nuclides"]:
            for d in n["data"].values():
                for row in d["scatter"]:
                    row[0] = 0.0
    s["fails"] = k
    return s


def incomplete(r):
    """inputs in which (almost) every batch reaches a state without data to continue"""
    k = r.random()
    if k < .45:  # particles which start in a material without data for them
        s = scen.gen_multigroup(r, kind=r.choice(["spheres", "divided", "offset", "slab", "cylinder"]))
        s["fails"] = why = r.choice(["no data for the type", "no data for the energy", "start outside the model"])
        if why == "no data for the type":
            s["particles"] = "neutron"
            s["source"]["particle"] = "photon"
            for n in s["nuclides"]:
                if r.random() < .5:
                    n["data"].pop("photon", None)
        elif why == "no data for the energy":
            s["source"]["energy"] = r.choice([s["groups"] + 1, s["groups"] + 1, s["groups"] + r.randint(2, 300), 0])
        else:
            s = scen.gen_multigroup(r, kind="spheres")
            s["fails"] = why
            s["cells"] = [c for c in s["cells"] if c.get("material")]
            s["source"]["position"] = [r.choice([-1, 1]) * r.uniform(40, 90) for _ in range(3)]
        return s, "every particle has " + why if why[0] == "n" else "every particle starts outside the model", False
    if k < .8:
        # every history reaches each group but the last one by fissions
        s = scen.gen_cascade(r)
        G = s["groups"]
        g = r.randrange(G - 1)
        for n in s["nuclides"]:
            f = n["data"]["neutron"]["fission"]
            f["chi"] = [[0 if i == g else v for i, v in enumerate(row)] for row in f["chi"]]
        s["fails"] = "no group for fission neutrons"
        return s, "fissions in group %d have no outgoing group" % (g + 1), False
    # reactions that stop at an energy which the total does not
    s = scen.gen_continuous(r)
    for n in s["nuclides"]:
        n["files"] = {k: v for k, v in n["files"].items() if k not in ("fission", "nubar")}
        for k in ("capture", "scatter"):
            a, v = s["files"][n["files"][k]]
            s["files"][n["files"][k]] = (a, [0.0] * len(v))
    s["temperature"] = {"type": "constant", "c": 293.6}
    for c in s["cells"]:
        c.pop("temperature", None)
    for m in s["materials"]:
        m["aden"] = round(m["aden"] * 100, 2)  # (nearly) every history collides
    s["fails"] = "no reaction"
    return s, "collisions have no reaction", True


def known_failing(r):
    """an input, a twin without the flaw and with a tally that tells which histories meet the flaw"""
    s = scen.gen_multigroup(r, kind=r.choice(["spheres", "divided", "offset", "slab", "slab", "cylinder"]), fission=r.random() < .6)
    k = s["geometry"]
    # leave out one region next to the outer boundary: whoever crosses its surface is lost
    voids = [c for c in s["cells"] if not c.get("material")]
    if k == "slab":
        gone = r.choice(voids)
        surf = gone["surfaces"][0][0]
    elif k == "cylinder":
        gone = r.choice([c for c in voids if c["surfaces"][0][0] in ("s1", "s2") and len(c["surfaces"]) == 1] )
        surf = gone["surfaces"][0][0]
    else:
        gone = voids[-1]
        surf = gone["surfaces"][0][0]
    s["estimators"] = [e for e in s["estimators"] if e["name"] != "lost"] + [{"name": "lost", "surface": surf}]
    twin = copy.deepcopy(s)
    s["cells"] = [c for c in s["cells"] if c is not gone]
    used = {n for c in s["cells"] for n, _ in c["surfaces"]}
    if surf not in used:
        return None
    s["fails"] = twin["fails"] = "region left out (%s)" % k
    return s, twin


def C16(lab):
    r = lab.r
    if r.random() < .05:  # problems that nothing solves
        s = scen.gen(r, ("multigroup", "cascade", "continuous"))
        s["eigen"] = (r.randint(1, 4), r.randint(1, 6))
        old = r.choice([None, "previous results\n"])
        for _ in range(3):
            T = r.choice([1, 2, 4, 9])
            v = lab.run("eigen", s, r.choice([1, 5, 20]), T, hist_seed(r, 40), dict(lab.sched(T, 500000), races=0), old=old)
            lab.check("must_fail", {"runs": ["eigen"], "why": "no history is run", "old": old}, [v])
        return
    if r.random() < .16:  # data that say that something happens, but not what
        s, why, rare = incomplete(r)
        old = r.choice([None, "previous results\n"])
        for k in range(4):
            T = r.choice([1, 2, 4, 9])
            N = r.choice([1, 5, 20]) * (20 if rare else 1)
            v = lab.run("incomplete%d" % k, s, N, T, hist_seed(r, 400), dict(lab.sched(T, 500000), races=0, budget=30000000), old=old)
            lab.check("must_fail", {"runs": [v["id"]], "why": why, "old": old}, [v])
        lab.st.count("inputs with failing histories: " + s["fails"])
        return
    both = known_failing(r) if r.random() < .4 else None
    s, twin = both or (failing(r), None)
    N = r.choice([1, 2, 3, 5, 8, 12, 20])
    seed = hist_seed(r, N)
    old = r.choice([None, "previous results\n"])
    singles = [lab.run("history%d" % k, s, 1, 1, seed + k, dict(SER, budget=60000000), ref=True, old=old) for k in range(N)]
    rs = [lab.once(x) for x in singles]
    bad = [i for i, x in enumerate(rs) if not core.ok(x)]
    if twin:
        twins = [lab.run("filled%d" % k, twin, 1, 1, seed + k, dict(SER, budget=60000000), ref=True) for k in range(N)]
        lab.check("meets", {"pairs": [[a["id"], b["id"]] for a, b in zip(singles, twins)], "tally": "lost", "old": old}, singles + twins)
    lab.st.count("inputs with failing histories: " + s["fails"], 1 if bad else 0)
    steps = max(x["steps"] for x in rs)
    # whole batch, and batches that hold exactly one failing history at a chosen position
    spans = [(0, N)]
    for i in r.sample(bad, min(2, len(bad))):
        a = i
        while a > 0 and (a - 1) not in bad:
            a -= 1
        c = i + 1
        while c < N and c not in bad:
            c += 1
        spans.append((r.randint(a, i), r.randint(i + 1, c)))
    if bad and bad[0] > 0:
        spans.append((0, bad[0]))
    for a, c in spans:
        for _ in range(3):
            T = r.choice([1, 2, 3, 4, 8, 16])
            sp = dict(lab.sched(T, (c - a) * steps), races=0)
            w = lab.run("batch", s, c - a, T, seed + a, sp, old=old)
            lab.check("loudly", {"singles": [x["id"] for x in singles[a:c]], "whole": ["batch"], "old": old}, singles[a:c] + [w])


# --------------------------------------------------------------------- C17
def C17(lab):
    r = lab.r
    letters = "abc"[:r.randint(1, 3)]
    F, alone, runs = {}, {}, []
    steps = 0
    # at most one input per kind of nuclear data files, as these share names
    fams = ["multigroup", "cascade", "shell"]
    other = r.choice(["continuous", "tsl", None])
    for i, l in enumerate(letters):
        fam = other if other and i == len(letters) - 1 else r.choice(fams)
        while True:
            s = scen.gen(r, (fam,))
            N, T, seed = r.choice([2, 5, 12]), r.choice([1, 2, 4]), hist_seed(r, 12)
            t = lab.run("alone-" + l, s, N, T, seed, ref=True)
            if lab.once(t)["steps"] < 4000000:
                break
        runs.append(t)
        alone[l] = t["id"]
        steps += lab.once(t)["steps"]
        for n, c in t["files"].items():
            F[l + ".xml" if n == "in.xml" else n] = c
    F["z.xml"] = scen.spoil(r, F[r.choice(letters) + ".xml"])
    for k in range(7):
        ops, live, free = [], {}, list("012345")
        refusals = r.choice([0, 0, .2, .4])
        for _ in range(r.randint(3, 9)):
            if r.random() < refusals:  # creating another driver fails
                ops.append("c9z")
            c = r.random()
            if (c < .45 or not live) and free and len(live) < 4:
                x = r.choice(free)
                free.remove(x)
                live[x] = r.choice(letters)
                ops.append("c" + x + live[x])
            elif c < .6 and len(live) > 1:
                ops.append("p" + "".join(r.sample(sorted(live), 2)))
            elif c < .88 and live:
                ops.append("s" + r.choice(sorted(live)))
            elif live:
                x = r.choice(sorted(live))
                del live[x]
                ops.append("d" + x)
        if not any(o[0] in "sp" for o in ops):
            if not live:
                ops.append("c0" + letters[0])
                live["0"] = letters[0]
            ops.append("s" + r.choice(sorted(live)))
        sp = lab.sched(4, len(ops) * steps)
        sp.update(races=0, ops=",".join(ops))
        if r.random() < .3:
            sp.update(ambient(r))
        refused = r.random() < .25
        if refused:
            sp["thread_fail_mask"] = r.choice([(1 << 64) - 1, (1 << 64) - 1, r.getrandbits(64), r.getrandbits(64) & r.getrandbits(64), r.getrandbits(64) | r.getrandbits(64)])
        v = {"id": "sequence", "exe": "mmcapi", "files": F, "spec": sp}
        lab.check("sequence", {"run": "sequence", "ops": sp["ops"], "alone": alone, "refused": refused}, runs + [v])


# --------------------------------------------------------------------- C18
def out_of(name):
    d, _, f = name.rpartition("/")
    i = f.rfind(".")
    return (d + "/" if d else "") + (f[:i] if i > 0 else f) + ".out"


def any_fault(lab, s, p, T):
    """something that goes wrong in a run like p, as run-spec entries"""
    r = lab.r
    sp = dict(SER, budget=enough(p["steps"])) if r.random() < .6 else dict(lab.sched(T, p["steps"]), races=0)
    m = r.choice(["none", "none", "io", "io", "io", "kill", "kill", "step", "alloc", "thread", "nofile", "stdout", "ambient"])
    n = max(1, len(p["io"]))
    w = [i for i, o in enumerate(p["io"]) if o[1] == "W"]
    i = r.choice(w) if w and r.random() < .7 else r.randrange(n)
    if m == "io":
        a = r.choice(["ERR", "ERR", "ERRP", "PARTERR", "SHORT", "EOF"])
        sp["faults"] = [[i, ACT[a], r.randint(1, 100) if a in ("PARTERR", "SHORT") else r.choice([5, 28, 13, 122, 30])]]
    elif m == "kill":
        a = r.choice(["KILL", "KILLAFTER", "KILLMID", "ABORT"])
        sp["faults"] = [[i, ACT[a], r.randint(1, 200)]]
    elif m == "step":
        sp["kill_step"] = r.randint(1, p["steps"])
    elif m == "alloc":
        fail_alloc(r, sp, p)
    elif m == "thread":
        sp["thread_fail_mask"] = r.getrandbits(T) or 1
        sp["thread_fail_errno"] = r.choice([11, 12])
    elif m == "nofile":
        sp["nofile"] = r.randint(3, 7)
    elif m == "stdout":
        sp["out"] = r.choice(["full", "closed"])
    elif m == "ambient":
        sp.update(ambient(r))
        sp["entropy_seed"], sp["id_seed"] = r.getrandbits(32), r.randint(1, 10 ** 6)
    return sp, m


def C18(lab):
    r = lab.r
    big = r.random() < .03
    s = scen.gen_big(r) if big else failing(r) if r.random() < .15 else io_scenario(r)
    N = r.choice([10000, 10000, 20000, 65537]) if big else r.choice([1, 4, 10])
    T = r.choice([1, 1, 2, 4])
    seed = hist_seed(r, N)
    b = lab.run("undisturbed", s, N, T, seed, ref=True)
    p = probe(lab, b)
    # files with names the program uses for others than the results: they may be somebody's
    pid = str(1000 + b["spec"].get("id_seed", 0) % 30000)
    taken = [n for n in p["touched"] if not n.lstrip("._#~").startswith("in") and "/" not in n and pid not in n]
    if taken:
        v = lab.run("run", s, N, T, seed, ref=True)
        for n in taken:
            v["files"].setdefault(n, "something else (%s)\n" % n * 10)
        v["tree"], v["out_name"] = True, "in.out"
        lab.check("contained", {"base": "undisturbed", "runs": {"run": {"in": "in.xml", "out": "in.out", "clean": True}}}, [b, v])
    for k in range(2 if big else 12):
        sp, m = any_fault(lab, s, p, T)
        name = r.choice(["in.xml", "in.xml", "in.xml", "in", "in.txt", "in.v2.xml", "sub/in.xml", "sub.d/in", "in.out", "in.", ".in.xml", "in.XML", "in.out.xml"])
        out = out_of(name)
        spoiled = r.random() < .2  # an input that is refused
        if spoiled and r.random() < .6:
            sp, m = dict(SER, budget=enough(p["steps"])), "none"
        v = lab.run("run", s, N, T, seed, sp, chunk=10)
        F = v["files"]
        F[name] = F.pop("in.xml")
        top = name.rpartition("/")[0]
        if top:
            for x in ("minimc.xsd", "minimc_basictypes.xsd"):
                F[top + "/" + x] = open(core.REPO + "/test/" + x).read()
        for x in r.sample(["other.out", "in.txt", "notes", "in.xml.out", "in", "out", "in.out", "in.hdf5", "old/in.out", "sub/in.out", ".in", "in.v2", "in.v2.out"], r.randint(2, 7)):
            if x not in F and (x + "/") not in "".join(F) and not any(y.startswith(x + "/") for y in F):
                F[x] = "something else (%s)\n" % x * r.randint(1, 300)
        data = []
        tables = sorted(n for n in s["files"] if n in F)
        if tables and out not in F and r.random() < .25:  # one of its tables has the name of its results
            n = r.choice(tables)
            F[name] = F[name].replace('"%s"' % n, '"%s"' % r.choice([out, out, "./" + out]))
            F[out] = F.pop(n)
            data.append(out)
        if r.random() < .5 and out not in F:
            F[out] = "previous results\n" * r.randint(1, 300)
        if spoiled:
            F[name] = scen.spoil(r, F[name])
        v["spec"]["arg"] = r.choice([name, name, "./" + name, "{dir}/" + name])
        v["tree"], v["out_name"] = True, out
        lab.check("contained", {"base": "undisturbed", "runs": {"run": {"in": name, "out": out, "data": data, "clean": m in ("none", "ambient"), "spoiled": spoiled}}}, [b, v])
    # through the library interface
    f = dict(b["files"])
    f["a.xml"] = f.pop("in.xml")
    f["a.out"] = "previous results\n"
    sp = dict(lab.sched(T, p["steps"]), races=0, ops=r.choice(["c0a,s0,d0", "c0a", "c0a,s0,s0", "c0a,c1a,p01"]))
    lab.check("contained", {"base": "undisturbed", "runs": {"run": {"in": "a.xml", "out": "", "clean": True, "api": 1}}},
              [b, {"id": "run", "exe": "mmcapi", "files": f, "spec": sp, "tree": True}])


# --------------------------------------------------------------------- C19
def C19(lab):
    r = lab.r
    letters = "ab"[:r.choice([1, 1, 2, 2])]
    F, alone, runs, probes, old = {}, {}, [], {}, {}
    T = r.choice([1, 1, 2, 3])
    for l in letters:
        s = io_scenario(r)
        while l == "b" and (set(s["files"]) & set(F)):
            s = scen.gen(r, ("multigroup", "cascade"))
        N = r.choice([1, 4, 10])
        t = lab.run("alone-" + l, s, N, T, hist_seed(r, N), ref=True)
        p = probe(lab, t)
        if not core.ok(p):
            return lab.check("together", {"alone": {l + ".out": t["id"]}, "run": t["id"], "procs": [], "old": {}}, [t])
        runs.append(t)
        alone[l + ".out"] = t["id"]
        probes[l] = p
        for n, c in t["files"].items():
            F[l + ".xml" if n == "in.xml" else n] = c
        o = old_of(r)
        old[l + ".out"] = o
        if o is not None:
            F[l + ".out"] = o
    for k in range(10):
        procs, about = [], []
        apart, host = r.random() < .7, 1000 + r.randrange(300)  # processes on several hosts may have one identifier
        for j in range(r.choice([2, 2, 2, 3])):
            l = letters[j] if j < len(letters) else r.choice(letters)
            p = probes[l]
            w = [i for i, o in enumerate(p["io"]) if o[1] == "W"]
            n = len(p["io"])
            picks = r.sample(w, r.randint(1, min(len(w), 12))) + [r.randrange(n) for _ in range(r.choice([0, 1, 3, 8]))]
            sp = dict(SER) if r.random() < .6 else dict(lab.sched(T, p["steps"]), races=0)
            sp.update(arg=l + ".xml", id_seed=1000 + r.randrange(300) * 4 + j if apart else host, entropy_seed=r.getrandbits(32), budget=enough(p["steps"]),
                      faults=[[i, ACT["GATE"], 0] for i in sorted(set(picks))])
            disturbed = False
            if r.random() < .3:
                disturbed = True
                i = r.choice(w) if r.random() < .7 else r.randrange(n)
                a = r.choice(["KILL", "KILL", "KILLAFTER", "KILLMID", "ERR", "PARTERR"])
                sp["faults"].append([i, ACT[a], 28 if a == "ERR" else r.randint(1, 100)])
                if r.random() < .2:
                    sp["faults"].pop()
                    sp["kill_step"] = r.randint(1, p["steps"])
            procs.append(sp)
            about.append({"out": l + ".out", "disturbed": disturbed})
        how = r.random()
        if how < .5:
            order = [r.randrange(len(procs)) for _ in range(60)]
        elif how < .8:  # one far ahead of the other
            order = sum(([j] * r.randint(1, 8) for j in [r.randrange(len(procs)) for _ in range(20)]), [])
        else:
            order = list(range(len(procs))) * 30
        v = {"id": "together", "files": F, "procs": procs, "order": order, "spec": {}}
        lab.check("together", {"alone": alone, "run": "together", "procs": about, "old": old}, runs + [v])


# --------------------------------------------------------------------- C20
def C20(lab):
    r = lab.r
    if r.random() < .5:
        s = scen.gen(r, ("multigroup", "multigroup", "cascade", "shell", "continuous", "tsl"))
        n = r.choice([10, 20, 40])
        m = r.choice([5, 10, 20])
        if r.random() < .3:
            s, n, m = scen.gen_big(r), 500, r.choice([4, 10, 21])
            if r.random() < .15:
                n, m = r.choice([(1000, 33), (4000, 17), (4000, 33)])
        seed = hist_seed(r, n * m)
        T = r.choice([1, 1, 1, 2, 4])
        parts, steps = [], 0
        for k in range(m):
            parts.append(lab.run("part%d" % k, s, n, T, seed + k * n, ref=True, chunk=10))
            one = lab.once(parts[-1])
            if not core.ok(one):
                lab.st.skipped += 1
                return
            steps += one["steps"]
            if steps > 100000000 and k:  # long histories
                break
        m = len(parts)
        for _ in range(2):
            sp = dict(SER, budget=enough(steps))
            w = lab.run("whole", s, n * m, T, seed, sp, chunk=r.choice([1, 10, n * m]))
            lab.check("bounded", {"parts": [p["id"] for p in parts], "whole": ["whole"], "n": n * m, "npart": n, "slack": 2048 * T, "workers": T}, parts + [w])
        return
    F, steps = {}, 0
    for l in "ab":
        s = failing(r) if r.random() < .2 else scen.gen(r, ("multigroup", "cascade", "continuous" if l == "a" else "shell", "tsl" if l == "a" else "multigroup"))
        N, T = r.choice([1, 3, 8]), r.choice([1, 2, 4])
        t = lab.run("alone-" + l, s, N, T, hist_seed(r, N), ref=True)
        steps += lab.once(t)["steps"]
        for n, c in t["files"].items():
            F[l + ".xml" if n == "in.xml" else n] = c
    F["z.xml"], F["w.xml"] = scen.spoil(r, F["a.xml"], True), scen.spoil(r, F["b.xml"], True)
    for k in range(3):
        ops, live, nthr = [], [], 0
        for _ in range(r.randint(1, 6)):
            x = r.choice("cccsspzzy")
            if x == "c" and len(live) < 4:
                live.append(str(len(live)))
                ops.append("c" + live[-1] + r.choice("ab"))
            elif x == "s" and live and nthr <= 16:
                nthr += 4
                ops.append("s" + r.choice(live))
            elif x == "p" and len(live) > 1 and nthr <= 12:
                nthr += 10
                ops.append("p" + "".join(r.sample(live, 2)))
            elif x == "z":
                ops.append("c9" + r.choice("zw"))
            elif x == "y":
                ops.append("c8y")
        r.shuffle(live)
        # operations on drivers that could not be created are left out by the program
        ops += ["d" + x for x in live] + ["h"]
        rounds = r.choice([8, 8, 12, 16])
        sp = dict(SER) if r.random() < .7 else lab.sched(4, steps * 10 * len(ops), stall=0)
        sp.update(races=0, ops=",".join(ops * rounds), budget=600000000)
        v = {"id": "rounds", "exe": "mmcapi", "files": F, "spec": sp}
        lab.check("released", {"run": "rounds", "ops": ",".join(ops[:-1]), "rounds": 5}, [v])


# --------------------------------------------------------------------- C21
def C21(lab):
    r = lab.r
    s = scen.gen(r, ("multigroup", "multigroup", "cascade", "continuous", "tsl", "thick"))
    # many workers, so that the share of one, made up of the longest histories, is far from everything
    N = r.choice([24, 32, 40, 48])
    T = r.choice([3, 4, 6, 8, 8, 10])
    chunk = r.choice([1, 1, 2])
    seed = hist_seed(r, N)
    singles = [lab.run("history%d" % k, s, 1, 1, seed + k, dict(SER), ref=True) for k in range(N)]
    one = lab.run("one", s, N, 1, seed, dict(SER), ref=True)
    w = max(lab.once(one)["thr_steps"][1:] or [1])
    runs, T_of = [], {}
    for k in range(15):
        v = lab.run("stall%d" % k, s, N, T, seed, dict(seed=r.getrandbits(48), strategy=core.RANDOM, p=r.choice([.1, .03, .01]) * min(1, 100000. / w), budget=enough(w), races=0,
                                                       stall_victim=r.randint(1, T), stall_at=r.randint(max(1, w // (4 * N)), max(2, w // (4 * T))), stall_for=0), chunk=chunk)
        runs.append(v)
        T_of[v["id"]] = T
    lab.check("delayed", {"one": "one", "singles": [x["id"] for x in singles], "others": [v["id"] for v in runs], "threads": T_of, "chunk": chunk}, [one] + singles + runs)


# --------------------------------------------------------------------- C22
def C22(lab):
    r = lab.r
    s = failing(r) if r.random() < .2 else io_scenario(r) if r.random() < .3 else scen.gen(r)
    N = r.choice([1, 3, 8, 20])
    T = r.choice([1, 1, 2, 3, 5])
    seed = hist_seed(r, N)
    b = lab.run("undisturbed", s, N, T, seed, dict(SER, mem=1), ref=True)
    p = probe(lab, b)
    lab.check("owned", {"runs": ["undisturbed"]}, [b])
    for k in range(14):
        sp, m = any_fault(lab, s, p, T)
        sp["mem"] = 1
        if r.random() < .5:
            sp["layout"] = 3  # memory that was given back is not used again
        v = lab.run("run", s, N, T, seed, sp, old=old_of(r))
        damaged = False
        if r.random() < .15:
            v["files"]["in.xml"] = scen.spoil(r, v["files"]["in.xml"])
        hs = [n for n in v["files"] if isinstance(v["files"][n], dict) and "axes" in v["files"][n]]
        if hs and r.random() < .15:
            damaged = True
            n = r.choice(hs)
            if r.random() < .3:
                del v["files"][n]
            else:
                v["files"][n] = dict(v["files"][n], trunc=r.randint(0, 3000))
        lab.check("owned", {"runs": ["run"], "damaged": damaged}, [v])
    f = dict(b["files"])
    f["a.xml"] = f.pop("in.xml")
    f["z.xml"] = scen.spoil(r, f["a.xml"])
    for k in range(2):
        sp = dict(lab.sched(T, p["steps"]), races=0, mem=1, layout=3 * r.randint(0, 1), ops=r.choice(["c0a,s0,c1a,s1,d0,s1", "c0a,c1z,s0,s0,d0", "c0a,c1a,p01,d1,s0", "c0z,c0z,c0a,s0", "c0a,d0,c0a,s0,d0"]))
        if r.random() < .4:
            fail_alloc(r, sp, p)
        lab.check("owned", {"runs": ["drivers"]}, [{"id": "drivers", "exe": "mmcapi", "files": f, "spec": sp}])


CAMPAIGNS = {f.__name__: f for f in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22)}
#        cases in the quick and thorough tiers
QUICK = {"C01": 600, "C02": 300, "C03": 200, "C04": 600, "C05": 500, "C06": 400, "C07": 800, "C08": 900, "C09": 800, "C10": 500, "C11": 450,
         "C12": 500, "C13": 200, "C14": 600, "C15": 700, "C16": 900, "C17": 600, "C18": 800, "C19": 420, "C20": 500, "C21": 200, "C22": 700}
CASES = {p: (QUICK[p], 8000) for p in CAMPAIGNS}
