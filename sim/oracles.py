"""Oracles: pure functions of the recorded outcomes; None or what is wrong."""
import math

import core
from core import BadOutput, claims, cmp_combined, cmp_results, cmp_section, describe, ok, parse


class Skip(Exception):
    """the undisturbed run did not succeed, so there is nothing to compare with"""


class Differs(Exception):
    """the undisturbed run failed, but another one succeeds"""


def base_of(p, res):
    b = res[p["base"]]
    if not ok(b) or b["out"] is None:
        if b["status"] not in (2, 3, 4) and not b["timeout"]:
            for v in p["others"]:
                if ok(res[v]):
                    raise Differs("%s succeeds, but %s failed (%s)" % (v, p["base"], describe(b)))
        raise Skip(describe(b))
    return b


def is_loud(r, old, want=None):
    """failed visibly and left the previous results file alone (or, where the
    right results are known, put the complete results in its place before)"""
    if ok(r):
        return "exit status 0"
    if claims(r) and (want is None or cmp_results(want, r["out"])):
        return "%s after the success message" % describe(r)
    if r["status"] in (2, 3) or r["timeout"]:
        return "no end: %s" % describe(r)
    if r["out"] != old and (want is None or cmp_results(want, r["out"])):
        return "%s, but the results file %s" % (describe(r), "appeared" if old is None else "disappeared" if r["out"] is None else "was changed to %r..." % r["out"][:40])
    return None


def same(p, res):
    """undisturbed variants give the results of the base run"""
    b = base_of(p, res)
    for v in p["others"]:
        r = res[v]
        if not ok(r):
            return "%s: the run failed (%s), the reference run succeeds" % (v, describe(r))
        m = cmp_results(b["out"], r["out"])
        if m:
            return "%s: %s" % (v, m)
    return None


def same_or_loud(p, res):
    """disturbed runs give the results of the base run, or fail visibly"""
    b = base_of(p, res)
    old = p.get("old")
    for v in p["others"]:
        r = res[v]
        if ok(r):
            m = cmp_results(b["out"], r["out"])
            if m:
                return "%s: success is reported but %s" % (v, m)
        else:
            m = is_loud(r, old, b["out"])
            if m:
                return "%s: %s" % (v, m)
    return None


def subdivided(p, sec):
    """the bins of one tally add up to the bins of another that they subdivide"""
    for a, b, cuts in p.get("nested", []):
        if a not in sec or b not in sec:
            return "tally missing"
        x, y = sec[a]["mean"], sec[b]["mean"]
        if len(x) != len(cuts) + 1 or cuts[-1] >= len(y):
            return "%s has %d bins, %s has %d" % (a, len(x), b, len(y))
        for j, (lo, hi) in enumerate(zip([0] + [c + 1 for c in cuts], [c + 1 for c in cuts] + [len(y)])):
            t = sum(y[lo:hi])
            if not abs(x[j] - t) <= 2e-6 * (abs(x[j]) + sum(abs(z) for z in y[lo:hi])) + 1e-12:
                return "bin %d of %s is %.7g, the bins %d to %d of %s, which make it up, are %.7g" % (j, a, x[j], lo, hi - 1, b, t)
    return None


def combination(p, res):
    """the whole is the combination of its parts, in means and in standard deviations"""
    parts = []
    for i in p["parts"]:
        r = res[i]
        if not ok(r):
            if r["status"] not in (2, 3, 4) and not r["timeout"]:
                for w in p["whole"]:
                    if ok(res[w]):
                        raise Differs("%s succeeds, but %s, which is a part of it, failed (%s)" % (w, i, describe(r)))
            raise Skip(describe(r))
        try:
            parts.append(parse(r["out"]))
        except BadOutput as e:
            return "%s: malformed results: %s" % (i, e)
    if p.get("singles"):
        for i, (n, sec) in zip(p["parts"], parts):
            if n != 1:
                return "%s: a single-history run reports %d histories" % (i, n)
            for s, c in sec.items():
                for m, d in zip(c["mean"], c["sd"]):
                    if math.isfinite(m) and math.isfinite(d) and abs(d) > 1e-7 * abs(m) + 1e-30:
                        return "%s: %s: a single history has standard deviation %g (mean %g)" % (i, s, d, m)
    for w in p["whole"]:
        r = res[w]
        if not ok(r):
            return "%s: the run failed (%s), its parts succeed" % (w, describe(r))
        try:
            whole = parse(r["out"])
        except BadOutput as e:
            return "%s: malformed results: %s" % (w, e)
        m = cmp_combined(parts, whole, sd=p.get("sd", True), mean=p.get("mean", True)) or subdivided(p, whole[1])
        if m:
            return "%s: %s" % (w, m)
    return None


def regroup(p, res):
    """different ways of cutting the same seed range into batches agree"""
    done = []
    for g in p["groups"]:
        parts = []
        for i in g:
            r = res[i]
            if not ok(r):
                if r["status"] == 0 and not r["timeout"]:
                    raise Skip(describe(r))
                return "%s: %s" % (i, describe(r))
            try:
                parts.append(parse(r["out"]))
            except BadOutput as e:
                return "%s: malformed results: %s" % (i, e)
        done.append(parts)
    first = core.combine(done[0])
    for g, parts in zip(p["groups"][1:], done[1:]):
        other = core.combine(parts)
        if list(first) != list(other):
            return "%s: tallies differ" % g
        for s in first:
            for i in range(len(first[s][0])):
                a, b = first[s], other[s]
                if len(a[0]) != len(b[0]):
                    return "%s: number of bins differs" % s
                A = max(a[2][i], b[2][i])
                if math.isfinite(a[0][i]) and math.isfinite(b[0][i]) and math.isfinite(A) and abs(a[0][i] - b[0][i]) > 2e-6 * A + 1e-9 * math.sqrt(max(a[1][i], b[1][i])) + 1e-12:
                    return "%s bin %d: the histories give %.7g in batches %s, but %.7g in batches %s" % (s, i, a[0][i], p["groups"][0], b[0][i], g)
    return None


def sections(p, res):
    """tallies present in several runs have the same values in all of them"""
    b = base_of(p, res)
    try:
        N, sb = parse(b["out"])
    except BadOutput as e:
        return "malformed results: %s" % e
    for v, keep in p["others"].items():
        r = res[v]
        if not ok(r):
            return "%s: the run failed (%s), the reference run succeeds" % (v, describe(r))
        try:
            n, s = parse(r["out"])
        except BadOutput as e:
            return "%s: malformed results: %s" % (v, e)
        if n != N:
            return "%s: %d histories instead of %d" % (v, n, N)
        for k in keep:
            if k not in s or k not in sb:
                return "%s: tally %s is missing" % (v, k)
            for q in ("cosine", "energy"):
                if s[k].get(q) != sb[k].get(q):
                    return "%s: tally %s has %s bins %r instead of %r" % (v, k, q, s[k].get(q), sb[k].get(q))
            m = cmp_section(sb[k], s[k], N)
            if m:
                return "%s: tally %s: %s" % (v, k, m)
        extra = set(s) - set(p["names"][v])
        gone = set(p["names"][v]) - set(s)
        if extra or gone:
            return "%s: tallies %s appeared, %s are missing" % (v, sorted(extra), sorted(gone))
    return None


def conserve(p, res):
    """closed-form balances"""
    for v in p["runs"]:
        r = res[v]
        if not ok(r):
            if r["status"] in (2, 3) or r["timeout"]:
                return "%s: a history has no end (%s)" % (v, describe(r))
            return "%s: the run failed: %s" % (v, describe(r))
        try:
            n, s = parse(r["out"])
        except BadOutput as e:
            return "%s: malformed results: %s" % (v, e)
        for g in p.get("exact", []):
            if any(e not in s for e in g):
                return "%s: tally missing" % v
            m = sum(s[e]["mean"][0] for e in g)
            if not abs(m - p["expect"]) <= 2e-6 * p["expect"]:
                return "%s: %.7g particles per history leave through %s, %d must" % (v, m, "+".join(g), p["expect"])
            if len(g) == 1:
                d = s[g[0]]["sd"][0]
                if d == d and d > 1e-4 * p["expect"]:
                    return "%s: the number leaving through %s varies, standard deviation %g" % (v, g[0], d)
        for a, b in p.get("parts", []):
            if a not in s or b not in s:
                return "%s: tally missing" % v
            x, y = s[a]["mean"][0], s[b]["mean"]
            if not abs(x - sum(y)) <= 2e-6 * (abs(x) + sum(abs(t) for t in y)) + 1e-12:
                return "%s: the bins of %s add up to %.7g, the unbinned current is %.7g" % (v, b, sum(y), x)
            if any(t < 0 for t in y):
                return "%s: negative current in %s" % (v, b)
        m = subdivided(p, s)
        if m:
            return "%s: %s" % (v, m)
        for a, b in p.get("equal", []):
            x, y = s[a]["mean"][0], s[b]["mean"][0]
            if not abs(x - y) <= 2e-6 * (abs(x) + abs(y)) + 1e-12:
                return "%s: %s is %.7g, %s is %.7g" % (v, a, x, b, y)
    return None


def multiplied(p, res):
    """every fission has y secondaries and there is no other reaction: N + (y - 1) * fissions particles leave"""
    a, b = res[p["run"]], res[p["none"]]
    if not ok(a) or not ok(b):
        return "%s: %s" % ((p["run"], describe(a)) if not ok(a) else (p["none"], describe(b)))
    (n, s), (_, t) = parse(a["out"]), parse(b["out"])
    x, x0 = s["leak"]["mean"][0] * n, t["leak"]["mean"][0] * n
    tol = 3e-6 * n * p["yield"]
    if abs(x0 - round(x0)) > tol or x0 > n + tol:
        return "%.7g of %d particles leave although none has secondaries" % (x0, n)
    if n - round(x0) == 0:
        raise Skip("no fission")
    if a["out"] == b["out"]:
        return "%d of %d source particles fission with %d secondaries each, none of which is followed" % (n - round(x0), n, p["yield"])
    f = (x - n) / (p["yield"] - 1)
    if f < n - round(x0) - tol or abs(f - round(f)) > tol:
        return "%.7g particles leave after at least %d fissions of %d particles with %d secondaries each" % (x, n - round(x0), n, p["yield"])
    return None


def races(p, res):
    for v in p["runs"]:
        r = res[v]
        if r["races"]:
            q = r["races"][0]
            return "%s: %d conflicting accesses, first: thread %d %s %s, thread %d %s %s" % (
                v, r["nrace_total"], q[3], "writes at" if q[5] else "reads at", q[1], q[4], "writes at" if q[6] else "reads at", q[2])
    return None


def work(p, res):
    """steps taken are those of the histories plus a fixed cost per worker"""
    for v in list(res):
        r = res[v]
        if r["status"] == 2:
            return "%s: %s" % (v, describe(r))
        if r["status"] == 3 or r["timeout"]:
            return "%s: no end: %s after %d steps" % (v, describe(r), r["steps"])
    for v in list(res):
        if not ok(res[v]):
            if p["ref_ids"] and v in p["ref_ids"]:
                raise Skip(describe(res[v]))
            return None  # a crash is not this property's business
    one = res[p["one"]]["steps"]
    if p.get("singles"):
        a, b, ab = (res[i]["steps"] for i in p["pair"])
        fixed = a + b - ab
        want = sum(res[i]["steps"] for i in p["singles"]) - (len(p["singles"]) - 1) * fixed
        slack = .08 * abs(want - fixed) + 3000
        if one > want + slack:
            return "%s: %d steps, the single histories need %d" % (p["one"], one, want)
    # steps of the workers' own threads, and what a worker costs when it does nothing
    def own(i):
        return sum(res[i]["thr_steps"][1:])
    each = max(0, own(p["pair"][0]) + own(p["pair"][1]) - own(p["pair"][2])) if p.get("pair") else 0
    for v, T in p["others"].items():
        for what, count in (("", lambda i: res[i]["steps"]), ("of the workers ", own)):
            over = count(p["empty%d" % T]) - count(p["empty1"])
            if over < .5 * (T - 1) * each:  # workers are not started without need
                over = 2.5 * (T - 1) * each
            one = count(p["one"])
            want = one + max(over, 0)
            slack = .04 * one + .2 * abs(over) + 3000 + 400 * T
            if count(v) <= want + slack:
                break
            msg = "%s: %d steps %swith %d workers, %d with one and %d for the workers themselves" % (v, count(v), what, T, one, over)
            if res[v]["polls"] < 20 or not own(p["one"]):  # waiting actively is not transport work
                return msg
        else:
            return msg
    return None


def same_bytes(p, res):
    b = base_of(p, res)
    for v in p["others"]:
        r = res[v]
        if not ok(r):
            return "%s: the run failed (%s), the reference run succeeds" % (v, describe(r))
        if v in p.get("loose", []):
            m = cmp_results(b["out"], r["out"])
        else:
            m = first_difference(b["out"], r["out"])
        if m:
            return "%s: %s" % (v, m)
    return None


def first_difference(a, b):
    if a == b:
        return None
    if b is None:
        return "no results file"
    for i, (x, y) in enumerate(zip(a.split("\n") + ["<end>"], b.split("\n") + ["<end>"])):
        if x != y:
            return "line %d is %r instead of %r" % (i + 1, y[:80], x[:80])
    return "results differ"


def complete(p, res):
    """success only with the complete results on disk"""
    b = base_of(p, res)
    for v in p["others"]:
        r = res[v]
        if ok(r) or claims(r):
            m = cmp_results(b["out"], r["out"])
            if m:
                return "%s: %s, but %s" % (v, "exit status 0" if ok(r) else "the success message was printed", m)
        elif r["status"] in (2, 3) or r["timeout"]:
            return "%s: %s" % (v, describe(r))
        if p.get("strict") and not ok(r):
            return "%s: the write was only split, but the run failed (%s)" % (v, describe(r))
    return None


def atomic(p, res):
    """after a crash the results file is the old one or complete; a rerun works"""
    b = base_of(p, res)
    old = p.get("old")
    for v, again in p["others"].items():
        r = res[v]
        if r["out"] != old:
            m = cmp_results(b["out"], r["out"])
            if m:
                was = "was absent" if old is None else "was there before"
                return "%s: after the run ended (%s) the results file, which %s, %s" % (
                    v, describe(r), was, "is gone" if r["out"] is None else "is neither the old nor the complete one: %s" % m)
        if again:
            a = res[again]
            if not ok(a):
                return "%s: running again after that fails: %s" % (again, describe(a))
            m = cmp_results(b["out"], a["out"])
            if m:
                return "%s: running again after that: %s" % (again, m)
    return None


def contained(p, res):
    """nothing but the results file is different afterwards"""
    b = res[p["base"]]
    for v, q in p["runs"].items():
        r, out, inp = res[v], q["out"], q["in"]
        if r["foreign"]:
            return "%s: it tries to change %s" % (v, r["foreign_name"])
        was, now = r["before"], r["after"]
        own = [inp] + q.get("data", [])
        for n in sorted(was):
            if (n != out or n in own) and now.get(n) != was[n]:
                return "%s (%s): %s %s" % (v, describe(r), n, "was changed" if n in now else "is gone")
        new = sorted(set(now) - set(was) - {out})
        for n in new:
            if n.rpartition("/")[0] != out.rpartition("/")[0]:
                return "%s (%s): %s appeared" % (v, describe(r), n)
        if len(new) > 1 or (new and q["clean"]):
            return "%s (%s): %s appeared" % (v, describe(r), ", ".join(new))
        if q.get("api"):
            if now != was:
                return "%s: %s appeared" % (v, sorted(set(now) - set(was)))
        elif ok(b) and ok(r) and out not in own and not q.get("spoiled"):
            m = cmp_results(b["out"], r["out"])
            if m:
                return "%s: success is reported but %s" % (v, m)
    return None


def versions(p, res):
    """the results are those of one version of every file"""
    outs = []
    for i in p["versions"]:
        r = res[i]
        outs.append(r["out"] if ok(r) else None)
        if r["status"] == 3 or r["timeout"]:
            raise Skip("one version has no end")
    if all(o is None for o in outs):
        raise Skip("no version succeeds")
    for v in p["others"]:
        r = res[v]
        if ok(r):
            ms = [cmp_results(o, r["out"]) for o in outs if o is not None]
            if all(ms):
                return "%s: the results belong to no version of the input: %s" % (v, "; ".join(ms)[:300])
        else:
            m = is_loud(r, p.get("old"))
            if m:
                return "%s: %s" % (v, m)
    return None


def loudly(p, res):
    """batches holding a failing history fail visibly; the others do not"""
    good = []
    failed = []
    for i in p["singles"]:
        r = res[i]
        if ok(r):
            good.append(i)
        else:
            failed.append(i)
            m = is_loud(r, p.get("old"))
            if m:
                return "%s: %s" % (i, m)
    for v in p["whole"]:
        r = res[v]
        if failed:
            m = is_loud(r, p.get("old"))
            if m:
                return "%s: history %s cannot be completed, but the run ends with %s" % (v, failed[0], m)
        else:
            if not ok(r):
                return "%s: %s, but every history can be completed" % (v, describe(r))
            m = combination(dict(parts=p["singles"], whole=[v]), res)
            if m:
                return m
    return None


def meets(p, res):
    """a history fails where, with the missing region filled in, it scores to the tally on its boundary"""
    for a, b in p["pairs"]:
        if not ok(res[b]):
            continue
        try:
            n, s = parse(res[b]["out"])
        except BadOutput:
            continue
        x = s[p["tally"]]["mean"][0]
        if x > 0:
            m = is_loud(res[a], p.get("old"))
            if m:
                return "%s: a particle is lost (%g with the region filled in), but the run ends with %s" % (a, x, m)
        elif x == 0 and not ok(res[a]):
            return "%s: %s, but no particle enters the missing region" % (a, describe(res[a]))
    return None


def together(p, res):
    """several processes in one directory: each one that is left alone succeeds, and
    a results file is there, and complete, once one of its writers succeeded"""
    want = {}
    for n, i in p["alone"].items():
        if not ok(res[i]):
            raise Skip(describe(res[i]))
        want[n] = res[i]["out"]
    r = res[p["run"]]
    done = set()
    for k, (part, q) in enumerate(zip(r["parts"], p["procs"])):
        n = q["out"]
        who = "process %d of %d" % (k, len(r["parts"]))
        if part["status"] in (2, 3) or part["timeout"]:
            return "%s: %s" % (who, describe(part))
        if ok(part) or claims(part):
            done.add(n)
            m = cmp_results(want[n], part["files"].get(n))
            if m:
                return "%s reports success, but then %s: %s" % (who, n, m)
        if not ok(part) and not q["disturbed"]:
            return "%s fails (%s), though nothing but the other processes disturbs it" % (who, describe(part))
    for n in sorted(want):
        now, old = r["files"].get(n), p["old"].get(n)
        if now == old and n not in done:
            continue
        m = cmp_results(want[n], now)
        if m:
            return "in the end %s: %s" % (n, m)
    return None


def bounded(p, res):
    """memory in use does not grow with the number of histories"""
    parts = []
    for i in p["parts"]:
        if not ok(res[i]):
            raise Skip(describe(res[i]))
        parts.append(res[i])
    for v in p["whole"]:
        r = res[v]
        if not ok(r):
            return "%s: the run failed (%s), its parts succeed" % (v, describe(r))
        # over the whole run, when the first thread is started, and since then
        # (while a worker is in the middle of a history, another may be so too)
        for what, count, many in (("", lambda q: q["heap_peak"] - q["heap_start"], 1), ("(before the first thread) ", lambda q: max(0, q["heap_mark"] - q["heap_start"]), 1), ("more ", lambda q: q["heap_work"], p["workers"])):
            most, few = count(r), max(map(count, parts))
            if most > many * few + p["slack"]:
                return "%s: %d histories need %d %sbytes, batches of at most %d of them need %d" % (v, p["n"], most, what, p["npart"], few)
    return None


def released(p, res):
    """what the operations acquire is given back: repeating them does not need more and more"""
    r = res[p["run"]]
    if not ok(r):
        if r["status"] in (2, 3) or r["timeout"]:
            return describe(r)
        raise Skip(describe(r))
    parts = api_parts(r["api"])
    held = [tuple(map(int, parts[k][1][0].split())) for k in sorted(k for k in parts if k != "end") if parts[k][0] == "held"]
    tail = held[-p["rounds"]:]
    for i, what in enumerate(("bytes of memory", "file descriptors", "threads")):
        x = [h[i] for h in tail]
        if all(a < b for a, b in zip(x, x[1:])):
            return "after each round of %s more %s are held: %s" % (p["ops"], what, x)
        # what doubles its size now and then grows whenever the number of rounds doubles
        y = [h[i] for h in held]
        y = [y[len(y) // 4 - 1], y[len(y) // 2 - 1], y[-1]] if len(y) >= 12 else []
        if y and y[0] < y[1] < y[2]:
            return "%s held after a quarter, half and all of %d rounds of %s: %s" % (what, len(held), p["ops"], y)
    return None


MISUSE = ["", "memory that was never allocated", "memory that was given back", "memory beyond the end of what was allocated", "a pointer that was not allocated", "a pointer that was given back before", "a pointer that is not allocated, in a library"]


def owned(p, res):
    """heap memory is only used while it is allocated"""
    for v in p["runs"]:
        r = res[v]
        # what the libraries free after a failure is not judged
        failed = p.get("damaged") or r["fired_malloc"] or any(r["faults"])
        bad = [m for m in r["misuse"] if m[0] != 6 or not failed]
        if bad:
            k, w, t, a, n, pc, step = bad[0]
            return "%s: %s %s at %s by thread %d (%d bytes at %s; %d such accesses; the run ends with: %s)" % (
                v, "freeing" if k >= 4 else "writing" if w else "reading", MISUSE[k], pc, t, n, a, r["nmisuse"], describe(r)[:80])
    return None


def delayed(p, res):
    """while one worker stands still, the others do the rest of the work"""
    one = res[p["one"]]
    hist = [res[i]["thr_steps"] for i in p["singles"]]
    if not all(ok(res[i]) for i in p["singles"]) or not ok(one):
        raise Skip("the undisturbed runs fail")
    # a worker's steps for nothing, and for each history
    alone = [max(h[1:] or h) for h in hist]
    idle = (sum(alone) - max(one["thr_steps"][1:] or one["thr_steps"])) / (len(hist) - 1)
    work = [a - idle for a in alone]
    total = sum(work)
    held, n = [], 0
    for v in p["others"]:
        r = res[v]
        if not ok(r):
            return "%s: %s" % (v, describe(r))
        if not r["released"] or not r["rel_steps"]:
            continue
        n += 1
        after = sum(r["thr_steps"][1:]) - sum(r["rel_steps"][1:])
        T = p["threads"][v]
        N = len(hist)
        fair = max(p["chunk"], -(-N // T))
        # what the stalled worker may keep to itself: its share of the histories
        share = sum(sorted(work)[-fair:]) + T * idle
        if after > 1.2 * share + 500:
            held.append((v, after, share))
    if n >= 8 and len(held) * 3 > n:
        v, after, share = held[0]
        return "with one worker at a standstill the others leave %d steps of work undone, which is more than its share of %d (of %d); so in %d of %d schedules" % (after, share, total, len(held), n)
    return None


def must_fail(p, res):
    for v in p["runs"]:
        m = is_loud(res[v], p.get("old"))
        if m:
            return "%s: %s, but the run ends with %s" % (v, p["why"], m)
    return None


def api_parts(text):
    out, cur = {}, None
    for l in (text or "").split("\n"):
        if l.startswith("@@"):
            cur = l[2:]
            if cur == "end":
                out["end"] = ""
                break
            n, what = cur.split(" ", 1)
            cur = int(n)
            out[cur] = [what, []]
        elif cur is not None and isinstance(cur, int):
            out[cur][1].append(l)
    return out


def sequence(p, res):
    """every solve in a sequence of operations gives the results of a lone run"""
    r = res[p["run"]]
    want = {}
    for l, i in p["alone"].items():
        b = res[i]
        if not ok(b) or b["out"] is None:
            raise Skip(describe(b))
        want[l] = b["out"]
    if not ok(r):
        return "the sequence %s failed: %s" % (p["ops"], describe(r))
    parts = api_parts(r["api"])
    slots = {}
    for n, op in enumerate(p["ops"].split(",")):
        what = parts.get(n, ["nothing", []])
        if op[0] == "c":
            slots[op[1]] = op[2]
            if what[0] != "created" and op[2] != "z":
                return "operation %d (%s): creating a driver gave %r" % (n, op, what[0])
        elif op[0] == "s":
            if what[0] == "failed solve" and p.get("refused"):
                continue
            if what[0] != "solved":
                return "operation %d (%s): solving gave %r" % (n, op, what[0])
            m = cmp_results(want[slots[op[1]]], "\n".join(what[1]))
            if m:
                return "operation %d of %s (solve of input %s): %s" % (n, p["ops"], slots[op[1]], m)
        elif op[0] == "p":
            for k in op[1:]:
                what = parts.get(1000 * (n + 1) + int(k), ["nothing", []])
                if what[0] == "failed solve" and p.get("refused"):
                    continue
                if what[0] != "solved":
                    return "operation %d (%s): solving gave %r" % (n, op, what[0])
                m = cmp_results(want[slots[k]], "\n".join(what[1]))
                if m:
                    return "operation %d of %s (solve of input %s, at the same time as another): %s" % (n, p["ops"], slots[k], m)
    if "end" not in parts:
        return "the sequence did not reach its end"
    return None


ORACLES = {f.__name__: f for f in (multiplied, same, same_or_loud, combination, regroup, sections, conserve, races, work, same_bytes,
                                   complete, atomic, versions, loudly, meets, must_fail, sequence, contained, together, bounded, released, owned, delayed)}
