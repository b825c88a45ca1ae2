"""Experiments: a set of simulated runs and an oracle over their outcomes.

Holds the gate that every alarm must pass, the minimiser and the replay files.
"""
import copy
import hashlib
import json
import os
import random
import re
import time

import core
import oracles

NONDET_KEYS = ("strategy", "p", "quantum", "depth", "estlen")


class Violation(Exception):
    def __init__(self, exp, msg):
        Exception.__init__(self, msg)
        self.exp, self.msg = exp, msg


class NonDeterminism(core.SimError):
    pass


def execute(box, exp, cached=True, stats=None):
    res = {}
    fired = []
    for run in exp["runs"]:
        before = box.nruns
        r = box.run(run, cached=cached and bool(run.get("ref")))
        res[run["id"]] = r
        if stats is not None and box.nruns != before:
            fired.append(stats.run(run, r))
    if stats is not None:
        stats.evaluated(exp["runs"], res, fired)
    return res


def judge(exp, res):
    try:
        return oracles.ORACLES[exp["oracle"]](exp.get("params", {}), res)
    except oracles.Differs as d:
        return str(d)


def signature(box, exp, res):
    """what must be the same whenever these runs are repeated"""
    out = []
    for run in exp["runs"]:
        r = res[run["id"]]
        if r["timeout"]:
            out.append("timeout")
            continue
        so = r["stdout"].replace(box.base, "@")
        h = hashlib.sha1(json.dumps([r["sig"], r["code"], r["status"], r["out"], so, r["api"], r.get("after")]).encode()).hexdigest()[:12]
        out.append("%s:%s:%d" % (r["hash"], h, r["steps"]))
    return out


def gate(exes, exp, msg):
    """the same message twice in one process and once in a fresh one, or it is no finding"""
    sigs = []
    for fresh in range(2):
        box = core.Box(exes)
        try:
            for _ in range(2 if fresh == 0 else 1):
                res = execute(box, exp, cached=False)
                m = judge(exp, res)
                sigs.append((signature(box, exp, res), m))
        finally:
            box.close()
    if any(s != sigs[0] for s in sigs[1:]):
        raise NonDeterminism("runs of one experiment differ: %s" % sigs)
    if not sigs[0][1]:
        raise NonDeterminism("not reproduced in a fresh process: %s" % msg)
    return sigs[0]


# ------------------------------------------------------------------ minimising
class Minimiser:
    def __init__(self, exes, exp, budget_runs=240, seconds=60):
        self.box = core.Box(exes)
        self.exp = exp
        self.left = budget_runs
        self.end = time.monotonic() + seconds

    def close(self):
        self.box.close()

    def fails(self, exp):
        if self.left <= 0 or time.monotonic() > self.end:
            return None
        self.left -= 1
        try:
            res = execute(self.box, exp, cached=True)
            return judge(exp, res)
        except core.SimError:
            self.box.restart()
            return None

    def attempt(self, change):
        e = copy.deepcopy(self.exp)
        if change(e) is False:
            return False
        m = self.fails(e)
        if m:
            self.exp = e
            return True
        return False

    def ddmin(self, get, put):
        """minimise a list found by get(exp)"""
        n = 2
        items = get(self.exp)
        if self.attempt(lambda e: put(e, [])):
            return
        while len(items) >= 2 and self.left > 0 and time.monotonic() < self.end:
            k = (len(items) + n - 1) // n
            hit = False
            for i in range(0, len(items), k):
                rest = items[:i] + items[i + k:]
                if self.attempt(lambda e: put(e, rest)):
                    items = rest
                    n = max(n - 1, 2)
                    hit = True
                    break
            if not hit:
                if k == 1:
                    break
                n = min(len(items), n * 2)

    def run(self):
        # everything that a run does not need for the alarm is dropped
        for i, run in enumerate(self.exp["runs"]):
            if run.get("ref"):
                continue
            for j in range(len(run.get("procs", []))):
                for k in ("kill_step", "seed"):
                    def plain(e, i=i, j=j, k=k):
                        q = e["runs"][i]["procs"][j]
                        if k not in q:
                            return False
                        if k == "seed":
                            for x in NONDET_KEYS + ("seed", "stall_victim", "stall_at", "stall_for", "stall_late", "tick"):
                                q.pop(x, None)
                            q["strategy"] = core.SERIAL
                        else:
                            q.pop(k)
                    self.attempt(plain)

                def put(e, v, i=i, j=j):
                    e["runs"][i]["procs"][j]["faults"] = v
                self.ddmin(lambda e, i=i, j=j: e["runs"][i]["procs"][j]["faults"], put)
            if run.get("procs"):
                def put(e, v, i=i):
                    e["runs"][i]["order"] = v
                self.ddmin(lambda e, i=i: e["runs"][i]["order"], put)
                continue
            for k in ("tick", "stall_victim", "layout", "garbage", "clock_seed", "entropy_seed", "id_seed", "thread_fail_mask", "nofile"):
                if k in run["spec"]:
                    def drop(e, i=i, k=k):
                        sp = e["runs"][i]["spec"]
                        for q in [k] + (["stall_at", "stall_for", "stall_late"] if k == "stall_victim" else ["layout_seed"] if k == "layout" else []):
                            sp.pop(q, None)
                    self.attempt(drop)
            if len(run["spec"].get("faults", [])) > 1:
                def put(e, v, i=i):
                    e["runs"][i]["spec"]["faults"] = v
                self.ddmin(lambda e, i=i: e["runs"][i]["spec"]["faults"], put)
        for i, run in enumerate(self.exp["runs"]):
            if run.get("ref") or run.get("procs") or run["spec"].get("strategy") in (None, core.SERIAL, core.REPLAY) and "seed" not in run["spec"]:
                continue
            self.schedule(i)
        return self.exp

    def schedule(self, i):
        run = self.exp["runs"][i]
        if run["spec"].get("strategy") == core.REPLAY:
            return
        # a plainer schedule first
        def plain(e):
            sp = e["runs"][i]["spec"]
            for k in NONDET_KEYS + ("seed", "stall_victim", "stall_at", "stall_for", "stall_late"):
                sp.pop(k, None)
            sp["strategy"] = core.REPLAY
            sp["trace"] = []
        if self.attempt(plain):
            return
        r = random.Random(7)
        for p in (.0003, .001, .003):
            for _ in range(8):
                seed = r.getrandbits(40)

                def calm(e):
                    sp = e["runs"][i]["spec"]
                    for k in NONDET_KEYS:
                        sp.pop(k, None)
                    sp.update(strategy=core.RANDOM, p=p, seed=seed)
                if run["spec"].get("strategy") == core.RANDOM and run["spec"].get("p", 1) <= p:
                    break
                if self.attempt(calm):
                    break
            else:
                continue
            break
        tf = self.box.base + "/trace.txt"
        res = {}
        for j, q in enumerate(self.exp["runs"]):
            r = self.box.run(q, tracefile=tf if j == i else None)
            if j == i and r["trace_overflow"]:
                return
            if j == i:
                break
        trace = [[int(x) for x in l.split()] for l in open(tf)]

        def as_trace(e):
            sp = e["runs"][i]["spec"]
            for k in NONDET_KEYS:
                sp.pop(k, None)
            sp["strategy"] = core.REPLAY
            sp["trace"] = trace
        if not self.attempt(as_trace):
            return

        def put(e, v):
            e["runs"][i]["spec"]["trace"] = v
        self.ddmin(lambda e: e["runs"][i]["spec"]["trace"], put)


def report(exes, exp, msg, where, minimise=True):
    """gate, minimise, write the replay file; returns (path, message)"""
    gate(exes, exp, msg)
    if minimise:
        m = Minimiser(exes, exp)
        try:
            small = m.run()
        finally:
            m.close()
        try:
            sig, msg2 = gate(exes, small, msg)
            exp, msg = small, msg2
        except core.SimError:
            sig, msg = gate(exes, exp, msg)
    else:
        sig, msg = gate(exes, exp, msg)
    exp["message"], exp["signature"] = msg, sig
    os.makedirs(where, exist_ok=True)
    h = hashlib.sha1(json.dumps(exp, sort_keys=True).encode()).hexdigest()[:10]
    path = "%s/%s-%s.json" % (where, exp["property"], h)
    with open(path, "w") as f:
        json.dump(exp, f, indent=1)
    return path, msg
