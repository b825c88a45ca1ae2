"""Running simulated executions: servers, scratch directories, results."""
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MMC_REPO", "/repo")
sys.path.insert(0, HERE)
import scen  # noqa: E402

RANDOM, PCT, RR, SERIAL, SYNC, BURST, REPLAY = range(7)
ACT = dict(ERR=0, SHORT=1, PARTERR=2, EOF=3, KILL=4, KILLAFTER=5, KILLMID=6, REPLACE=7, ERRP=8, ABORT=9, CUT=10, GATE=11)
OPS = ["open", "read", "write", "close", "rename", "unlink", "stat", "seek", "sync", "truncate"]


class SimError(Exception):
    """the simulator itself could not do its work"""


def scratch_base(parent=None):
    """a fresh directory whose name always has the same length"""
    root = parent or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    for _ in range(100):
        d = "%s/mmc-%s" % (root, os.urandom(6).hex())
        try:
            os.mkdir(d)
            return d
        except FileExistsError:
            pass
    raise SimError("no scratch directory")


class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0,
                                  env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"})
        self.rd = os.fdopen(self.p.stdout.fileno(), "rb", closefd=False)

    def run(self, line):
        self.send(line)
        return self.receive()

    def send(self, line):
        if self.p is None:
            self.start()
        self.p.stdin.write(line.encode() + b"\n")

    def receive(self):
        out = self.rd.readline()
        if not out:
            self.stop()
            raise SimError("simulation server died")
        return json.loads(out)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
        self.p = None


class Box:
    """one worker's scratch area and servers"""

    def __init__(self, exes, parent=None):
        self.exes = exes
        self.base = scratch_base(parent)
        os.mkdir(self.base + "/common")
        os.mkdir(self.base + "/run")
        for f in ("minimc.xsd", "minimc_basictypes.xsd"):
            shutil.copyfile("%s/test/%s" % (REPO, f), "%s/common/%s" % (self.base, f))
        self.servers = {}
        self.h5 = {}
        self.cache = {}
        self.nruns = 0

    def close(self):
        for s in self.servers.values():
            s.stop()
        shutil.rmtree(self.base, ignore_errors=True)

    def restart(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}

    def h5file(self, spec):
        key = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
        if key not in self.h5:
            self.h5_many([spec])
        return self.h5[key]

    def h5_many(self, specs):
        todo = []
        for spec in specs:
            key = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
            if key in self.h5 or any(k == key for k, _ in todo):
                continue
            todo.append((key, spec))
        if not todo:
            return
        text = "".join(scen.h5_text(self.base + "/common/" + k, s["axes"], s["vals"]) for k, s in todo)
        r = subprocess.run([self.exes["h5gen"]], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise SimError("h5gen failed")
        for k, _ in todo:
            self.h5[k] = self.base + "/common/" + k

    def populate(self, files):
        d = self.base + "/run"
        for n in os.listdir(d):
            if os.path.isdir(d + "/" + n) and not os.path.islink(d + "/" + n):
                shutil.rmtree(d + "/" + n)
            else:
                os.unlink(d + "/" + n)
        h5s = [f for f in files.values() if isinstance(f, dict) and "axes" in f]
        if h5s:
            self.h5_many([{"axes": f["axes"], "vals": f["vals"]} for f in h5s])
        for f in ("minimc.xsd", "minimc_basictypes.xsd"):
            if f not in files:
                shutil.copyfile("%s/common/%s" % (self.base, f), d + "/" + f)
        for n, c in files.items():
            if c is None:
                continue
            if "/" in n:
                os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
            if isinstance(c, str):
                with open(d + "/" + n, "w") as f:
                    f.write(c)
            elif "axes" in c:
                p = self.h5file({"axes": c["axes"], "vals": c["vals"]})
                if "trunc" in c or "append" in c:
                    b = open(p, "rb").read()
                    b = b[:c["trunc"]] if "trunc" in c else b + b"\0" * c["append"]
                    open(d + "/" + n, "wb").write(b)
                else:
                    shutil.copyfile(p, d + "/" + n)
            elif "dir" in c:
                os.mkdir(d + "/" + n)
            elif "hex" in c:
                with open(d + "/" + n, "wb") as f:
                    f.write(bytes.fromhex(c["hex"]))

    def tree(self):
        """digests of everything in the run's directory"""
        d, t = self.base + "/run", {}
        for at, dirs, names in os.walk(d):
            for n in dirs + names:
                p = os.path.join(at, n)
                k = os.path.relpath(p, d)
                if k.split(".")[0] in ("stdout", "stderr") or k == "api.txt":
                    continue
                if os.path.islink(p):
                    t[k] = "link " + os.readlink(p)
                elif os.path.isdir(p):
                    t[k] = "directory"
                else:
                    with open(p, "rb") as f:
                        t[k] = hashlib.sha1(f.read()).hexdigest()
        return t

    def line(self, spec, trace=None):
        line = "dir=%s/run" % self.base
        for k, v in spec.items():
            if k == "faults":
                for f in v:
                    line += " fault=%d:%d:%d" % (f[0], f[1], f[2])
            elif k == "repnames":
                for n in v:
                    line += " repname=" + n
            elif k == "trace":
                trace = v
            elif isinstance(v, bool):
                line += " %s=%d" % (k, v)
            elif k == "arg":
                line += " arg=" + v.replace("{dir}", "/simulated/run")
            else:
                line += " %s=%s" % (k, v)
        if trace is not None:
            tf = self.base + "/replay.txt"
            with open(tf, "w") as f:
                f.write("".join("%d %d %d\n" % tuple(t) for t in trace))
            line += " replay=" + tf
        return line

    def run(self, run, tracefile=None, trace=None, cached=False):
        """run: {"exe", "files", "spec"}; returns the result record"""
        key = None
        if cached:
            key = hashlib.sha1(json.dumps([run, trace], sort_keys=True).encode()).hexdigest()
            if key in self.cache:
                return self.cache[key]
        d = self.base + "/run"
        if not run.get("keep"):  # otherwise the run finds what the previous one left
            self.populate(run["files"])
        before = self.tree() if run.get("tree") else None
        if run.get("procs"):
            return self.together(run, key)
        spec = dict(run["spec"])
        line = self.line(spec, trace)
        if tracefile:
            line += " tracefile=" + tracefile
        exe = run.get("exe", "mmc")
        if exe not in self.servers:
            self.servers[exe] = Server(self.exes[exe])
        r = self.servers[exe].run(line)
        self.nruns += 1

        def get(n):
            try:
                with open(d + "/" + n, "rb") as f:
                    return f.read().decode("latin-1")
            except OSError:
                return None
        r["out"] = get(run.get("out_name", "in.out"))
        if before is not None:
            r["before"], r["after"] = before, self.tree()
        r["stdout"] = get("stdout") or ""
        r["stderr"] = (get("stderr") or "")[-600:]
        r["api"] = get("api.txt") if exe == "mmcapi" else None
        r["ls"] = sorted(os.listdir(d))
        if r["code"] in (96, 97, 98, 99) and r["status"] == 0:
            raise SimError("simulator setup failed, code %d: %s" % (r["code"], r["stderr"]))
        if r["status"] == 5:
            raise SimError("simulator limit: " + r["note"])
        if key:
            if len(self.cache) > 3000:
                self.cache.clear()
            self.cache[key] = r
        return r


    def together(self, run, key):
        """several processes in one directory; exactly one of them runs at any time"""
        import select
        d = self.base + "/run"
        ps, state = [], []
        for i, sp in enumerate(run["procs"]):
            k = "%s#%d" % (sp.get("exe", "mmc"), i)
            if k not in self.servers:
                self.servers[k] = Server(self.exes[sp.get("exe", "mmc")])
            g = "%s/gate%d" % (self.base, i)
            for e in (".out", ".in"):
                if not os.path.exists(g + e):
                    os.mkfifo(g + e)
            fo = os.open(g + ".out", os.O_RDWR | os.O_NONBLOCK)
            fi = os.open(g + ".in", os.O_RDWR | os.O_NONBLOCK)
            ps.append((self.servers[k], fo, fi))
            state.append("new")
        parts = [None] * len(ps)
        after = [None] * len(ps)

        def read(n):
            try:
                with open(d + "/" + n, "rb") as f:
                    return f.read().decode("latin-1")
            except OSError:
                return None

        def go(i):
            s, fo, fi = ps[i]
            if state[i] == "done":
                return
            if state[i] == "new":
                s.send(self.line(dict(run["procs"][i], tag=str(i), gate="%s/gate%d" % (self.base, i))))
            else:
                os.write(fi, b"g")
            ready, _, _ = select.select([fo, s.p.stdout.fileno()], [], [], 800)
            if fo in ready:
                os.read(fo, 1)
                state[i] = "paused"
                return
            r = s.receive()
            state[i] = "done"
            r["stdout"] = read("stdout.%d" % i) or ""
            r["stderr"] = (read("stderr.%d" % i) or "")[-600:]
            r["files"] = {n: read(n) for n in os.listdir(d) if n.endswith(".out")}
            r["files"] = {n: v for n, v in r["files"].items() if v is not None}
            parts[i] = r
        try:
            for i in run["order"]:
                go(i)
            while any(s != "done" for s in state):
                for i in range(len(ps)):
                    go(i)
        finally:
            for s, fo, fi in ps:
                os.close(fo)
                os.close(fi)
        self.nruns += 1
        for p in parts:
            if p["code"] in (96, 97, 98, 99) and p["status"] == 0:
                raise SimError("simulator setup failed, code %d: %s" % (p["code"], p["stderr"]))
            if p["status"] == 5:
                raise SimError("simulator limit: " + p["note"])
        r = dict(parts[0])
        for k in ("steps", "switches", "vclock_ns"):
            r[k] = sum(p[k] for p in parts)
        for k in ("fired_malloc", "fired_thread", "fired_stall", "fired_clock", "fired_late"):
            r[k] = max(p[k] for p in parts)
        r["threads"] = max(p["threads"] for p in parts)
        r["hash"] = ":".join(p["hash"] for p in parts)
        r["interleave"] = ":".join(p["interleave"] for p in parts) + str(run["order"])
        r["faults"] = [x for p in parts for x in p["faults"]]
        r["timeout"] = max(p["timeout"] for p in parts)
        r["stdout"] = "\n".join(p["stdout"] for p in parts)
        r["out"], r["api"] = json.dumps([p["files"] for p in parts]), None
        r["files"] = {n: read(n) for n in os.listdir(d) if n.endswith(".out")}
        r["ls"] = sorted(os.listdir(d))
        r["parts"] = parts
        if key:
            self.cache[key] = r
        return r


# ------------------------------------------------------------ outcomes
def success(r):
    return r["status"] == 1 or (r["sig"] == 0 and r["code"] == 0 and r["status"] == 0)


def ok(r):
    return r["sig"] == 0 and r["code"] == 0 and not r["timeout"]


def claims(r):
    return "Output written" in r["stdout"]


def describe(r):
    if r["timeout"]:
        return "no end within the wall-clock limit"
    if r["status"] == 2:
        return "deadlock (%s)" % r["note"]
    if r["status"] == 3:
        return "step budget exhausted"
    if r["status"] == 4:
        return "killed by the simulator"
    if r["sig"]:
        return "signal %d: %s" % (r["sig"], r["stderr"].strip().replace("\n", " | ")[-200:])
    return "exit %d" % r["code"]


def loud(r):
    return not ok(r) and not claims(r)


# ------------------------------------------------------------ results files
class BadOutput(Exception):
    pass


def _nums(line):
    out = []
    for t in line.replace(",", " ").split():
        try:
            out.append(float(t))
        except ValueError:
            raise BadOutput("not a number: %r" % t)
    return out


def parse(text):
    """-> (histories, {section: {"cosine","energy": text, "mean","sd": [..]}}) in order"""
    if text is None:
        raise BadOutput("no results file")
    lines = text.split("\n")
    try:
        batch = int(lines[0])
    except (ValueError, IndexError):
        raise BadOutput("first line is not the number of histories")
    sec, cur = {}, None
    i = 1
    while i < len(lines):
        l = lines[i]
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        if l and nxt == "=" * len(l):
            if l in sec:
                raise BadOutput("section %r repeated" % l)
            cur = sec[l] = {}
            i += 2
            continue
        if l in ("cosine", "energy", "mean", "std dev") and nxt == "-" * len(l):
            if cur is None:
                raise BadOutput("values before any section")
            body = lines[i + 2] if i + 2 < len(lines) else ""
            if l in ("cosine", "energy"):
                cur[l] = body.strip()
            else:
                cur["mean" if l == "mean" else "sd"] = _nums(body)
            i += 3
            continue
        if l.strip():
            raise BadOutput("unexpected text %r" % l[:60])
        i += 1
    for n, c in sec.items():
        if "mean" not in c or "sd" not in c or len(c["mean"]) != len(c["sd"]) or not c["mean"]:
            raise BadOutput("section %r is incomplete" % n)
    return batch, sec


def cmp_results(a, b, what="", n=None):
    """the same results up to the order of summation; None or a message"""
    try:
        na, sa = parse(a)
        nb, sb = parse(b)
    except BadOutput as e:
        return "malformed results: %s" % e
    if na != nb:
        return "number of histories %d instead of %d" % (nb, na)
    if list(sa) != list(sb):
        return "tallies %s instead of %s" % (list(sb), list(sa))
    for s in sa:
        for k in ("cosine", "energy"):
            if sa[s].get(k) != sb[s].get(k):
                return "%s: %s bins are %r instead of %r" % (s, k, sb[s].get(k), sa[s].get(k))
        m = cmp_section(sa[s], sb[s], na)
        if m:
            return "%s: %s" % (s, m)
    return None


def cmp_section(x, y, N):
    if len(x["mean"]) != len(y["mean"]):
        return "%d bins instead of %d" % (len(y["mean"]), len(x["mean"]))
    for i, (m1, m2, d1, d2) in enumerate(zip(x["mean"], y["mean"], x["sd"], y["sd"])):
        if m1 != m1 or m2 != m2 or math.isinf(m1) or math.isinf(m2):
            if not (m1 == m2 or (m1 != m1 and m2 != m2)):
                return "bin %d mean %g instead of %g" % (i, m2, m1)
            continue
        v1 = 0.0 if d1 != d1 else d1 * d1 * N * N
        v2 = 0.0 if d2 != d2 else d2 * d2 * N * N
        sq = max(v1, v2) + N * max(m1 * m1, m2 * m2)
        if abs(m1 - m2) > 1.2e-6 * max(abs(m1), abs(m2)) + 1e-9 * math.sqrt(sq / N):
            return "bin %d mean %.7g instead of %.7g" % (i, m2, m1)
        if abs(v1 - v2) > 5e-6 * max(v1, v2) + 1e-9 * sq:
            return "bin %d standard deviation %.7g instead of %.7g" % (i, d2, d1)
    return None


def combine(outs):
    """expected results of a batch from the printed results of its parts.

    outs: list of (n, sections). Returns {section: (sum, sumsq, sumabs)} lists."""
    tot = {}
    for n, sec in outs:
        for s, c in sec.items():
            k = len(c["mean"])
            t = tot.setdefault(s, [[0.0] * k, [0.0] * k, [0.0] * k])
            if len(t[0]) != k:
                raise BadOutput("section %r changes its number of bins" % s)
            for i in range(k):
                m, d = c["mean"][i], c["sd"][i]
                v = 0.0 if d != d else d * d * n * n
                if n == 1:
                    v = 0.0
                t[0][i] += n * m
                t[1][i] += v + n * m * m
                t[2][i] += n * abs(m)
    return tot


def cmp_combined(parts, whole, sd=True, mean=True):
    """whole = (N, sections) must be the combination of parts; None or a message"""
    N, sec = whole
    if sum(n for n, _ in parts) != N:
        return "number of histories is %d, the parts have %d" % (N, sum(n for n, _ in parts))
    names = list(parts[0][1])
    if list(sec) != names:
        return "tallies %s, the parts have %s" % (list(sec), names)
    tot = combine(parts)
    for s in names:
        S, Q, A = tot[s]
        c = sec[s]
        if len(c["mean"]) != len(S):
            return "%s: number of bins differs" % s
        for i in range(len(S)):
            if not all(map(math.isfinite, (S[i], Q[i], c["mean"][i]))):
                continue
            if mean and abs(c["mean"][i] * N - S[i]) > 1.5e-6 * A[i] + 1e-9 * math.sqrt(Q[i] * N) + 1e-12:
                return "%s: bin %d mean is %.7g, the histories give %.7g" % (s, i, c["mean"][i], S[i] / N)
            if sd:
                d = c["sd"][i]
                if d != d:
                    return "%s: bin %d standard deviation is not a number, the histories give %.7g" % (s, i, math.sqrt(max(0.0, Q[i] - S[i] * S[i] / N)) / N)
                v = d * d * N * N
                want = max(0.0, Q[i] - S[i] * S[i] / N)
                if abs(v - want) > 5e-6 * Q[i] + 3e-6 * A[i] * A[i] / N + 5e-6 * want + 1e-12:
                    return "%s: bin %d standard deviation is %.7g, the histories give %.7g" % (s, i, d, math.sqrt(want) / N)
    return None


# ------------------------------------------------------------ schedules
def schedule(r, threads, est, stall=0.3, strategy=None):
    """a seeded schedule policy as run-spec entries"""
    s = {"seed": r.getrandbits(48)}
    k = strategy or r.choice(["random", "random", "random", "pct", "pct", "rr", "serial", "sync", "burst"])
    dear = max(1e-9, est / 300000.)  # at most about so many switches
    if k == "random":
        s.update(strategy=RANDOM, p=min(1 / dear, r.choice([.5, .1, .03, .01, .003, .001])))
    elif k == "pct":
        s.update(strategy=PCT, depth=r.randint(1, 6), estlen=max(1000, est))
    elif k == "rr":
        s.update(strategy=RR, quantum=max(int(dear), r.choice([1, 2, 5, 17, 60, 300, 2000])))
    elif k == "serial":
        s.update(strategy=SERIAL)
    elif k == "sync":
        s.update(strategy=SYNC, p=r.choice([.05, .2, .5, .9]))
    else:
        s.update(strategy=BURST, quantum=max(int(dear), r.choice([20, 100, 1000])))
    if r.random() < stall:
        s["stall_victim"] = r.randint(0, threads)
        s["stall_at"] = r.randint(1, max(2, est // max(1, threads)))
        s["stall_for"] = r.choice([0, 0, 0, 1000, 20000])
        if not s["stall_for"] and r.random() < .7:
            s["stall_late"] = 1
    if r.random() < .2:  # a slow machine: steps take up to seconds
        s["tick"] = int(10 ** r.uniform(1, 9.5))
    return s


def ambient(r):
    """memory layout and leftovers of the simulated process"""
    return {"layout": r.randint(0, 3), "layout_seed": r.getrandbits(32), "garbage": r.randint(0, 3)}


STRAT = ["random", "pct", "round-robin", "serial", "sync", "burst", "replay"]
