"""Problem descriptions: seeded generators and rendering to MiniMC input files."""
import math
import random
import re

NS = 'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="minimc.xsd"'


def num(x):
    if isinstance(x, int):
        return str(x)
    return "%.9g" % x


def _bins(kind, b):
    if b is None:
        return ""
    at = ""
    if kind == "cosine":
        at = ' u="%s" v="%s" w="%s"' % tuple(num(c) for c in b["dir"])
    if b["type"] == "boundaries":
        body = "<boundaries>" + " ".join(num(v) for v in b["values"]) + "</boundaries>"
    else:
        base = ' base="%s"' % num(b["base"]) if "base" in b else ""
        body = '<%s min="%s" max="%s" bins="%d"%s/>' % (b["type"], num(b["min"]), num(b["max"]), b["bins"], base)
    return "<%s%s>%s</%s>" % (kind, at, body, kind)


def render(s, histories, threads, chunksize=10, seed=1, estimators=None, perturbations=None, comment=""):
    """text of the input file"""
    o = ['<?xml version="1.0"?>' if s.get("decl") else "", "<minimc %s>" % NS, comment]
    o.append("<general><particles>%s</particles><histories>%d</histories><threads>%d</threads><chunksize>%d</chunksize>"
             % (s.get("particles", "neutron"), histories, threads, chunksize))
    if seed is not None:
        o.append("<seed>%d</seed>" % seed)
    if s.get("tracking"):
        o.append("<tracking>%s</tracking>" % s["tracking"])
    o.append("</general>\n<nuclides>")
    if s["energy"] == "multigroup":
        o.append('<multigroup groups="%d">' % s["groups"])
        for n in s["nuclides"]:
            o.append('<nuclide name="%s">' % n["name"])
            for p, d in n["data"].items():
                o.append("<%s>" % p)
                for r in d["order"]:
                    if r == "capture":
                        o.append("<capture>%s</capture>" % " ".join(num(v) for v in d["capture"]))
                    elif r == "scatter":
                        o.append("<scatter>%s</scatter>" % "\n".join(" ".join(num(v) for v in row) for row in d["scatter"]))
                    else:
                        f = d["fission"]
                        o.append("<fission><xs>%s</xs><nubar>%s</nubar><chi>%s</chi></fission>" % (
                            " ".join(num(v) for v in f["xs"]), " ".join(num(v) for v in f["nubar"]),
                            "\n".join(" ".join(num(v) for v in row) for row in f["chi"])))
                o.append("</%s>" % p)
            o.append("</nuclide>")
        o.append("</multigroup>")
    else:
        o.append("<continuous>")
        for n in s["nuclides"]:
            o.append('<nuclide name="%s" awr="%s"><neutron>' % (n["name"], num(n["awr"])))
            t = num(n["temperature"])
            f = n["files"]
            o.append('<total file="%s" temperature="%s"/>' % (f["total"], t))
            if "capture" in f:
                o.append('<capture file="%s" temperature="%s"/>' % (f["capture"], t))
            if "scatter" in f:
                o.append('<scatter><xs file="%s" temperature="%s"/>' % (f["scatter"], t))
                if "tsl" in n:
                    k = n["tsl"]
                    o.append('<tsl majorant="%s" total_E="%s" total_T="%s" total_S="%s" beta_cutoff="%s" alpha_cutoff="%s">' % (
                        k["majorant"], k["total_E"], k["total_T"], k["total_S"], num(k["beta_cutoff"]), num(k["alpha_cutoff"])))
                    o.append("<beta_partitions>" + "".join('<partition CDF="%s" S="%s" E_T="%s"/>' % tuple(x) for x in k["beta"]) + "</beta_partitions>")
                    o.append("<alpha_partitions>" + "".join('<partition CDF="%s" S="%s" beta_T="%s"/>' % tuple(x) for x in k["alpha"]) + "</alpha_partitions>")
                    o.append("</tsl>")
                o.append("</scatter>")
            if "fission" in f:
                o.append('<fission><xs file="%s" temperature="%s"/><nubar file="%s" temperature="%s"/></fission>' % (f["fission"], t, f["nubar"], t))
            o.append("</neutron></nuclide>")
        o.append("</continuous>")
    o.append("</nuclides>\n<materials>")
    for m in s["materials"]:
        o.append('<material name="%s" aden="%s">' % (m["name"], num(m["aden"])))
        for n, a in m["nuclides"]:
            o.append('<nuclide name="%s" afrac="%s"/>' % (n, num(a)))
        o.append("</material>")
    o.append("</materials>\n<surfaces>")
    for f in s["surfaces"]:
        if f["type"] == "sphere":
            o.append('<sphere name="%s"><center x="%s" y="%s" z="%s"/><radius r="%s"/></sphere>' % ((f["name"],) + tuple(num(c) for c in f["center"]) + (num(f["r"]),)))
        elif f["type"] == "planex":
            o.append('<planex name="%s" x="%s"/>' % (f["name"], num(f["x"])))
        else:
            o.append('<cylinderx name="%s" r="%s"/>' % (f["name"], num(f["r"])))
    o.append("</surfaces>\n<cells>")
    for c in s["cells"]:
        body = "".join('<surface name="%s" sense="%s"/>' % (n, "-1" if sn < 0 else "+1") for n, sn in c["surfaces"])
        if c.get("material"):
            t = ' temperature="%s"' % num(c["temperature"]) if "temperature" in c else ""
            o.append('<cell name="%s" material="%s"%s>%s</cell>' % (c["name"], c["material"], t, body))
        else:
            o.append("<void>%s</void>" % body)
    o.append("</cells>")
    if s.get("temperature"):
        t = s["temperature"]
        if t["type"] == "constant":
            o.append('<temperature><constant c="%s"/></temperature>' % num(t["c"]))
        else:
            o.append('<temperature><linear><bounds lower="%s" upper="%s"/><intercept b="%s"/><gradient x="%s" y="%s" z="%s"/></linear></temperature>'
                     % ((num(t["lower"]), num(t["upper"]), num(t["b"])) + tuple(num(c) for c in t["g"])))
    src = s["source"]
    d = src["direction"]
    if d[0] == "isotropic":
        dt = "<isotropic/>"
    else:
        dt = '<%s x="%s" y="%s" z="%s"/>' % ((d[0],) + tuple(num(c) for c in d[1]))
    kind = ("fixedsource", "fixedsource")
    if s.get("eigen"):
        kind = ('keigenvalue inactive="%d" active="%d"><initialsource' % s["eigen"], "initialsource></keigenvalue")
    o.append('<problemtype><%s><position><constant x="%s" y="%s" z="%s"/></position><direction>%s</direction>'
             '<energy><constant energy="%s"/></energy><particletype><constant type="%s"/></particletype></%s></problemtype>'
             % ((kind[0],) + tuple(num(c) for c in src["position"]) + (dt, num(src["energy"]), src.get("particle", "neutron"), kind[1])))
    est = s["estimators"] if estimators is None else estimators
    if est:
        o.append("<estimators>")
        for e in est:
            o.append('<current name="%s" surface="%s">' % (e["name"], e["surface"]))
            b = _bins("cosine", e.get("cosine")) , _bins("energy", e.get("energy"))
            if b[0] or b[1]:
                o.append("<bins>" + b[1] + b[0] + "</bins>")
            if e.get("sens"):
                o.append("<sensitivities>" + "".join('<perturbation name="%s"/>' % n for n in e["sens"]) + "</sensitivities>")
            o.append("</current>")
        o.append("</estimators>")
    per = s.get("perturbations", []) if perturbations is None else perturbations
    if per:
        o.append("<perturbations>" + "".join('<total name="%s" nuclide="%s"/>' % (p["name"], p["nuclide"]) for p in per) + "</perturbations>")
    o.append("</minimc>\n")
    return "\n".join(x for x in o if x)


# ------------------------------------------------------------------ generators
def unit(r):
    while True:
        v = [r.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum(c * c for c in v))
        if 0.1 < n < 1:
            return [c / n for c in v]


def geometry(r, s, mats, kind=None, scale=1.0, overlap=False, many=0):
    """fills surfaces, cells and the source position; returns surface names"""
    if many:
        kind = r.choice(["spheres", "slab"])
        scale = 4.0 / many
    if overlap:
        kind = r.choice(["spheres", "offset"])
    kind = kind or r.choice(["spheres", "spheres", "slab", "divided", "offset", "cylinder"])
    surf, cells = [], []
    pick = lambda: r.choice(mats)
    if kind == "spheres":
        k = many or r.randint(1, 4)
        c = [0, 0, 0] if r.random() < 0.5 else [round(r.uniform(-.3, .3), 3) for _ in range(3)]
        rad, prev = 0, None
        for i in range(k):
            rad += round(r.uniform(0.4, 1.5) * scale, 4)
            surf.append({"type": "sphere", "name": "s%d" % i, "center": c, "r": rad})
            q = [("s%d" % i, -1)]
            if prev is not None:
                q.append((prev, 1))
            if r.random() < 0.5:
                q.reverse()
            cells.append({"name": "c%d" % i, "material": pick(), "surfaces": q})
            prev = "s%d" % i
        cells.append({"surfaces": [(prev, 1)]})
        r0 = surf[0]["r"]
        pos = c if r.random() < 0.5 else [c[j] + r0 * 0.5 * u for j, u in enumerate(unit(r))]
        if k > 1 and r.random() < 0.2:
            j = r.randrange(1, k)
            mid = 0.5 * (surf[j - 1]["r"] + surf[j]["r"])
            pos = [c[i] + mid * u for i, u in enumerate(unit(r))]
    elif kind == "slab":
        k = many or r.randint(2, 4)
        x = round(r.uniform(-1, 0), 3)
        for i in range(k):
            surf.append({"type": "planex", "name": "s%d" % i, "x": x})
            x = round(x + r.uniform(0.5, 1.6) * scale, 4)
        for i in range(k - 1):
            cells.append({"name": "c%d" % i, "material": pick(), "surfaces": [("s%d" % i, 1), ("s%d" % (i + 1), -1)]})
        cells.append({"surfaces": [("s0", -1)]})
        cells.append({"surfaces": [("s%d" % (k - 1), 1)]})
        j = r.randrange(k - 1)
        pos = [surf[j]["x"] + r.uniform(.2, .8) * (surf[j + 1]["x"] - surf[j]["x"]), round(r.uniform(-1, 1), 3), 0]
    elif kind == "divided":
        R = round(r.uniform(0.8, 2.5) * scale, 8)
        p = round(r.uniform(-.5, .5) * R, 8)
        surf = [{"type": "sphere", "name": "s0", "center": [0, 0, 0], "r": R}, {"type": "planex", "name": "s1", "x": p}]
        cells = [{"name": "c0", "material": pick(), "surfaces": [("s0", -1), ("s1", -1)]},
                 {"name": "c1", "material": pick(), "surfaces": [("s1", 1), ("s0", -1)]},
                 {"surfaces": [("s0", 1)]}]
        pos = [p + (0.2 * R if r.random() < .5 else -0.2 * R), round(r.uniform(-.3, .3) * R, 6), 0.05 * R]
    elif kind == "offset":
        R = round(r.uniform(1.2, 2.5) * scale, 4)
        q = round(R * r.uniform(.2, .45), 4)
        u = unit(r)
        c = [round((R - q) * 0.6 * x, 4) for x in u]
        surf = [{"type": "sphere", "name": "s0", "center": c, "r": q}, {"type": "sphere", "name": "s1", "center": [0, 0, 0], "r": R}]
        cells = [{"name": "c0", "material": pick(), "surfaces": [("s0", -1)]},
                 {"name": "c1", "material": pick(), "surfaces": [("s1", -1), ("s0", 1)]},
                 {"surfaces": [("s1", 1)]}]
        pos = c if r.random() < .5 else [-0.5 * R * x for x in u]
    else:
        L = round(r.uniform(1, 3) * scale, 3)
        surf = [{"type": "cylinderx", "name": "s0", "r": round(r.uniform(.5, 2.5), 3)}, {"type": "planex", "name": "s1", "x": -L}, {"type": "planex", "name": "s2", "x": L}]
        cells = [{"surfaces": [("s1", -1)]}, {"surfaces": [("s2", 1)]}, {"surfaces": [("s0", 1), ("s1", 1), ("s2", -1)]},
                 {"name": "c0", "material": pick(), "surfaces": [("s0", -1), ("s1", 1), ("s2", -1)]}]
        if r.random() < .5:
            surf.append({"type": "planex", "name": "s3", "x": round(0.3 * L, 4)})
            cells[-1]["surfaces"] = [("s0", -1), ("s1", 1), ("s3", -1)]
            cells.append({"name": "c1", "material": pick(), "surfaces": [("s0", -1), ("s3", 1), ("s2", -1)]})
        pos = [round(r.uniform(-.2, .2), 3), .1, round(r.uniform(-.3, .3), 3)]
    if overlap:
        # cells that overlap: where two contain a point, the first one counts
        for c in cells:
            if len(c["surfaces"]) > 1 and r.random() < .7:
                c["surfaces"] = [q for q in c["surfaces"] if q[1] < 0] or c["surfaces"]
    s["geometry"] = kind
    s["surfaces"], s["cells"] = surf, cells
    s["source"] = {"position": pos}
    return [f["name"] for f in surf]


def direction(r):
    k = r.random()
    if k < .6:
        return ["isotropic"]
    if k < .8:
        return ["isotropic-flux", unit(r)]
    return ["constant", unit(r)]


def energy_bins_mg(r, G):
    k = r.random()
    if k < .4:
        return {"type": "boundaries", "values": [g + .5 for g in range(1, G + 1)] if r.random() < .7 else [1.5]}
    if k < .8:
        return {"type": "linspace", "min": .5, "max": G + .5, "bins": G}
    return {"type": "logspace", "min": -.2, "max": .6, "bins": 4}


def energy_bins_ce(r):
    if r.random() < .5:
        return {"type": "logspace", "min": -9, "max": 1, "bins": r.randint(3, 9)}
    return {"type": "boundaries", "values": [1e-8, 1e-7, 1e-6, 1e-4, 1e-2]}


def cosine_bins(r):
    b = {"dir": unit(r)}
    if r.random() < .5:
        b.update({"type": "linspace", "min": -1, "max": 1, "bins": r.randint(2, 8)})
    else:
        b.update({"type": "boundaries", "values": sorted(round(r.uniform(-1, 1), 4) + i * 1e-6 for i in range(r.randint(1, 5)))})
    return b


def estimators(r, s, names, ebins, nmax=5):
    est = []
    # outer surfaces see every leak, so they always carry a tally
    for i, n in enumerate([r.choice(names) for _ in range(r.randint(1, nmax - 1))] + [s["leak_surface"]] if s.get("leak_surface") else [r.choice(names) for _ in range(r.randint(2, nmax))]):
        e = {"name": "e%d" % i, "surface": n}
        if r.random() < .5:
            e["energy"] = ebins(r)
        if r.random() < .4:
            e["cosine"] = cosine_bins(r)
        if s.get("perturbations") and r.random() < .6:
            p = [x["name"] for x in s["perturbations"]]
            r.shuffle(p)
            e["sens"] = p[:r.randint(1, len(p))]
        est.append(e)
    s["estimators"] = est


def nested(r, s, surface=None):
    """two more tallies, the bins of one subdividing those of the other; their names and how"""
    surface = surface or r.choice(s["surfaces"])["name"]
    n = r.choice([3, 10, 40, 100, 257, 300, 520, 1030])
    k = r.choice(["cosine", "cosine", "energy"])
    if k == "cosine":
        b = sorted({round(r.uniform(-1, 1), 6) for _ in range(n)})
    elif s["energy"] == "multigroup":
        b = sorted({round(r.uniform(.5, s["groups"] + .5), 6) for _ in range(n)})
    else:
        b = sorted({float("%.6g" % 10 ** r.uniform(-9, 1)) for _ in range(n)})
    cuts = sorted(r.sample(range(len(b)), r.randint(1, min(len(b), 7))))
    d = unit(r)
    for name, v in (("nest-fine", b), ("nest-coarse", [b[i] for i in cuts])):
        bins = {"type": "boundaries", "values": v}
        if k == "cosine":
            bins["dir"] = d
        s["estimators"].insert(r.randint(0, len(s["estimators"])), {"name": name, "surface": surface, k: bins})
    return ["nest-coarse", "nest-fine", cuts]


def mg_data(r, G, fission=True, mult=1.0):
    d = {"order": ["capture", "scatter"]}
    cap = [round(r.uniform(.05, .5), 3) for _ in range(G)]
    col = [round(r.uniform(.1, 1.5), 3) for _ in range(G)]
    sc = [[0.0] * G for _ in range(G)]
    for gp in range(G):
        w = [r.random() if (g >= gp or r.random() < .3) else 0 for g in range(G)]
        t = sum(w)
        for g in range(G):
            sc[g][gp] = round(col[gp] * w[g] / t, 4)
    d["capture"], d["scatter"] = cap, sc
    if fission:
        xs = [round(r.uniform(.02, .3), 3) if r.random() < .8 else 0 for _ in range(G)]
        nub = []
        for g in range(G):
            lim = mult * .85 * (cap[g] + xs[g]) / xs[g] if xs[g] else 2
            nub.append(round(min(lim, r.uniform(1.2, 4)), 3))
        chi = [[round(r.uniform(.1, 1), 3) for _ in range(G)] for _ in range(G)]
        d["fission"] = {"xs": xs, "nubar": nub, "chi": chi}
        d["order"].append("fission")
    r.shuffle(d["order"])
    return d


def gen_multigroup(r, fission=None, kind=None, sens=None, tracking=None, small=False):
    G = r.choice([1, 2, 2, 3, 4])
    large = not small and kind is None and r.random() < .07
    if large:
        G = r.choice([5, 8, 9, 12, 17, 20, 33, 40, 70])
    s = {"family": "multigroup", "energy": "multigroup", "groups": G, "files": {}}
    photon = r.random() < .2
    if photon:
        s["particles"] = r.choice(["neutron photon", "photon neutron"])
    fiss = r.random() < .7 if fission is None else fission
    s["nuclides"] = []
    for i in range(r.choice([5, 7, 9, 12, 17]) if large and G < 20 else r.randint(1, 4)):
        d = {"neutron": mg_data(r, G, fiss and r.random() < .8)}
        if photon:
            d["photon"] = mg_data(r, G, False)
        s["nuclides"].append({"name": "n%d" % i, "data": d})
    s["materials"] = []
    for i in range(r.randint(4, 12) if large else r.randint(1, 3)):
        ns = [n["name"] for n in s["nuclides"]]
        r.shuffle(ns)
        ns = ns[:r.randint(1, len(ns))]
        s["materials"].append({"name": "m%d" % i, "aden": round(r.uniform(.3, 1.5), 3), "nuclides": [(n, round(r.uniform(.1, 1), 3)) for n in ns]})
    names = geometry(r, s, [m["name"] for m in s["materials"]], kind, overlap=kind is None and r.random() < .12, many=r.choice([0, 6, 9, 12, 17, 20]) if large else 0)
    s["source"].update({"direction": direction(r), "energy": r.randint(1, G), "particle": "photon" if photon and r.random() < .6 else "neutron"})
    s["tracking"] = tracking if tracking is not None else r.choice([None, "surface", "cell delta"])
    used = {n for c in s["cells"] if c.get("material") for m in s["materials"] if m["name"] == c["material"] for n, _ in m["nuclides"]}
    if (sens if sens is not None else r.random() < .6) and used:
        u = sorted(used)
        r.shuffle(u)
        u = u[:r.randint(1, 3)]
        if r.random() < .15:  # many, also several of one nuclide
            u = [r.choice(sorted(used)) for _ in range(r.randint(3, 7))]
        s["perturbations"] = [{"name": "p%d" % i, "nuclide": n} for i, n in enumerate(u)]
    estimators(r, s, names, lambda q: energy_bins_mg(q, G), r.choice([12, 24, 40]) if large else r.choice([5] * 8 + [14, 24]))
    return s


def _conserve_geometry(r, s, scale, kind=None, graze=False):
    """any geometry, one tally per surface, and which tallies must add up to the leakage"""
    kind = kind or r.choice(["spheres", "spheres", "slab", "divided", "offset", "cylinder"])
    names = geometry(r, s, ["m0"], kind, scale)
    if kind == "cylinder":  # this geometry does not scale by itself
        f = scale
        for q in s["surfaces"]:
            q["r" if q["type"] == "cylinderx" else "x"] = (q["r"] if q["type"] == "cylinderx" else q["x"] / scale) * f
        s["source"]["position"] = [c * f for c in s["source"]["position"]]
    pos = s["source"]["position"]
    by = {q["name"]: q for q in s["surfaces"]}

    def inside(q):
        return math.dist(pos, q["center"]) < q["r"]
    if graze and kind == "spheres" and r.random() < .6:
        q = r.choice(s["surfaces"])
        a = q["r"] * (1 + r.choice([-1, -1, 1]) * 10 ** -r.uniform(1, 6))
        if q["name"] == names[-1]:
            a = min(a, q["r"] * (1 - 1e-6))
        s["source"]["position"] = pos = [c + a * u for c, u in zip(q["center"], unit(r))]
    if kind in ("spheres", "offset"):
        exact = [[n] for n in names if inside(by[n])]
    elif kind == "slab":
        exact = [[names[0], names[-1]]]
    elif kind == "divided":
        exact = [["s0"]]
    else:
        exact = [["s0", "s1", "s2"]]
    s["exact"] = [["t" + n for n in g] for g in exact]
    return names


def gen_cascade(r, kind=None, huge=False):
    """integer multiplicities, no absorption: every history leaks exactly the product"""
    G = r.randint(2, 4)
    mult = [r.choice([1, 2, 2, 3, 3, 4]) for _ in range(G - 1)]
    if r.random() < .1:  # many generations
        G = r.choice([5, 7, 9, 12, 14, 18, 27, 34, 50, 66])
        mult = [r.choice([1, 1, 1, 1, 2]) for _ in range(G - 1)]
        while math.prod(mult) > 64:
            mult[mult.index(2)] = 1
    if huge:
        G = min(G, 3)
        mult = [1] * (G - 1)
        mult[r.randrange(G - 1)] = r.choice([1025, 2049, 4097, 5000, 65537, 70000])
    elif G < 5 and r.random() < .3:  # many at once
        mult = [r.choice([1, 1, 2]) for _ in mult]
        mult[r.randrange(G - 1)] = r.choice([5, 7, 8, 9, 12, 16, 17, 31, 33, 64, 65, 100, 129, 255, 256, 257, 500, 1000])
    total = 1
    for m in mult:
        total *= m
    cap = [0] * G
    # group g: only fission into group g+1; the last group does not interact
    lo = r.choice([.5, 1, 2])
    xs = [round(lo * r.uniform(1, 3), 3) for _ in range(G - 1)] + [0]
    chi = [[0] * G for _ in range(G)]
    for g in range(G - 1):
        chi[g + 1][g] = r.choice([1, 1, .5, 3])
    chi[G - 1][G - 1] = 1
    fis = {"xs": xs, "nubar": mult + [0], "chi": chi}
    order = ["capture", "fission"]
    sc = None
    if r.random() < .5:  # some scattering within groups
        sc = [[0] * G for _ in range(G)]
        for g in range(G - 1):
            sc[g][g] = round(lo * r.uniform(.2, 2), 3)
        if r.random() < .5:  # the last group flies a few mean free paths
            sc[G - 1][G - 1] = round(lo * r.uniform(.5, 5) / 2000, 6)
        order.append("scatter")
    r.shuffle(order)
    if r.random() < .3:
        order.remove("capture")
    d = {"order": order, "capture": cap, "fission": fis}
    if sc:
        d["scatter"] = sc
    s = {"family": "cascade", "energy": "multigroup", "groups": G, "files": {}, "decl": True}
    s["nuclides"] = [{"name": "n0", "data": {"neutron": d}}]
    if r.random() < .4:
        d2 = dict(d)
        d2["fission"] = dict(fis, xs=[round(x * 1.7, 3) for x in xs])
        s["nuclides"].append({"name": "n1", "data": {"neutron": d2}})
    scale = r.choice([1, 1, 1, 10, 100, 1e4, 1e6])
    s["materials"] = [{"name": "m0", "aden": 2000 / scale / lo, "nuclides": [(n["name"], round(r.uniform(.2, 1), 2)) for n in s["nuclides"]]}]
    names = _conserve_geometry(r, s, scale, kind)
    if sc and sc[G - 1][G - 1]:  # inner surfaces may be crossed several times
        s["exact"] = s["exact"][-1:]
    s["source"].update({"direction": direction(r), "energy": 1})
    s["tracking"] = r.choice([None, "surface", "cell delta"])
    _conserve_tallies(r, s, names, G)
    s["expect_leak"] = total
    return s


def _conserve_tallies(r, s, names, G):
    if r.random() < .3:
        s["perturbations"] = [{"name": "p0", "nuclide": "n0"}]
    e = [{"name": "t" + n, "surface": n} for n in names]
    s["parts"] = []
    for n in names:
        if r.random() < .7:
            b = {"name": "b" + n, "surface": n}
            if r.random() < .6:
                b["energy"] = energy_bins_mg(r, G)
            if r.random() < .6 or "energy" not in b:
                b["cosine"] = cosine_bins(r)
            if s.get("perturbations"):
                b["sens"] = ["p0"]
            e.append(b)
            s["parts"].append(["t" + n, "b" + n])
    r.shuffle(e)
    s["estimators"] = e


def gen_yield(r):
    """fission is the only reaction, each with the same integer number of secondaries; few of them fission in turn"""
    m = r.choice([2, 3])
    s = {"family": "yield", "energy": "continuous", "files": {}, "yield": m}
    grid = _grid(1e-11, 20.0, r.randint(8, 20))
    fi = [round(r.uniform(.7, 1), 4) for _ in grid]
    for n, v in (("total", fi), ("fission", fi), ("nubar", [m] * len(grid)), ("none", [0] * len(grid))):
        s["files"]["n0-%s.hdf5" % n] = ([grid], v)
    s["nuclides"] = [{"name": "n0", "awr": 233.02, "temperature": 293.6, "files": {n: "n0-%s.hdf5" % n for n in ("total", "fission", "nubar")}}]
    s["materials"] = [{"name": "m0", "aden": round(r.uniform(.05, .13), 4), "nuclides": [("n0", 1)]}]
    s["surfaces"] = [{"type": "sphere", "name": "s0", "center": [0, 0, 0], "r": 1}]
    s["cells"] = [{"material": "m0", "surfaces": [("s0", -1)], "name": "c0"}, {"surfaces": [("s0", 1)]}]
    s["source"] = {"position": [0, 0, 0], "direction": direction(r), "energy": r.choice([1e-8, 1e-6, 1e-3, 1.0])}
    s["tracking"] = r.choice([None, "surface", "cell delta"])
    s["estimators"] = [{"name": "leak", "surface": "s0"}]
    return s


def gen_thick(r):
    """histories of thousands of collisions: scattering only, many mean free paths to the surface"""
    G = r.choice([1, 1, 2, 3])
    s = {"family": "thick", "energy": "multigroup", "groups": G, "files": {}}
    sc = [[0] * G for _ in range(G)]
    for a in range(G):
        for b in range(G):
            if a == b or r.random() < .7:
                sc[a][b] = round(r.uniform(.3, 1), 3)
    tot = max(sum(row[b] for row in sc) for b in range(G))
    s["nuclides"] = [{"name": "n0", "data": {"neutron": {"order": ["scatter"], "scatter": sc}}}]
    # collisions before leaving a sphere of radius R from its centre: about R^2 / 2
    scale = 1
    s["materials"] = [{"name": "m0", "aden": 1, "nuclides": [("n0", 1)]}]
    names = _conserve_geometry(r, s, scale, r.choice(["spheres", "spheres", "divided", "offset"]))
    if r.random() < .4:  # back and forth across planes
        R = s["surfaces"][0]["r"]
        if s["geometry"] == "divided":
            x = s["surfaces"][1]["x"]
            s["source"]["position"] = [x + R * r.choice([-1, 1]) * 10 ** -r.uniform(1.5, 3), 0, 0]
    R = max(q.get("r", 0) for q in s["surfaces"])
    s["materials"][0]["aden"] = round(r.choice([20, 40, 60, 80, 100, 130]) / R / tot, 4)
    s["source"].update({"direction": direction(r), "energy": r.randint(1, G)})
    s["tracking"] = r.choice([None, "surface", "cell delta"])
    _conserve_tallies(r, s, names, G)
    # particles come back through inner surfaces: a net current is 1 only through the outermost
    s["expect_leak"] = 1
    s["exact"] = [["t" + max(s["surfaces"], key=lambda q: q.get("r", 0))["name"]]]
    return s


def gen_shell(r, kind=None):
    """material that does not interact with the source group"""
    G = r.randint(1, 3)
    s = {"family": "shell", "energy": "multigroup", "groups": G, "files": {}}
    cap = [0.0] * G
    if G > 1:
        cap = [0.0] + [round(r.uniform(.1, 2), 2) for _ in range(G - 1)]
    s["nuclides"] = [{"name": "n0", "data": {"neutron": {"order": ["capture"], "capture": cap}}}]
    s["materials"] = [{"name": "m0", "aden": round(r.uniform(.2, 3), 3), "nuclides": [("n0", 1)]}]
    names = _conserve_geometry(r, s, r.choice([1, 1, 1, 10, 100, 1e4, 1e6, 1e-3]), kind, graze=True)
    s["source"].update({"direction": direction(r), "energy": 1})
    s["tracking"] = r.choice([None, "surface"])
    _conserve_tallies(r, s, names, G)
    s["expect_leak"] = 1
    return s


def gen_same(r):
    """(nearly) all histories fly the same way and score the same to sensitivities"""
    s = gen_multigroup(r, fission=False, sens=True)
    for m in s["materials"]:
        m["aden"] *= r.choice([1e-7, 1e-8, 1e-9])
    s["source"]["direction"] = ["constant", unit(r)]
    return s


def gen_big(r, rich=None):
    """cheap histories, for batches of ten thousand and more"""
    if r.random() < .35 if rich is None else rich:
        return _gen_big_rich(r)
    s = {"family": "big", "energy": "multigroup", "groups": 1, "files": {}}
    s["nuclides"] = [{"name": "n0", "data": {"neutron": {"order": ["capture"], "capture": [1]}}}]
    s["materials"] = [{"name": "m0", "aden": 1, "nuclides": [("n0", 1)]}]
    s["surfaces"] = [{"type": "sphere", "name": "s0", "center": [0, 0, 0], "r": round(r.uniform(.3, 1.2), 3)}]
    s["cells"] = [{"name": "c0", "material": "m0", "surfaces": [("s0", -1)]}, {"surfaces": [("s0", 1)]}]
    s["source"] = {"position": [0, 0, 0], "direction": ["isotropic"], "energy": 1}
    s["estimators"] = [{"name": "leak", "surface": "s0"}]
    return s


def _gen_big_rich(r):
    """a little of everything in short histories"""
    G = r.choice([1, 1, 2])
    d = {"order": ["capture", "scatter"], "capture": [r.choice([.6, 1, 1.5])] * G, "scatter": [[round(r.uniform(.1, .5), 3) for _ in range(G)] for _ in range(G)]}
    if r.random() < .4:
        d["order"].insert(r.randint(0, 2), "fission")
        d["fission"] = {"xs": [round(r.uniform(.1, .3), 3)] * G, "nubar": [r.choice([.7, 1, 1.3])] * G, "chi": [[1] * G for _ in range(G)]}
    s = {"family": "big", "energy": "multigroup", "groups": G, "files": {}}
    s["nuclides"] = [{"name": "n0", "data": {"neutron": d}}]
    s["materials"] = [{"name": "m0", "aden": 1, "nuclides": [("n0", 1)]}]
    s["surfaces"] = [{"type": "sphere", "name": "s0", "center": [0, 0, 0], "r": round(r.uniform(.5, 1.2), 3)}]
    s["cells"] = [{"name": "c0", "material": "m0", "surfaces": [("s0", -1)]}, {"surfaces": [("s0", 1)]}]
    s["source"] = {"position": [0, 0, 0], "direction": ["isotropic"], "energy": 1}
    s["estimators"] = [{"name": "leak", "surface": "s0"}]
    if r.random() < .6:
        s["perturbations"] = [{"name": "p0", "nuclide": "n0"}]
        s["estimators"][0]["sens"] = ["p0"]
    if r.random() < .4:
        s["estimators"].append({"name": "fine", "surface": "s0", "cosine": cosine_bins(r)})
    return s


def _grid(lo, hi, n):
    return [lo * (hi / lo) ** (i / (n - 1)) for i in range(n)]


def gen_continuous(r, tsl=False, linear=False):
    s = {"family": "tsl" if tsl else "continuous", "energy": "continuous", "files": {}}
    s["nuclides"] = []
    F = s["files"]

    def table(name, grid, vals):
        F[name] = ([grid], vals)
        return name

    nn = 1 if tsl else r.randint(1, 3)
    for i in range(nn):
        awr = 0.999167339 if (tsl or r.random() < .4) else round(r.choice([11.9, 15.86, 55.4, 233.02]) * r.uniform(.98, 1.02), 4)
        grid = _grid(1e-11, 20.0, r.randint(12, 40))
        el = [round(r.uniform(1, 8), 4) for _ in grid]
        ca = [round(.3 + 2 * math.sqrt(1e-7 / g), 5) if g > 1e-8 else 3.0 for g in grid]
        f = {}
        tot = [a + b for a, b in zip(el, ca)]
        if not tsl and r.random() < .5:
            fi = [round(x * r.uniform(.1, .5), 5) for x in ca]
            tot = [a + b for a, b in zip(tot, fi)]
            nb = [round(min(1.6 * .85 * (c + q) / q, r.uniform(1.5, 3)), 4) if q else 0 for c, q in zip(ca, fi)]
            nb = [min(x, .8 * (c + q) / q) for x, c, q in zip(nb, ca, fi)]
            f["fission"] = table("n%d-fission.hdf5" % i, grid, fi)
            f["nubar"] = table("n%d-nubar.hdf5" % i, grid, nb)
        f["total"] = table("n%d-total.hdf5" % i, grid, tot)
        f["capture"] = table("n%d-capture.hdf5" % i, grid, ca)
        f["scatter"] = table("n%d-elastic.hdf5" % i, grid, el)
        n = {"name": "n%d" % i, "awr": awr, "temperature": 293.6, "files": f}
        if tsl:
            n["tsl"] = tsl_tables(r, F, i, awr)
        s["nuclides"].append(n)
    s["materials"] = []
    for i in range(1 if tsl else r.randint(1, 2)):
        ns = [n["name"] for n in s["nuclides"]]
        r.shuffle(ns)
        ns = ns[:r.randint(1, len(ns))]
        s["materials"].append({"name": "m%d" % i, "aden": round(r.uniform(.04, .15), 4), "nuclides": [(n, round(r.uniform(.1, 1), 3)) for n in ns]})
    names = geometry(r, s, [m["name"] for m in s["materials"]], r.choice(["spheres", "offset", "divided", "slab"]), scale=2.0)
    s["source"].update({"direction": direction(r), "energy": r.choice([2e-8, 2.5e-8, 1e-7, 5e-7]) if tsl else r.choice([2.5e-8, 1e-6, 1e-3, 1.0, 2.0])})
    if linear:
        s["tracking"] = "cell delta"
        s["temperature"] = {"type": "linear", "lower": 293.6, "upper": 420, "b": 350, "g": [4, 2, 0]}
        if tsl:
            s["temperature"].update({"lower": 310, "upper": 440, "b": 370, "g": [3, 2, 0]})
    else:
        s["tracking"] = r.choice([None, "surface", "cell delta"])
        s["temperature"] = {"type": "constant", "c": r.choice([350, 350, 300, 500, 650]) if tsl else r.choice([293.6, 293.6, 350, 600])}
        if r.random() < .4:
            for c in s["cells"]:
                if c.get("material") and r.random() < .5:
                    c["temperature"] = r.choice([300, 500, 700] if tsl else [300, 500, 900])
    used = sorted({n for c in s["cells"] if c.get("material") for m in s["materials"] if m["name"] == c["material"] for n, _ in m["nuclides"]})
    if r.random() < .5:
        s["perturbations"] = [{"name": "p%d" % i, "nuclide": n} for i, n in enumerate(used[:r.randint(1, 2)])]
    estimators(r, s, names, energy_bins_ce)
    return s


def tsl_tables(r, F, i, awr):
    """small separable thermal-scattering tables of the right shape"""
    Ts = [293.6, 350.0, 450.0, 600.0]
    kT = 8.617333262145e-11 * 350
    cutoff = 4e-6
    Es = _grid(1e-11, cutoff, 12)
    orders = [0.0, 1.0]
    p = "n%d-" % i

    def put(name, axes, vals):
        F[p + name + ".hdf5"] = (axes, vals)
        return p + name + ".hdf5"

    # separable total cross section: S[o] * E[e,o] * T[t,o]
    k = {"beta_cutoff": 20.0, "alpha_cutoff": 2.0e6}
    k["total_S"] = put("xsS", [orders], [1.0, .1])
    ecoef, tcoef = [], []
    for e in Es:
        ecoef += [5 + 10 * math.exp(-e / 1e-6), 1.0]
    for t in Ts:
        tcoef += [1.0, t / 600.0]
    k["total_E"] = put("xsE", [Es, orders], ecoef)
    k["total_T"] = put("xsT", [Ts, orders], tcoef)
    mg = _grid(1e-11, cutoff, 12)
    k["majorant"] = put("majorant", [mg], [(5 + 10 * math.exp(-e / 1e-6) + .1) * 1.2 + .5 for e in mg])
    Fs = [.1, .3, .5, .7, .9]
    # beta(cdf, E, T): from about -min(E/kT, 5) to +5, two partitions over energy
    k["beta"] = []
    for j, part in enumerate([Es[:6], Es[6:]]):
        cdf, et = [], []
        for f in Fs:
            cdf += [f, 1.0]
        for e in part:
            a = min(e / kT, 5) * .8
            for t in Ts:
                # beta = (a + 2) * f - a, weakly dependent on T
                et += [(a + 2) * (1 + (t - 350) / 5000), -a]
        k["beta"].append((put("b%dCDF" % j, [Fs, orders], cdf), put("b%dS" % j, [orders], [1.0, 1.0]), put("b%dET" % j, [part, Ts, orders], et)))
    bs = [1e-7, .01, .1, .5, 1, 2, 4, 8, 16, 40, 2000, 1e6]
    k["alpha"] = []
    for j, part in enumerate([bs[:5], bs[5:]]):
        cdf, bt = [], []
        for f in Fs:
            cdf += [f, 1.0]
        for b in part:
            for t in Ts:
                bt += [(4 + b) * (1 + (t - 350) / 4000), .01]
        k["alpha"].append((put("a%dCDF" % j, [Fs, orders], cdf), put("a%dS" % j, [orders], [1.0, 1.0]), put("a%dBT" % j, [part, Ts, orders], bt)))
    return k


NAMES = [["a", "aa", "aaa", "ab", "b", "ba", "aab"], ["leak", "leakage", "leak 2", "Leak", "leak2", "lea", "outer leak"], ["1", "10", "2", "01", "11", "100", "0"],
         ["x", "x_", "x-y", "x.y", "x,y", "x y", "x y z"], ["z9", "z8", "z7", "z6", "z5", "z4", "z3"],
         ["inner", "inner-left", "inner-left-front", "in", "inn", "left", "r"], ["U", "u", "Uu", "uU", "UU", "v", "vU"]]


def rename(r, s):
    """other names: prefixes of one another, in any order, the same in different lists"""
    def fresh(kind, old):
        p = r.choice(NAMES)
        if len(old) > len(p):
            return {o: o for o in old}
        return dict(zip(old, r.sample(p, len(old))))
    me = fresh("e", [e["name"] for e in s["estimators"]])
    mp = fresh("p", [p["name"] for p in s.get("perturbations", [])])
    mn = fresh("n", [n["name"] for n in s["nuclides"]])
    mm = fresh("m", [m["name"] for m in s["materials"]])
    ms = fresh("s", [f["name"] for f in s["surfaces"]])
    mc = fresh("c", [c["name"] for c in s["cells"] if "name" in c])
    for e in s["estimators"]:
        e["name"], e["surface"] = me[e["name"]], ms[e["surface"]]
        if e.get("sens"):
            e["sens"] = [mp[p] for p in e["sens"]]
    for p in s.get("perturbations", []):
        p["name"], p["nuclide"] = mp[p["name"]], mn[p["nuclide"]]
    for n in s["nuclides"]:
        n["name"] = mn[n["name"]]
    for m in s["materials"]:
        m["name"] = mm[m["name"]]
        m["nuclides"] = [(mn[n], a) for n, a in m["nuclides"]]
    for f in s["surfaces"]:
        f["name"] = ms[f["name"]]
    for c in s["cells"]:
        if "name" in c:
            c["name"] = mc[c["name"]]
        if c.get("material"):
            c["material"] = mm[c["material"]]
        c["surfaces"] = [(ms[n], q) for n, q in c["surfaces"]]
    return s


def gen(r, families=("multigroup", "multigroup", "multigroup", "cascade", "shell", "continuous", "tsl")):
    s = gen_plain(r, families)
    if r.random() < .4:
        rename(r, s)
    return s


def gen_plain(r, families):
    f = r.choice(families)
    if f == "multigroup":
        return gen_multigroup(r)
    if f == "cascade":
        return gen_cascade(r)
    if f == "shell":
        return gen_shell(r)
    if f == "big":
        return gen_big(r)
    return gen_continuous(r, f == "tsl", r.random() < .3)


def h5_text(name, axes, vals):
    o = [name, str(len(axes))]
    for a in axes:
        o.append("%d %s" % (len(a), " ".join("%.17g" % v for v in a)))
    o.append("%d %s" % (len(vals), " ".join("%.17g" % v for v in vals)))
    return "\n".join(o) + "\n"


def spoil(r, t, late=False):
    """an input like t which is most likely refused: a name, a list of numbers or an order that does not fit"""
    for _ in range(20):
        k = r.random() if not late or r.random() < .1 else r.uniform(.2, 1)
        if late and r.random() < .3:  # the last of several that are created one after another
            ms = list(re.finditer(r'<perturbation name="([^"]*)"/></sensitivities>', t))
            if ms:
                m = r.choice(ms)
                return t[:m.start(1)] + "nothing" + t[m.end(1):]
        if k < .15:
            u = t[:r.randint(0, len(t) - 1)]
        elif k < .2:
            u = t.replace("<histories>", "<histories>x")
        elif k < .25:
            u = t.replace("<threads>", "<unknown>1</unknown><threads>")
        elif k < .3:
            u = t.replace(".hdf5<", ".gone<").replace('.hdf5"', '.gone"')
        elif k < .65:  # a name that nothing has
            ms = list(re.finditer(r'<([-\w]+) (?:[^<>]*? )?(?:name|material|surface|nuclide)="([^"]*)"', t))
            if late and r.random() < .6:
                ms = ms[len(ms) // 2:]
            kinds = sorted({m.group(1) for m in ms} - {"current", "cell"}) + ["cell", "current"] * (r.random() < .3)
            if not kinds:
                continue
            tag = r.choice(kinds)
            ms = [m for m in ms if m.group(1) == tag]
            if not ms:
                continue
            m = r.choice(ms)
            u = t[:m.start(2)] + "nothing" + t[m.end(2):]
        elif k < .85:  # a list of numbers that is too long, too short or not in order
            ms = list(re.finditer(r">([-+.eE0-9\s]+)</|=\"([-+.eE0-9\s]*\s[-+.eE0-9\s]*)\"", t))
            ms = [m for m in ms if len((m.group(1) or m.group(2)).split()) > 1]
            if not ms:
                continue
            m = r.choice(ms)
            i = 1 if m.group(1) is not None else 2
            x = m.group(i).split()
            x = r.choice([x[:-1], x + [x[-1]], x[::-1] if t[:m.start()].endswith("<boundaries") else x[:-1], ["1"], []])
            u = t[:m.start(i)] + " ".join(x) + t[m.end(i):]
        else:  # bounds in the wrong order
            ms = list(re.finditer(r'min="([^"]*)"(\s+)max="([^"]*)" bins', t))
            if not ms:
                continue
            m = r.choice(ms)
            u = t[:m.start()] + 'min="%s"%smax="%s" bins' % (m.group(3), m.group(2), m.group(1)) + t[m.end():]
        if u != t:
            return u
    return t[:-1]
