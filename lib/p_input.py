"""Setup files: what is written is what the model gets."""
import json
import numpy as np
from core import *
from gen import *
from reg import prop, n_of
import re

PARAMS = json.load(open(os.path.join(VERIF, "data", "params.json")))
LAWS = json.load(open(os.path.join(VERIF, "data", "flowlaws.json")))

def scales(eta, L, V, T):
    c = dict(eta=eta, L=L, V=V, T=T)
    c["t"] = L / V; t = c["t"]
    c["a"] = V / t; c["E"] = 1 / t; c["S"] = eta / t
    c["m"] = c["S"] * L * t * t
    c["rho"] = c["m"] / L**3; c["F"] = c["m"] * L / t**2
    c["J"] = c["m"] * L * L / t**2; c["W"] = c["J"] / t
    c["Cp"] = c["J"] / c["m"] / T; c["k"] = c["W"] / L / T; c["rhoE"] = c["J"] / c["m"] * c["rho"]
    return c

def unit(u, c):
    return np.pi and 1.0 if u == "1" else eval(u, {}, c)

def fmt(r, x):
    """one of the ways a number is written, and the number it stands for"""
    q = r.i(0, 6)
    s = "%.*g" % (r.i(1, 17), x) if q < 2 else "%.*e" % (r.i(0, 9), x) if q < 4 else "%.*E" % (r.i(0, 9), x) if q == 4 else repr(float(x)) if q == 5 else ("%.3f" % x if 1e-2 < abs(x) < 1e9 else "%e" % x)
    if not s.startswith("-") and r.p(.08): s = "+" + s
    s2 = re.sub(r"^([+-]?)0\.(\d)", r"\1.\2", s) if r.p(.15) else s
    if r.p(.08) and "e" not in s2 and "E" not in s2 and "." not in s2: s2 += "."
    return s2, float(s2)

def fint(r, n):
    s = str(n)
    q = r.p(1)
    if r.p(.1): s += ".0"
    elif r.p(.05) and n >= 0: s = "+" + s
    elif r.p(.05) and n >= 0: s = "0" + s
    return s

INT = {"interp_stencil": [1, 9], "kinetics": [0, 2], "Nx": range(3, 400), "Nz": range(3, 400), "istep": range(0, 5), "irestart": [0, 1], "shear_style": [0, 1, 2], "periodic_x": [0, 1], "anisotropy": [0, 1],
       "Newton": [0, 1], "Picard2Newton": [0, 1], "line_search": [0, 1], "lin_solver": [0, 1, 2, -1], "Nx_part": range(1, 9), "Nz_part": range(1, 9), "finite_strain": [0, 1], "surface_processes": [0, 1, 3, 5], "compressible": [0, 1]}
INTP = {"density_model": [0, 1, 3], "coh_soft": [0, 1], "phi_soft": [0, 1], "psi_soft": [0, 1], "reac_soft": [0, 1], "melt": [0, 1, 10, 11, 40, 41]}
FLAGP = ("cstv", "pwlv", "linv", "gbsv", "expv", "gs", "kin")

def laws(kind): return [int(re.sub(r"\D", "", k)) for k in LAWS if k.startswith(kind)]

def p23_case(seed, i):
    r = rng(seed, "p23", i)
    nph = r.c([1, 2, 3, 5, 9, 12, 20])
    gen = [p for p in PARAMS if not p["phase"]]
    php = [p for p in PARAMS if p["phase"]]
    dens = r.c([.1, .5, .9, 1.0])        # share of the parameters that the file gives
    val, txt = {}, {}                    # (name, phase) -> value in the units of the file
    sc = {}
    for k, lo, hi in (("eta", 1e-3, 1e24), ("L", 1e-6, 1e6), ("V", 1e-15, 1e3), ("T", 1e-2, 1e3)):
        if r.p(.7): txt[k, None], sc[k] = fmt(r, r.lu(lo, hi))
        else: sc[k] = 1.0
    for p in gen:
        if p["name"] == "Nb_phases": continue
        if not r.p(dens): continue
        k = p["name"], None
        if p["kind"] == "int":
            n = int(r.c(list(INT[p["name"]]))) if p["name"] in INT else int(r.c([0, 0, 1, 1, 2, -1, 3, r.i(-50, 2000)]))
            val[k], txt[k] = n, fint(r, n)
        elif p["kind"] == "str":
            n = "".join(r.c(list("abcXYZ019_-./")) for _ in range(r.i(1, r.c([8, 30, 49, 200]))))
            val[k] = txt[k] = n
        else:
            txt[k], val[k] = fmt(r, r.c([0.0, 1.0, -1.0, r.u(-10, 10), r.lu(1e-30, 1e30), -r.lu(1e-12, 1e20)]))
    for a, b in (("xmin", "xmax"), ("zmin", "zmax")):      # a box has an extent
        if val.get((a, None), -1.0) >= val.get((b, None), 1.0):
            x = r.lu(1e-3, 1e6)
            for k, y in ((a, -x), (b, x * r.u(.5, 2))): val[k, None] = y; txt[k, None] = repr(y)
    if ("compressible", None) not in val: comp = 0
    else: comp = val["compressible", None]
    nid = ("Nb_phases", None)
    txt[nid] = fint(r, nph)
    for f in range(nph):
        def put(name, x):
            txt[name, f], val[name, f] = fmt(r, x)
        for p in php:
            nm = p["name"]
            if nm in FLAGP or not r.p(dens): continue
            k = nm, f
            if nm == "psi": put(nm, r.u(1, 40) if comp else 0.0)
            elif nm == "phi": put(nm, r.c([0.0, 30.0, r.u(1, 60)]))
            elif nm == "C": put(nm, r.lu(1e4, 1e8))
            elif nm == "Slim": put(nm, r.lu(2e8, 1e10))
            elif nm == "n_vp": put(nm, 1.0)
            elif nm == "reac_phase": val[k] = r.i(0, nph - 1); txt[k] = fint(r, val[k])
            elif nm == "psi_soft": val[k] = r.i(0, comp); txt[k] = fint(r, val[k])
            elif nm in ("phase_two", "transmutation_phase"): val[k] = r.i(0, nph - 1); txt[k] = fint(r, val[k])
            elif p["kind"] == "int":
                val[k] = int(r.c(INTP[nm])) if nm in INTP else r.i(-3, 60)
                txt[k] = fint(r, val[k])
            else: put(nm, r.c([0.0, 1.0, r.u(-100, 100), r.lu(1e-30, 1e30)]))
        for soft, a, b, d in (("coh_soft", "C", "Ce", 1e3), ("phi_soft", "phi", "phie", 1.0), ("psi_soft", "psi", "psie", 1.0)):
            if val.get((soft, f)) == 1:          # softening needs an end value that differs
                x = val.get((a, f), {"C": 1e7, "phi": 30.0, "psi": 0.0}[a])
                val[b, f] = x + d * r.u(1, 5) * (r.c([-1, 1]) if soft != "psi_soft" else 1); txt[b, f] = repr(val[b, f])
        if val.get(("transmutation", f)) and ("transmutation_phase", f) not in val: val["transmutation_phase", f] = 0; txt["transmutation_phase", f] = "0"
        on = 0
        for nm, kd in (("cstv", None), ("pwlv", "pwl"), ("linv", "lin"), ("gbsv", "gbs"), ("expv", "exp"), ("gs", "gs"), ("kin", None)):
            if r.p(.25):
                x = 1 if nm in ("cstv", "kin") else int(r.c(laws(kd)))
                val[nm, f] = x; txt[nm, f] = fint(r, x); on |= nm not in ("gs", "kin")
        if not on: val["cstv", f] = 1; txt["cstv", f] = "1"
    return r, nph, sc, val, txt

def junk(r, names):
    """text after a value that must not matter"""
    n = r.c(names)
    return r.c(["", "", "", "", " ", "   // a comment", " / " + n + " = 77", "\t// = 5 " + n, " # was 12.5", "  // Default: " + n + "=3", "  // " + "x" * r.i(100, 800), " [m]"])

def write(r, nph, txt, fn):
    eol = r.c(["\n", "\n", "\n", "\r\n"])
    names = [p["name"] for p in PARAMS]
    def line(nm, t):
        a, b = r.c([(" ", " "), (" ", " "), ("", ""), ("", " "), (" ", ""), ("\t", "\t"), ("      ", "  "), ("\t\t", " ")])
        return nm + a + "=" + b + t + (junk(r, names) if True else "")
    def noise():
        n = r.c(names)
        return r.c(["", "", "// " + n + " = 12345", "/**** " + n + " ****/", "//" + n + " = -4", "# " + n + " = 3", n + "2 = 9", "x" + n + " = 9", n + "_old   = 8", "********** RESTART **********", n.upper() + "_X = 1", "-" * r.i(3, 300), n + ": 31", "Comment about " + n + " = 9", n + " of phase 3"])
    G = [(k[0], t) for k, t in txt.items() if k[1] is None]
    r.g.shuffle(G) if hasattr(r, "g") else None
    for j in range(len(G) - 1, 0, -1):
        m = r.i(0, j); G[j], G[m] = G[m], G[j]
    blocks = []
    order = list(range(nph))
    if r.p(.3): order += [nph + r.i(0, 3)]          # a section nobody asked for
    for j in range(len(order) - 1, 0, -1):
        m = r.i(0, j) if r.p(.5) else j; order[j], order[m] = order[m], order[j]
    for f in order:
        B = [(k[0], t) for k, t in txt.items() if k[1] == f]
        if f >= nph: B = [("rho", "1234.5"), ("cstv", "1")]
        for j in range(len(B) - 1, 0, -1):
            m = r.i(0, j); B[j], B[m] = B[m], B[j]
        blocks.append([("ID", fint(r, f).split(".")[0])] + B)
    split = r.c([0, 0, 1, 2])            # general parameters: all before the phases, some after, some among them
    out = []
    head = [g for g in G if split == 0 or r.p(.7)]
    rest = [g for g in G if g not in head]
    if split == 1: seq = [head] + blocks[:-1] + [blocks[-1] + rest]
    elif split == 2:
        seq = [head] + [list(b) for b in blocks]
        for g in rest:
            b = seq[r.i(1, len(seq) - 1)]; b.insert(r.i(1, len(b)), g)
    else: seq = [head] + blocks
    dup = r.p(.3)
    nz = r.c([0, .1, .5])
    for part in seq:
        seen = []
        for nm, t in part:
            while r.p(nz): out.append(noise())
            out.append(line(nm, t))
            seen.append(nm)
            if dup and r.p(.05) and nm != "ID": out.append(line(r.c([x for x in seen if x != "ID"]), "4"))     # repeated further down: the first one counts
    while r.p(nz): out.append(noise())
    s = eol.join(out) + ("" if r.p(.3) else eol)
    with open(fn, "w", newline="") as h: h.write(s)

def expected(nph, sc, val):
    c = scales(**{**dict(eta=1.0, L=1.0, V=1.0, T=1.0), **sc})
    out = {}
    raw = {}
    for p in PARAMS:
        for f in (range(nph) if p["phase"] else [None]):
            x = val.get((p["name"], f))
            if x is None:
                x = p["default"] if p["default_ref"] is None else f if p["default_ref"] == "phase" else raw[p["default_ref"], f]
            raw[p["field"], f] = x
            if p["kind"] == "str": y = x
            else:
                y = (x + p["offset"]) * (np.pi / 180 if p["unit"] == "deg" else 1.0) / (1.0 if p["unit"] == "deg" else unit(p["unit"], c))
            out[p["struct"], p["field"], f or 0] = y
    m = lambda k: out["model", k, 0]
    out["model", "Nb_phases", 0] = out["materials", "Nb_phases", 0] = nph
    if m("istep") == 0: out["model", "irestart", 0] = 0
    if m("shear_style") == 1: out["model", "periodic_x", 0] = 1
    if m("shear_style") == 0: out["model", "periodic_x", 0] = 0
    if m("anisotropy") == 1: out["model", "finite_strain", 0] = 1
    if m("Newton") == 0: out["Nmodel", "Picard2Newton", 0] = 0
    if m("Newton") == 1: out["model", "line_search", 0] = 1
    if m("lin_solver") == 0 or m("Newton") == 1 or m("anisotropy") == 1: out["model", "lin_solver", 0] = 2
    out["model", "dx", 0] = (m("xmax") - m("xmin")) / (m("Nx") - 1)
    out["model", "dz", 0] = (m("zmax") - m("zmin")) / (m("Nz") - 1)
    for k in ("dt0", "dt_start"): out["model", k, 0] = m("dt")
    for k in ("xmin", "xmax", "zmin", "zmax"): out["model", k + "0", 0] = m(k)
    nb = (m("Nx") - 1) * (m("Nz") - 1) * out["particles", "Nx_part", 0] * out["particles", "Nz_part", 0]
    out["particles", "Nb_part", 0] = nb
    for k, x in c.items(): out["scaling", k, 0] = x
    out["materials", "R", 0] = 8.314510 / (c["J"] / c["T"])
    for f in range(nph):                 # parameters that the flow-law data base owns
        if raw["pwlv", f] != 0:
            for k in ("npwl", "Qpwl", "tau0", "eps0", "eta0"): out.pop(("materials", k, f), None)
    return out

@prop("P23", "setup files with known contents, written in every layout that the format allows (order, spacing, comments, number formats, line ends, repeated, commented-out and similarly named lines), are read with the library's reader; every one of the parameters must come out as its text divided by its scale, or as its documented default",
      ["the defaults and units are those of the pinned tree (data/params.json)"], min_evals=2000)
def p23(v, tier, seed):
    exe = build("plain", program="readin")
    n = n_of(tier, 400, 6000)
    with Scratch() as base:
        cases = {}
        jobs = []
        for i in range(n):
            r, nph, sc, val, txt = p23_case(seed, i)
            fn = os.path.join(base, "f%d.txt" % i)
            write(r, nph, txt, fn)
            cases[i] = expected(nph, sc, val)
            jobs.append((fn, os.path.join(base, "f%d.out" % i)))
        def go(chunk):
            lst = os.path.join(base, "list%d" % chunk[0])
            with open(lst, "w") as h:
                for j in chunk: h.write("%s %s\n" % jobs[j])
            p = subprocess.run([exe, lst], capture_output=True, text=True, cwd=base, timeout=600)
            return dict(l.rsplit(" ", 1) for l in p.stdout.splitlines())
        st = {}
        for d in pmap(go, [list(range(n))[k::16] for k in range(16)]): st.update(d)
        given = 0
        for i, E in cases.items():
            src, outf = jobs[i]
            code = int(st.get(outf, "-99"))
            v.count("files read"); v.saw(i, len(E))
            if code != 0:
                v.fail("file%d:status" % i, "a valid setup file ends the reader with %d: %s" % (code, open(outf + ".err").read()[-200:] if os.path.exists(outf + ".err") else ""), extra=open(src).read())
                continue
            got = {}
            for l in open(outf):
                a = l.rstrip("\n").split(" ", 3)
                got[a[0], a[1], int(a[2])] = a[3]
            bad = []
            for k, x in E.items():
                g = got.get(k)
                if g is None: bad.append("%s.%s[%d] missing" % k); continue
                if isinstance(x, str): ok = g == x
                else:
                    ok = abs(float(g) - x) <= 1e-12 * abs(x) or (x == 0 and abs(float(g)) == 0)
                v.count("values compared")
                if not ok: bad.append("%s.%s[%d] is %s, the file says %r" % (k + (g, x)))
            if bad: v.fail("file%d:" % i + bad[0].split(" ")[0], "; ".join(bad[:4]), extra=open(src).read())
            if i < 3: v.sample("file %d: %d lines, %d values" % (i, len(open(src).read().splitlines()), len(E)))
