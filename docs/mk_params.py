"""One-off: turns the parameter table of the setup-file reader into data/params.json
(name, destination, kind, default, unit) and harness/fields.h (what harness/readin.c prints).
The result was reviewed by hand and is the specification from then on."""
import re, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open("/repo/MDLIB/InputOutput.c").read()
s = s[s.index("Input ReadInputFile"):s.index("PHASE DIAGRAM INFO - simple")]
UNIT = {"": "1", "scaling.L": "L", "scaling.t": "t", "scaling.eta": "eta", "scaling.E": "E", "scaling.S": "S", "scaling.T": "T", "scaling.V": "V", "scaling.a": "a", "scaling.rho": "rho",
        "(pow(scaling.L,2.0)/scaling.t)": "L*L/t", "(scaling.L*scaling.L/scaling.t)": "L*L/t", "scaling.Cp": "Cp", "scaling.k": "k", "(scaling.W / pow(scaling.L,3.0))": "W/L**3",
        "(1.0/scaling.T)": "1/T", "(1.0/scaling.S)": "1/S", "(scaling.rho)": "rho", "scaling.S / pow(scaling.t, 1.0/materials.n_vp[k])": "S*t"}
rows = []
for l in s.splitlines():
    l = re.sub(r"//.*", "", l)
    for m in re.finditer(r"(model|materials|Nmodel|particles)\.(\w+)(?:\[k\])?\s*=\s*(\(int\))?\s*(ReadInt2|ReadDou2|ReadMatProps|ReadChar)\s*\(\s*fin\s*,\s*\"(\w+)\"\s*,\s*(?:k\s*,\s*)?([^;]*);", l):
        st, fld, cast, fn, name, rest = m.groups()
        i = rest.index(")") if "(double)" not in rest else rest.index(")", rest.index("(double)") + 9)
        d, u = rest[:i].strip(), rest[i + 1:].strip()
        deg = "M_PI" in u
        if deg: u = ""
        u = UNIT[u.lstrip("/").strip()]
        if name in ("Tmin", "Tmax", "Pn"): u = {"Tmin": "T", "Tmax": "T", "Pn": "S"}[name]
        ref = {"materials.C[k]*scaling.S": "C", "materials.phi[k]*180.0/M_PI": "phi", "materials.psi[k]*180.0/M_PI": "psi", "(double)k": "phase"}.get(d)
        kind = "str" if fn == "ReadChar" else "int" if fn == "ReadInt2" or cast else "dbl"
        dv = d.strip('"') if kind == "str" else None if ref else 365.25 * 86400e9 if d == "Ga" else float(d)
        rows.append(dict(struct=st, field=fld, kind=kind, name=name, default=dv, default_ref=ref, unit="deg" if deg else u, offset=273.15 if name in ("Tmin", "Tmax") else 0, phase=fn == "ReadMatProps"))
json.dump(rows, open(os.path.join(V, "data", "params.json"), "w"), indent=0)
with open(os.path.join(V, "harness", "fields.h"), "w") as f:
    f.write("// written by docs/mk_params.py\n")
    for r in rows:
        M = {"str": "FS", "int": "FI", "dbl": "FD"}[r["kind"]] + ("P" if r["phase"] else "")
        f.write("%s(%s, %s)\n" % (M, r["struct"], r["field"]))
print(len(rows))
