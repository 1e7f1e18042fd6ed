"""Reference rheology in SI units: creep laws, elasticity, plasticity, mixing.
Written from the published laws (strain rates of the mechanisms add up, stress
is common), solved by bisection; shares no code with the code under test."""
import json, os
import numpy as np
import scipy.special as sp
from core import VERIF, PHASE
RG, ZC = 8.314510, 273.15
LAW = json.load(open(os.path.join(VERIF, "data", "flowlaws.json")))

DEF = dict(C=1e7, phi=30.0, psi=0.0, Slim=1e90, plast=1, eta_vp=0.0, eta0=1e20, npwl=1.0, Qpwl=0.0, pref_pwl=1.0, gs_ref=2e-3, cstv=0, pwlv=0, linv=0, gbsv=0, expv=0, gs=0,
           bet=1e-40, reac_soft=0, reac_phase=0, Pr=0.0, dPr=0.0, tau_kin=0.0, phase_mix=0, alp=0.0, rho=2700.0, G=1e10, drho=0.0, density_model=3, Cp=1e3, k=1e-6, Qr=1e-30)

def par(scn, i, k):
    v = scn.phases[i].get(k, PHASE.get(k))
    if k == "phase_two" and v is None: return i
    return DEF.get(k) if v is None else v

def tri(law):   # factor turning an experiment's law into invariants
    t, n = law["t"], law["n"]
    return 1.0 if t == 0 else (2 ** (1 / n) * 3 ** ((n - 1) / (2 * n)) / 6 if t == 1 else 2 ** (1 / n) / 4)

def laws(scn, i):
    """list of (name, law dict) active for phase i"""
    out = []
    for k, nm in (("pwlv", "pwl"), ("linv", "lin"), ("gbsv", "gbs"), ("expv", "exp")):
        n = int(par(scn, i, k))
        if not n: continue
        if nm == "pwl" and abs(n) == 1:
            L = dict(t=0, n=par(scn, i, "npwl"), m=0.0, r=0.0, Q=par(scn, i, "Qpwl"), V=0.0, A=par(scn, i, "eta0") ** -par(scn, i, "npwl"), f=0.0, a=0.0)
        else:
            L = dict(LAW["%s%d" % (nm, abs(n))])
        if nm != "exp": L["F"] = 1.0 if n < 0 else tri(L)
        out.append((nm, L))
    return out

def rate_const(nm, L, T, P, d, phi, pref):
    """(C, exponent) with rate = C * stress^exponent"""
    if nm == "exp":
        g, n = L["Gexp"], L["nexp"]
        st = L["Qexp"] / (RG * T) * 2 * g * (1 - g)
        e = st + n
        arr = np.exp(-L["Qexp"] / (RG * T) * (1 - g) ** 2)
        F = (2 ** (1 - st - n) / np.sqrt(3.0) ** (st + n + 1)) ** (1 / e)
        B = F * (g * L["Sexp"]) ** (st / e) / (L["Eexp"] * arr) ** (1 / e)
        return e * -np.log(2 * B), e          # log of constant: these overflow otherwise
    n, m = L["n"], L["m"]
    lf = -L["r"] / n * np.log(L["f"]) if L["r"] else 0.0
    lB = np.log(L["F"]) - np.log(L["A"]) / n + (L["Q"] + P * L["V"]) / (n * RG * T) + (m / n) * np.log(d) + lf - L["a"] * phi / n
    if nm == "pwl": lB = lB + np.log(pref)
    return -n * (np.log(2.0) + lB), n

PLAIN = [int(k[3:]) for k, v in LAW.items() if k.startswith("pwl") and k[3:].isdigit() and not (v["m"] or v["r"] or v["V"] or v["a"])]

def composite(scn, i, T, P, X0, dt):
    """dislocation creep of a two-mineral aggregate (Huet et al. 2014) whose reaction has reached X"""
    pr, dp, tk = par(scn, i, "Pr"), par(scn, i, "dPr"), par(scn, i, "tau_kin")
    X = (X0 * tk + dt * (1 - .5 * sp.erfc((P - pr) / dp))) / (tk + dt)
    a, b = [dict(laws(scn, k))["pwl"] for k in (i, int(par(scn, i, "reac_phase")))]
    n1, n2 = a["n"], b["n"]
    p1, p2 = (1 - X) * (n2 + 1), X * (n1 + 1)
    p1, p2 = p1 / (p1 + p2), p2 / (p1 + p2)
    n, Q = p1 * n1 + p2 * n2, p1 * a["Q"] + p2 * b["Q"]
    q1, q2 = n1 / (n1 + 1), n2 / (n2 + 1)
    lA = p1 * np.log(a["A"]) + p2 * np.log(b["A"]) - n * np.log((1 - X) * q1 + X * q2) + p1 * n1 * np.log(q1) + p2 * n2 * np.log(q2)
    F = 1.0 if a["t"] == 0 else (2 ** (1 / n) * 3 ** ((n - 1) / (2 * n)) / 6 if a["t"] == 1 else 2 ** (1 / n) / 4)
    lB = np.log(F) - lA / n + Q / (n * RG * np.maximum(T, ZC)) + np.log(par(scn, i, "pref_pwl"))
    return -n * (np.log(2.0) + lB), n

def blend(scn, i, X):
    """constant viscosity of a material whose composition runs between two phases"""
    a, b = par(scn, i, "eta0"), par(scn, int(par(scn, i, "phase_two")), "eta0")
    k = int(scn.get("diffuse_avg") or 0)
    return X * a + (1 - X) * b if k == 0 else 1 / (X / a + (1 - X) / b) if k == 1 else a ** X * b ** (1 - X)

def wattmeter(scn, i, T, lt, lpwl):
    """log of the grain size at which growth balances the reduction by dislocation creep (Austin & Evans 2007)"""
    L = LAW["gs%d" % int(par(scn, i, "gs"))]; p = L["ppzm"]
    return (np.log(L["Kpzm"]) - L["Qpzm"] / (RG * np.maximum(T, ZC)) + np.log(L["Gpzm"] * L["cpzm"] / (L["Lpzm"] * p)) - lt - lpwl) / (1 + p)

def creep(scn, i, E, T, P, d, phi, etael, mix=None, cst=None):
    """visco-elastic stress and rates of every mechanism for invariant E; etael None = no elasticity"""
    T = np.maximum(T, ZC)
    if int(par(scn, i, "gs")): return creep_gs(scn, i, E, T, P, d, phi, etael)
    mech = []
    for nm, L in laws(scn, i):
        lc, e = rate_const(nm, L, T, P, d, phi, par(scn, i, "pref_pwl"))
        if nm == "pwl" and mix is not None: lc, e = mix
        on = (T < 1200 + ZC) if nm == "exp" else np.ones_like(E, bool)
        mech.append((nm, lc, e, on))
    if int(par(scn, i, "cstv")):
        mech.append(("cst", -np.log(2 * (par(scn, i, "eta0") if cst is None else cst)) + 0 * E, 1.0, np.ones_like(E, bool)))
    if etael is not None:
        mech.append(("el", -np.log(2 * etael), 1.0, np.ones_like(E, bool)))
    lE = np.log(E)
    hi = np.full_like(E, np.inf)
    for _, lc, e, on in mech:
        hi = np.where(on, np.minimum(hi, (lE - lc) / e), hi)
    lo = hi - np.log(12.0)
    for _ in range(70):
        mid = .5 * (lo + hi)
        s = sum(np.where(on, np.exp(lc + e * mid - lE), 0) for _, lc, e, on in mech)
        lo = np.where(s < 1, mid, lo); hi = np.where(s < 1, hi, mid)
    lt = .5 * (lo + hi)
    tau = np.exp(lt)
    rates = {nm: np.where(on, np.exp(lc + e * lt), 0) for nm, lc, e, on in mech}
    return tau, rates

def creep_gs(scn, i, E, T, P, d, phi, etael):
    """the same with the grain size in equilibrium with the flow (grain-boundary sliding, as in the code, with that of the step before)"""
    M = {nm: rate_const(nm, L, T, P, 1.0, phi, par(scn, i, "pref_pwl")) + (L.get("m", 0.0),) for nm, L in laws(scn, i)}
    if "gbs" in M: M["gbs"] = rate_const("gbs", dict(laws(scn, i))["gbs"], T, P, d, phi, 1.0) + (0.0,)
    if int(par(scn, i, "cstv")): M["cst"] = (-np.log(2 * par(scn, i, "eta0")) + 0 * E, 1.0, 0.0)
    if etael is not None: M["el"] = (-np.log(2 * etael), 1.0, 0.0)
    warm = ~(T < 1200 + ZC)
    def rates(lt):
        ld = wattmeter(scn, i, T, lt, M["pwl"][0] + M["pwl"][1] * lt)
        return {nm: np.where(warm & (nm == "exp"), 0, np.exp(np.minimum(c + e * lt - m * ld, 600))) for nm, (c, e, m) in M.items()}, ld
    hi = (np.log(E) - M["pwl"][0]) / M["pwl"][1]; lo = hi - 60
    for _ in range(90):
        mid = .5 * (lo + hi); up = sum(rates(mid)[0].values()) < E
        lo = np.where(up, mid, lo); hi = np.where(up, hi, mid)
    lt = .5 * (lo + hi)
    return np.exp(lt), rates(lt)[0]

def plastic(scn, i, tau, E, eve, P, C, fric, dil, K, dt):
    """Drucker-Prager with rate-dependent overstress and a stress ceiling: (stress, multiplier, pressure, is_plastic)"""
    if not int(par(scn, i, "plast")):
        z = np.zeros_like(tau); return tau, z, P, z > 1
    cf, sf, sd = np.cos(fric), np.sin(fric), np.sin(dil)
    Ty = C * cf + P * sf
    cut = par(scn, i, "Slim") < Ty
    base = np.where(cut, par(scn, i, "Slim"), C * cf); sf = np.where(cut, 0.0, sf)
    Ty = np.where(cut, par(scn, i, "Slim"), Ty)
    F = tau - Ty
    on = F > 0
    vp = par(scn, i, "eta_vp")
    g = np.where(on, F / (eve + vp + K * dt * sf * sd), 0.0)
    Pc = P + K * dt * sd * g
    t2 = tau - eve * g
    neg = on & (t2 < 0)
    t2 = np.where(neg, np.minimum(tau, 1e5), t2); g = np.where(neg, (tau - t2) / eve, g); Pc = np.where(neg, P, Pc)
    return t2, g, Pc, on
