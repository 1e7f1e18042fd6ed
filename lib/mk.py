"""Reference marker <-> grid transfers (hat weights, bilinear interpolation),
written from their definition; used by the oracles on recorded states."""
import numpy as np

AIRT = (30, 31)

def axes(r, at):
    return {"c": (r["xc_coord"], r["zc_coord"]), "v": (r["xg_coord"], r["zg_coord"]), "u": (r["xg_coord"], r["zvx_coord"]), "w": (r["xvz_coord"], r["zg_coord"])}[at]

def active(r):
    return r["p.phase"] >= 0

def m2g(r, val, at, stencil):
    """weighted average of the markers' values at every node: (value, sum of weights); val: (np,) or (k,np)"""
    X, Z = axes(r, at)
    dx, dz = r.s["dx"], r.s["dz"]
    a = active(r)
    x, z = r["p.x"][a], r["p.z"][a]
    v = np.atleast_2d(val)[:, a]
    nx, nz = len(X), len(Z)
    hx, hz = (dx / 2, dz / 2) if stencil == 1 else (1.5 * dx, 1.5 * dz)
    i0 = np.clip(np.rint((x - X[0]) / dx).astype(int), 0, nx - 1)
    j0 = np.clip(np.rint((z - Z[0]) / dz).astype(int), 0, nz - 1)
    W = np.zeros(nx * nz); B = np.zeros((v.shape[0], nx * nz))
    per = int(r.s["periodic_x"]) == 1
    R = (0,) if stencil == 1 else (-1, 0, 1)
    for dj in R:
        for di in R:
            i, j = i0 + di, j0 + dj
            wx = 1 - abs(X[0] + i * dx - x) / hx; wz = 1 - abs(Z[0] + j * dz - z) / hz
            ok = (j >= 0) & (j < nz)
            if per and at == "c": i = i % nx
            else: ok &= (i >= 0) & (i < nx)
            w = wx * wz
            kk = (i + j * nx)[ok]
            W += np.bincount(kk, w[ok], nx * nz)
            for q in range(v.shape[0]):
                B[q] += np.bincount(kk, (w * v[q])[ok], nx * nz)
    with np.errstate(all="ignore"):
        out = B / W
    if per and at in "vu":
        out = out.reshape(-1, nz, nx)
        m = .5 * (out[:, :, 0] + out[:, :, -1])
        out[:, :, 0] = m; out[:, :, -1] = m
    out = out.reshape(-1, nz, nx)
    return (out[0] if np.ndim(val) == 1 else out), W.reshape(nz, nx)

def _bil(F, air, iW, iE, jS, jN, fx, fz):
    """bilinear value; a corner lying in the air is replaced by its vertical neighbour"""
    sw, se, nw, ne = F[jS, iW], F[jS, iE], F[jN, iW], F[jN, iE]
    asw, ase, anw, ane = air[jS, iW], air[jS, iE], air[jN, iW], air[jN, iE]
    SW, SE, NW, NE = np.where(asw, nw, sw), np.where(ase, ne, se), np.where(anw, sw, nw), np.where(ane, se, ne)
    clean = ~((asw & anw) | (ase & ane))          # some column entirely in the air: value not defined by material
    return (1 - fx) * (1 - fz) * SW + fx * (1 - fz) * SE + (1 - fx) * fz * NW + fx * fz * NE, clean

def g2m_c(r, F, air=None):
    """cell-centred field -> markers (flat beyond the outermost centres, wrapping in x when periodic)"""
    nz, nx = r.Nz - 1, r.Nx - 1
    F = np.asarray(F).reshape(nz, nx)
    air = np.isin(r.n("BCp"), AIRT) if air is None else air
    x, z = r["p.x"], r["p.z"]
    X, Z = r["xc_coord"], r["zc_coord"]
    a = (x - X[0]) / r.s["dx"]; b = (z - Z[0]) / r.s["dz"]
    i = np.clip(np.floor(a).astype(int), -1, nx - 1); j = np.clip(np.floor(b).astype(int), -1, nz - 1)
    fx, fz = a - i, b - j
    iW, iE = i, i + 1
    if int(r.s["periodic_x"]) == 1: iW, iE = iW % nx, iE % nx
    else: iW, iE = np.clip(iW, 0, nx - 1), np.clip(iE, 0, nx - 1)
    jS, jN = np.clip(j, 0, nz - 1), np.clip(j + 1, 0, nz - 1)
    return _bil(F, air, iW, iE, jS, jN, fx, fz)

def g2m_v(r, F, air=None):
    nz, nx = r.Nz, r.Nx
    F = np.asarray(F).reshape(nz, nx)
    air = np.isin(r.v("BCg"), AIRT) if air is None else air
    x, z = r["p.x"], r["p.z"]
    a = (x - r["xg_coord"][0]) / r.s["dx"]; b = (z - r["zg_coord"][0]) / r.s["dz"]
    i = np.clip(np.floor(a).astype(int), 0, nx - 2); j = np.clip(np.floor(b).astype(int), 0, nz - 2)
    return _bil(F, air, i, i + 1, j, j + 1, a - i, b - j)

def g2m_x(r, F, air):
    """cell-centred field -> markers, extended linearly beyond the outermost centres, air cells left out"""
    nz, nx = r.Nz - 1, r.Nx - 1
    F = np.asarray(F).reshape(nz, nx)
    a = (r["p.x"] - r["xc_coord"][0]) / r.s["dx"]; b = (r["p.z"] - r["zc_coord"][0]) / r.s["dz"]
    i = np.clip(np.floor(a).astype(int), 0, nx - 2); j = np.clip(np.floor(b).astype(int), 0, nz - 2)
    fx, fz = a - i, b - j
    num = 0.0; den = 0.0; inside = (fx >= 0) & (fx <= 1) & (fz >= 0) & (fz <= 1)
    for jj, wz in ((j, 1 - fz), (j + 1, fz)):
        for ii, wx in ((i, 1 - fx), (i + 1, fx)):
            w = np.where(air[jj, ii], 0, wx * wz)
            num = num + w * F[jj, ii]; den = den + w
    with np.errstate(all="ignore"):
        return np.where(den > 1e-13, num / den, 0.0), inside, den

def c2v(F, per=False):
    """cell centres -> vertices, averaging the existing neighbours (full grid, no air)"""
    nz, nx = F.shape
    S = np.zeros((nz + 1, nx + 1)); N = np.zeros_like(S)
    for dj in (0, 1):
        for di in (0, 1):
            S[dj:dj + nz, di:di + nx] += F; N[dj:dj + nz, di:di + nx] += 1
    return S / N
