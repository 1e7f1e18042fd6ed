"""Reference evaluations on recorded grid states: kinematics, momentum and mass
balance, boundary values.  Written from the continuum equations on the
staggered grid (velocities on faces, pressure and normal stresses in cells,
shear stress on vertices); nothing here calls the code under test."""
import numpy as np

AIR = 30

def kin(r, compressible):
    """strain rates, divergence and vorticity recomputed from recorded velocities"""
    u, w = r.u("u_in"), r.w("v_in")                     # u: (Nz+1,Nx)  w: (Nz,Nx+1)
    dx, dz = r["dx"], r["dz"]
    dudx = (u[1:-1, 1:] - u[1:-1, :-1]) / dx            # cells
    dwdz = (w[1:, 1:-1] - w[:-1, 1:-1]) / dz
    dudz = (u[1:, :] - u[:-1, :]) / dz                  # vertices
    dwdx = (w[:, 1:] - w[:, :-1]) / dx
    div = (dudx + dwdz) * (1.5 if r.s.get("out_of_plane") == 1 else 1.0)   # out-of-plane stretching is half that in the plane
    f = 1.0 / 3.0 if compressible else 0.0
    return dict(div=div, exxd=dudx - f * div, ezzd=dwdz - f * div, exz=.5 * (dudz + dwdx), wxz=.5 * (dwdx - dudz), dudx=dudx, dwdz=dwdz, dudz=dudz, dwdx=dwdx)

def momentum(r, sxxd, szzd, sxz, p, stab=0.0):
    """local force balance at every free velocity node: (F, scale, mask) for x and z.
    F = d(sxxd-p)/dx + d(sxz)/dz + rho g   and its size compared with the terms in it."""
    dx, dz, gx, gz = r.s["dx"], r.s["dz"], r.s["gx"], r.s["gz"]
    Nx, Nz = r.Nx, r.Nz
    rs, rn = r.v("rho_s"), r.n("rho_n")
    bu, bw = r.u("BCu"), r.w("BCv")
    bp, bg = r.n("BCp"), r.v("BCg")
    per = int(r["periodic_x"]) == 1
    txx, tzz = sxxd - p, szzd - p
    Fx = np.zeros((Nz + 1, Nx)); Sx = np.zeros_like(Fx); Mx = np.zeros_like(Fx, bool)
    E = txx[:, 1:]; W = txx[:, :-1]
    a = (E - W) / dx; b = (sxz[1:, 1:-1] - sxz[:-1, 1:-1]) / dz; c = gx * .5 * (rs[1:, 1:-1] + rs[:-1, 1:-1])
    Fx[1:-1, 1:-1] = a + b + c
    Sx[1:-1, 1:-1] = (abs(sxxd[:, 1:]) + abs(sxxd[:, :-1]) + abs(p[:, 1:]) + abs(p[:, :-1])) / dx + (abs(sxz[1:, 1:-1]) + abs(sxz[:-1, 1:-1])) / dz + abs(c)
    Mx[1:-1, 1:-1] = bu[1:-1, 1:-1] == -1
    if per:
        a = (txx[:, 0] - txx[:, -1]) / dx; b = (sxz[1:, 0] - sxz[:-1, 0]) / dz; c = gx * .5 * (rs[1:, 0] + rs[:-1, 0])
        Fx[1:-1, 0] = a + b + c
        Sx[1:-1, 0] = (abs(sxxd[:, 0]) + abs(sxxd[:, -1]) + abs(p[:, 0]) + abs(p[:, -1])) / dx + (abs(sxz[1:, 0]) + abs(sxz[:-1, 0])) / dz + abs(c)
        Mx[1:-1, 0] = bu[1:-1, 0] == -2
    Fz = np.zeros((Nz, Nx + 1)); Sz = np.zeros_like(Fz); Mz = np.zeros_like(Fz, bool)
    a = (tzz[1:] - tzz[:-1]) / dz; b = (sxz[1:-1, 1:] - sxz[1:-1, :-1]) / dx; c = gz * .5 * (rn[1:] + rn[:-1])
    Fz[1:-1, 1:-1] = a + b + c
    Sz[1:-1, 1:-1] = (abs(szzd[1:]) + abs(szzd[:-1]) + abs(p[1:]) + abs(p[:-1])) / dz + (abs(sxz[1:-1, 1:]) + abs(sxz[1:-1, :-1])) / dx + abs(c)
    Mz[1:-1, 1:-1] = bw[1:-1, 1:-1] == -1
    if stab > 0:   # implicit surface stabilisation adds dt*g*drho/dz*Vz; the solver may drop it node by node
        corr = stab * r.s["dt"] * gz * (rn[1:] - rn[:-1]) / dz * r.w("v_in")[1:-1, 1:-1]
        G = Fz[1:-1, 1:-1] - corr
        Fz[1:-1, 1:-1] = np.where(abs(G) < abs(Fz[1:-1, 1:-1]), G, Fz[1:-1, 1:-1])
    return (Fx, Sx, Mx), (Fz, Sz, Mz)

def claimed_converged(run):
    return "Non-linear solver converged to" in run.out
