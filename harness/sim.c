// Generic MDOODZ driver used by all checks: one RunMDOODZ() call per cfg file.
// The cfg describes the user callbacks (geometry, initial fields, boundary
// conditions) in SI units; the MDOODZ .txt it names holds the parameters.
#include "mdoodz-private.h"
#include "monitor.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>

#define MAXSH 64
typedef struct { char kind; int phase; double p[6]; } Shape;
// value = c0 + cx*x + cz*z + A*cos(kx*x+px)*cos(kz*z+pz) + G*exp(-((x-gx)^2+(z-gz)^2)/(2 s^2))
typedef struct { int on; double c0, cx, cz, A, kx, px, kz, pz, G, gx, gz, s; double ph[20]; int nph; } Fld;

enum { F_T, F_P, F_X, F_D, F_PHI, F_TXX, F_TZZ, F_TXZ, F_NOISE, F_ANGLE, F_VX, F_VZ, F_RHO, F_SURF, NF };
static const char *FN[NF] = {"T", "P", "X", "d", "phi", "Txx", "Tzz", "Txz", "noise", "angle", "Vx", "Vz", "rho", "surf"};

typedef struct {
  char  input[512];
  Shape sh[MAXSH];
  int   nsh, base;
  Fld   f[NF];
  int   bcs; double bcsv[4];
  int   bcv;            // 0 pureorsimple 1 pure 2 simple 3 linear 4 linear-freeslip
  double L[6];          // vx0 Lxx Lxz vz0 Lzx Lzz  (SI)
  int   bct[5]; double bctv[5]; int hasbct;   // N S W E freesurf
  int   bcc[5]; double bccv[5]; int hasbcc;
  int   usephase, surfphase, hastopo;
  int   pinned;
  int   adjust; double adjT; int adjFrom, adjTo;
  int   dual, dualTo;
  int   keep; double keepTurn;
  double F[4]; int hasF;
  int   defbc;
  int   bcfix; double fixT;
  int   mut; double mutv[4];
  int   ncrazy, crazy[20]; double crazyk;
} Cfg;
static Cfg C;
long vm_calls[32];
#define CALLED(i) __atomic_add_fetch(&vm_calls[i], 1, __ATOMIC_RELAXED)

static double fval(const Fld *f, double x, double z, int phase) {
  double v = f->c0 + f->cx * x + f->cz * z;
  if (f->A != 0) v += f->A * cos(f->kx * x + f->px) * cos(f->kz * z + f->pz);
  if (f->G != 0) v += f->G * exp(-((x - f->gx) * (x - f->gx) + (z - f->gz) * (z - f->gz)) / (2 * f->s * f->s));
  if (phase >= 0 && phase < f->nph) v += f->ph[phase];
  return v;
}
static double scaleL = 1;
static int phase_at(double x, double z) {
  int ph = C.base;
  for (int i = 0; i < C.nsh; i++) {
    const Shape *s = &C.sh[i];
    const double *p = s->p;
    int in = 0;
    if (s->kind == 'e') {          // ellipse cx cz rx rz angle(deg)
      double a = p[4] * M_PI / 180, dx = x - p[0], dz = z - p[1];
      double X = dx * cos(a) + dz * sin(a), Z = -dx * sin(a) + dz * cos(a);
      in = X * X / (p[2] * p[2]) + Z * Z / (p[3] * p[3]) < 1.0;
    } else if (s->kind == 'r') {   // rectangle xmin xmax zmin zmax
      in = x >= p[0] && x < p[1] && z >= p[2] && z < p[3];
    } else if (s->kind == 'w') {   // wavy layer: zmin+A cos(kx) .. zmax+A cos(kx)
      double d = p[2] * cos(p[3] * x);
      in = z >= p[0] + d && z < p[1] + d;
    } else if (s->kind == 'c') {   // checkerboard size
      long i1 = (long) floor(x / p[0]), i2 = (long) floor(z / p[1]);
      in = ((i1 + i2) & 1);
    } else if (s->kind == 'p') {   // half plane nx nz d
      in = x * p[0] + z * p[1] > p[2];
    } else if (s->kind == 'E') {   // the library's ellipse: cx cz axisx axisz angle(deg)
      in = IsEllipseCoordinates((Coordinates){.x = x / scaleL, .z = z / scaleL}, (Ellipse){.centreX = p[0], .centreZ = p[1], .radiusX = p[2], .radiusZ = p[3], .angle = p[4]}, scaleL);
    } else if (s->kind == 'R') {   // the library's rectangle: cx cz sizex sizez angle(deg)
      in = IsRectangleCoordinates((Coordinates){.x = x / scaleL, .z = z / scaleL}, (Rectangle){.centreX = p[0], .centreZ = p[1], .sizeX = p[2], .sizeZ = p[3], .angle = p[4]}, scaleL);
    }
    if (in) ph = s->phase;
  }
  return ph;
}
#define SX(in) ((in)->scaling.L)
static int cb_phase(MdoodzInput *in, Coordinates c) { CALLED(0); scaleL = SX(in); return phase_at(c.x * SX(in), c.z * SX(in)); }
static double unit(MdoodzInput *in, int k) {
  switch (k) {
    case F_T: return in->scaling.T;
    case F_P: case F_TXX: case F_TZZ: case F_TXZ: return in->scaling.S;
    case F_D: case F_SURF: return in->scaling.L;
    case F_VX: case F_VZ: return in->scaling.V;
    case F_RHO: return in->scaling.rho;
    case F_ANGLE: return 1.0;
  }
  return 1.0;
}
#define CBP(NAME, K) static double NAME(MdoodzInput *in, Coordinates c, int ph) { CALLED(1 + K); return fval(&C.f[K], c.x * SX(in), c.z * SX(in), ph) / unit(in, K); }
#define CB(NAME, K) static double NAME(MdoodzInput *in, Coordinates c) { CALLED(1 + K); return fval(&C.f[K], c.x * SX(in), c.z * SX(in), -1) / unit(in, K); }
CB(cb_T, F_T) CBP(cb_P, F_P) CBP(cb_X, F_X) CBP(cb_d, F_D) CBP(cb_phi, F_PHI) CBP(cb_Txx, F_TXX) CBP(cb_Tzz, F_TZZ) CBP(cb_Txz, F_TXZ)
CBP(cb_noise, F_NOISE) CB(cb_Vx, F_VX) CB(cb_Vz, F_VZ) CBP(cb_rho, F_RHO)
static double cb_angle(MdoodzInput *in, Coordinates c, int ph, double pre) { CALLED(1 + F_ANGLE); if (C.keep && in->model.step > 0) return pre + C.keepTurn; return fval(&C.f[F_ANGLE], c.x * SX(in), c.z * SX(in), ph); }
static double cb_surf(MdoodzInput *in, double x) { CALLED(1 + F_SURF); return fval(&C.f[F_SURF], x * SX(in), 0, -1) / SX(in); }
static int cb_surfphase(MdoodzInput *in, double x) { (void) in; (void) x; return C.surfphase; }
static int cb_adj(MdoodzInput *in, Coordinates c, double T, int ph) { (void) c; CALLED(20); return (ph == C.adjFrom && T * in->scaling.T > C.adjT) ? C.adjTo : ph; }
static int cb_dual(MdoodzInput *in, Coordinates c, int ph) { (void) in; (void) c; CALLED(21); return ph == 0 ? C.dualTo : ph; }
static Tensor2D cb_F(MdoodzInput *in, Coordinates c, int ph) { (void) in; (void) c; (void) ph; CALLED(22); Tensor2D t = {0}; t.xx = C.F[0]; t.xz = C.F[1]; t.zx = C.F[2]; t.zz = C.F[3]; return t; }
static double lvx(MdoodzInput *in, Coordinates c) { return (C.L[0] + C.L[1] * c.x * SX(in) + C.L[2] * c.z * SX(in)) / in->scaling.V; }
static double lvz(MdoodzInput *in, Coordinates c) { return (C.L[3] + C.L[4] * c.x * SX(in) + C.L[5] * c.z * SX(in)) / in->scaling.V; }
static SetBC cb_bcvx(MdoodzInput *in, POSITION pos, Coordinates c) {
  CALLED(23);
  SetBC bc = {.value = 0, .type = -1};
  if (pos == INTERNAL) return bc;
  if ((pos == W && (C.bcs & 1)) || (pos == E && (C.bcs & 2))) { bc.type = 2; bc.value = C.bcsv[pos == E] / in->scaling.S; return bc; }
  if (pos == W || pos == E) { bc.type = constant_velocity; bc.value = lvx(in, c); return bc; }
  if (C.bcv == 4) { bc.type = constant_shear_stress; bc.value = 0; return bc; }
  // ghost row lies half a cell outside: value on the boundary itself
  Coordinates b = c;
  if (pos == N || pos == NW || pos == NE) b.z = in->model.zmax; else b.z = in->model.zmin;
  bc.type = constant_velocity_NC; bc.value = lvx(in, b);
  return bc;
}
static SetBC cb_bcvz(MdoodzInput *in, POSITION pos, Coordinates c) {
  CALLED(24);
  SetBC bc = {.value = 0, .type = -1};
  if (pos == INTERNAL) return bc;
  if ((pos == S && (C.bcs & 4)) || (pos == N && (C.bcs & 8))) { bc.type = 2; bc.value = C.bcsv[2 + (pos == N)] / in->scaling.S; return bc; }
  if (pos == N || pos == S) { bc.type = constant_velocity; bc.value = lvz(in, c); return bc; }
  if (C.bcv == 4) { bc.type = constant_shear_stress; bc.value = 0; return bc; }
  Coordinates b = c;
  if (pos == E || pos == SE || pos == NE) b.x = in->model.xmax; else b.x = in->model.xmin;
  bc.type = constant_velocity_NC; bc.value = lvz(in, b);
  return bc;
}
static int posidx(POSITION p) { switch (p) { case N: return 0; case S: return 1; case W: return 2; case E: return 3; case free_surface: return 4; default: return -1; } }
static SetBC cb_bct(MdoodzInput *in, POSITION pos, Coordinates c, double T) {
  (void) c; (void) T;
  CALLED(25);
  SetBC bc = {.value = 0, .type = constant_heatflux};
  int i = posidx(pos);
  if (i < 0) return bc;
  bc.type = (char) C.bct[i];
  if (C.bct[i] == constant_temperature) bc.value = C.bctv[i] / in->scaling.T;
  else bc.value = C.bctv[i] / in->scaling.W * in->scaling.L * in->scaling.L;
  return bc;
}
static SetBC cb_bcc(MdoodzInput *in, POSITION pos, Coordinates c, double X) {
  (void) in; (void) c; (void) X;
  CALLED(26);
  SetBC bc = {.value = 0, .type = constant_Xflux};
  int i = posidx(pos);
  if (i < 0) return bc;
  bc.type = (char) C.bcc[i];
  bc.value = C.bccv[i];
  return bc;
}
static char cb_bcp(MdoodzInput *in, POSITION pos) { (void) in; CALLED(27); return (char) ((C.pinned && (pos == NE || pos == NW)) ? 0 : -1); }
static double cb_fixT(MdoodzInput *in, double P) { (void) P; CALLED(28); return C.fixT / in->scaling.T; }
static void cb_mut(MdoodzInput *in) { CALLED(29);
  if (C.mut == 1) { in->model.user0 = C.mutv[0]; in->model.user1 = C.mutv[1]; }
  if (C.ncrazy) {
    in->crazyConductivity = malloc(sizeof *in->crazyConductivity);
    in->crazyConductivity->phases = malloc(sizeof(int) * C.ncrazy);
    in->crazyConductivity->nPhases = C.ncrazy; in->crazyConductivity->multiplier = C.crazyk;
    for (int i = 0; i < C.ncrazy; i++) in->crazyConductivity->phases[i] = C.crazy[i];
  }
}

static void load(const char *fn) {
  memset(&C, 0, sizeof C);
  C.usephase = 1;
  FILE *f = fopen(fn, "r");
  if (!f) { fprintf(stderr, "sim: cannot open %s\n", fn); exit(77); }
  char line[8192];
  while (fgets(line, sizeof line, f)) {
    char *tok[256]; int n = 0;
    for (char *t = strtok(line, " \t\r\n"); t && n < 256; t = strtok(NULL, " \t\r\n")) tok[n++] = t;
    if (n == 0 || tok[0][0] == '#') continue;
#define D(i) ((i) < n ? atof(tok[i]) : 0.0)
    if (!strcmp(tok[0], "input")) snprintf(C.input, sizeof C.input, "%s", tok[1]);
    else if (!strcmp(tok[0], "shape")) { Shape *s = &C.sh[C.nsh++]; s->kind = tok[1][0]; s->phase = atoi(tok[2]); for (int i = 0; i < 6; i++) s->p[i] = D(3 + i); }
    else if (!strcmp(tok[0], "base")) C.base = atoi(tok[1]);
    else if (!strcmp(tok[0], "nophase")) C.usephase = 0;
    else if (!strcmp(tok[0], "fld")) {
      int k = 0; while (k < NF && strcmp(FN[k], tok[1])) k++;
      if (k == NF) { fprintf(stderr, "sim: bad field %s\n", tok[1]); exit(77); }
      Fld *g = &C.f[k]; g->on = 1;
      double *p = &g->c0; for (int i = 0; i < 12; i++) p[i] = D(2 + i);
      if (g->s == 0) g->s = 1;
    } else if (!strcmp(tok[0], "fldphase")) {
      int k = 0; while (k < NF && strcmp(FN[k], tok[1])) k++;
      Fld *g = &C.f[k]; g->on = 1; g->nph = n - 2; for (int i = 0; i < g->nph; i++) g->ph[i] = D(2 + i);
      if (g->s == 0) g->s = 1;
    }
    else if (!strcmp(tok[0], "bcs")) { C.bcs = atoi(tok[1]); for (int q = 0; q < 4; q++) C.bcsv[q] = atof(tok[2 + q]); }   // walls of imposed normal stress: 1 W 2 E 4 S 8 N
    else if (!strcmp(tok[0], "bcv")) C.bcv = atoi(tok[1]);
    else if (!strcmp(tok[0], "lin")) for (int i = 0; i < 6; i++) C.L[i] = D(1 + i);
    else if (!strcmp(tok[0], "bct")) { C.hasbct = 1; for (int i = 0; i < 5; i++) { C.bct[i] = (int) D(1 + 2 * i); C.bctv[i] = D(2 + 2 * i); } }
    else if (!strcmp(tok[0], "bcc")) { C.hasbcc = 1; for (int i = 0; i < 5; i++) { C.bcc[i] = (int) D(1 + 2 * i); C.bccv[i] = D(2 + 2 * i); } }
    else if (!strcmp(tok[0], "surfphase")) C.surfphase = atoi(tok[1]);
    else if (!strcmp(tok[0], "topo")) C.hastopo = 1;
    else if (!strcmp(tok[0], "pinned")) C.pinned = atoi(tok[1]);
    else if (!strcmp(tok[0], "adjust")) { C.adjust = 1; C.adjT = D(1); C.adjFrom = (int) D(2); C.adjTo = (int) D(3); }
    else if (!strcmp(tok[0], "dual")) { C.dual = 1; C.dualTo = (int) D(1); }
    else if (!strcmp(tok[0], "anglekeep")) { C.keep = 1; C.keepTurn = D(1); }   // later markers: the angle they are offered plus a constant
    else if (!strcmp(tok[0], "defgrad")) { C.hasF = 1; for (int i = 0; i < 4; i++) C.F[i] = D(1 + i); }
    else if (!strcmp(tok[0], "fixT")) { C.bcfix = 1; C.fixT = D(1); }
    else if (!strcmp(tok[0], "mutate")) { C.mut = 1; C.mutv[0] = D(1); C.mutv[1] = D(2); }
    else if (!strcmp(tok[0], "crazy")) { C.crazyk = D(1); for (int i = 2; i < n; i++) C.crazy[C.ncrazy++] = atoi(tok[i]); if (!C.mut) C.mut = 2; }
    else if (!strcmp(tok[0], "trace") || !strcmp(tok[0], "dump")) vm_configure(n, tok);
    else { fprintf(stderr, "sim: unknown key %s\n", tok[0]); exit(77); }
  }
  fclose(f);
}

static void run(void) {
  SetParticles_ff sp = {0};
  if (C.usephase) sp.SetPhase = cb_phase;
  if (C.f[F_T].on) sp.SetTemperature = cb_T;
  if (C.f[F_P].on) sp.SetPressure = cb_P;
  if (C.f[F_X].on) sp.SetXComponent = cb_X;
  if (C.f[F_D].on) sp.SetGrainSize = cb_d;
  if (C.f[F_PHI].on) sp.SetPorosity = cb_phi;
  if (C.f[F_TXX].on) sp.SetTxx = cb_Txx;
  if (C.f[F_TZZ].on) sp.SetTzz = cb_Tzz;
  if (C.f[F_TXZ].on) sp.SetTxz = cb_Txz;
  if (C.f[F_NOISE].on) sp.SetNoise = cb_noise;
  if (C.f[F_ANGLE].on) sp.SetAnisoAngle = cb_angle;
  if (C.f[F_VX].on) sp.SetHorizontalVelocity = cb_Vx;
  if (C.f[F_VZ].on) sp.SetVerticalVelocity = cb_Vz;
  if (C.f[F_RHO].on) sp.SetDensity = cb_rho;
  if (C.adjust) sp.AdjustPhaseToTemperature = cb_adj;
  if (C.dual) sp.SetDualPhase = cb_dual;
  if (C.hasF) sp.SetDefGrad = cb_F;
  SetBCs_ff bc = {0};
  switch (C.bcv) {
    case 0: bc.SetBCVx = SetPureOrSimpleShearBCVx; bc.SetBCVz = SetPureOrSimpleShearBCVz; break;
    case 1: bc.SetBCVx = SetPureShearBCVx; bc.SetBCVz = SetPureShearBCVz; break;
    case 2: bc.SetBCVx = SetSimpleShearBCVx; bc.SetBCVz = SetSimpleShearBCVz; break;
    default: bc.SetBCVx = cb_bcvx; bc.SetBCVz = cb_bcvz; break;
  }
  if (C.hasbct) bc.SetBCT = cb_bct;
  if (C.hasbcc) bc.SetBCC = cb_bcc;
  if (C.pinned) bc.SetBCPType = cb_bcp;
  if (C.bcfix) bc.FixTemperature = cb_fixT;
  BuildInitialTopography_ff topo = {0};
  if (C.f[F_SURF].on) topo.SetSurfaceZCoord = cb_surf;
  topo.SetSurfacePhase = cb_surfphase;
  MdoodzSetup setup = {0};
  setup.SetParticles = &sp;
  setup.SetBCs = &bc;
  if (C.hastopo) setup.BuildInitialTopography = &topo;
  if (C.mut) setup.MutateInput = cb_mut;
  char *in = strdup(C.input);
  RunMDOODZ(in, &setup);
  free(in);
}

int main(int argc, char **argv) {
  void (*mark)(const char *) = (void (*)(const char *)) dlsym(RTLD_DEFAULT, "heap_mark");   // see heap.c
  if (mark) mark("start");
  for (int i = 1; i < argc; i++) {
    vm_reset();
    load(argv[i]);
    srand(1);
    run();
    vm_close();
    if (mark) mark(argv[i]);
  }
  return 0;
}
