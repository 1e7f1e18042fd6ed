// Reads setup files with the library's reader, each in a child process, and
// prints what it made of them. usage: readin LIST  (lines: setup-file result-file)
#include "mdoodz-private.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static void child(char *in, const char *out) {
  alarm(60);
  if (!freopen("/dev/null", "w", stdout)) _exit(97);
  char er[4200];
  snprintf(er, sizeof er, "%s.err", out);
  if (!freopen(er, "w", stderr)) _exit(97);
  Input in_ = ReadInputFile(in);
  FILE *f = fopen(out, "w");
  if (!f) _exit(97);
#define FI(s, x) fprintf(f, #s " " #x " 0 %d\n", (int) in_.s.x);
#define FD(s, x) fprintf(f, #s " " #x " 0 %.17g\n", (double) in_.s.x);
#define FS(s, x) fprintf(f, #s " " #x " 0 %s\n", in_.s.x);
#define FIP(s, x) for (int k = 0; k < in_.model.Nb_phases; k++) fprintf(f, #s " " #x " %d %d\n", k, (int) in_.s.x[k]);
#define FDP(s, x) for (int k = 0; k < in_.model.Nb_phases; k++) fprintf(f, #s " " #x " %d %.17g\n", k, (double) in_.s.x[k]);
#include "fields.h"
  fprintf(f, "model Nb_phases 0 %d\n", in_.model.Nb_phases);
  fprintf(f, "model dx 0 %.17g\nmodel dz 0 %.17g\nmodel dt0 0 %.17g\nmodel dt_start 0 %.17g\n", in_.model.dx, in_.model.dz, in_.model.dt0, in_.model.dt_start);
  fprintf(f, "model xmin0 0 %.17g\nmodel xmax0 0 %.17g\nmodel zmin0 0 %.17g\nmodel zmax0 0 %.17g\n", in_.model.xmin0, in_.model.xmax0, in_.model.zmin0, in_.model.zmax0);
#define SC(x) fprintf(f, "scaling " #x " 0 %.17g\n", in_.scaling.x);
  SC(eta) SC(L) SC(V) SC(T) SC(t) SC(a) SC(E) SC(S) SC(m) SC(rho) SC(F) SC(J) SC(W) SC(Cp) SC(rhoE) SC(k)
  fprintf(f, "materials R 0 %.17g\n", in_.materials.R);
  fprintf(f, "particles Nb_part 0 %ld\nparticles Nb_part_max 0 %ld\n", (long) in_.particles.Nb_part, (long) in_.particles.Nb_part_max);
  fprintf(f, "END 0 0 0\n");
  fclose(f);
  exit(0);
}

#include "mdoodz-verif.h"
void MdoodzVerifHook(const char *where, const MdoodzVerifState *s) {}

int main(int argc, char **argv) {
  FILE *l = fopen(argv[1], "r");
  char in[4096], out[4096];
  while (l && fscanf(l, "%4095s %4095s", in, out) == 2) {
    fflush(NULL);
    pid_t p = fork();
    if (!p) { fclose(l); child(in, out); }
    int st = 0;
    waitpid(p, &st, 0);
    printf("%s %d\n", out, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
  }
  return 0;
}
