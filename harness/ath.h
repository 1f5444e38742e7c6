/* common set-up for replay harnesses: the real Athena library functions, driven in-process */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#define MAIN_C
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

static uint64_t rng_s = 88172645463325252ULL;
static double urand(void)              /* (0,1) */
{
  rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17;
  return ((double)(rng_s >> 11) + 0.5) / 9007199254740992.0;
}
static double sym(double a) { return a * (2.0 * urand() - 1.0); }
static void rseed(long s) { int n; rng_s = 88172645463325252ULL ^ ((uint64_t)s * 0x9E3779B97F4A7C15ULL); for (n = 0; n < 20; n++) urand(); }

static int nfail = 0;
static void fail(const char *fmt, ...)
{
  va_list ap;
  if (++nfail > 8) return;
  printf("FAIL: ");
  va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
  printf("\n");
}
static int done(void)
{
  if (nfail) { printf("FAILED %d\n", nfail); return 1; }
  printf("OK\n");
  return 0;
}

#ifndef OWN_PROBLEM
void problem(DomainS *pDomain) {}
void problem_write_restart(MeshS *pM, FILE *fp) {}
void problem_read_restart(MeshS *pM, FILE *fp) {}
#ifndef OWN_EXPR
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
#endif
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
void Userwork_in_loop(MeshS *pM) {}
void Userwork_after_loop(MeshS *pM) {}
#ifdef PARTICLES
PropFun_t get_usr_par_prop(const char *name) { return NULL; }
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3) {}
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3, const Real v1, const Real v2, const Real v3) {}
#endif
#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A) { *eta_O = *eta_H = *eta_A = 0.0; }
#endif
#endif

static double X0[3] = {-0.5, -0.25, 0.125}, X1[3] = {0.5, 0.35, 0.825};

/* parameter database through the real par_* functions; the input file itself is a scratch file */
static void openpar(void)
{
  char fn[64];
  FILE *f;
  sprintf(fn, "athin.%ld", (long)getpid());
  f = fopen(fn, "w");
  fprintf(f, "<job>\nproblem_id = h\n");
  fclose(f);
  par_open(fn);
  remove(fn);
}
static void pars(int n1, int n2, int n3, int bc)
{
  int d;
  int N[3]; N[0] = n1; N[1] = n2; N[2] = n3;
  openpar();
  par_seti("job", "num_domains", "%d", 1, "");
  par_seti("job", "maxout", "%d", 0, "");
  par_setd("time", "cour_no", "%.17g", 0.4, "");
  par_setd("time", "tlim", "%.17g", 1.0e10, "");
  par_seti("domain1", "level", "%d", 0, "");
  for (d = 0; d < 3; d++) {
    char k[16];
    sprintf(k, "Nx%d", d + 1); par_seti("domain1", k, "%d", N[d], "");
    sprintf(k, "x%dmin", d + 1); par_setd("domain1", k, "%.17g", X0[d], "");
    sprintf(k, "x%dmax", d + 1); par_setd("domain1", k, "%.17g", X1[d], "");
    sprintf(k, "bc_ix%d", d + 1); par_seti("domain1", k, "%d", bc, "");
    sprintf(k, "bc_ox%d", d + 1); par_seti("domain1", k, "%d", bc, "");
  }
  CourNo = 0.4;
#ifdef ISOTHERMAL
  Iso_csound = 0.9; Iso_csound2 = Iso_csound * Iso_csound;
#else
  Gamma = 1.4; Gamma_1 = Gamma - 1.0; Gamma_2 = Gamma - 2.0;
#endif
  ath_log_set_level(-1, -1);
}

/* random state: amplitude amp around a background; faces periodic; cell-centred B = face average */
static void random_state(DomainS *pD, double amp, int periodic)
{
  GridS *pG = pD->Grid;
  int i, j, k, n;
  int is = pG->is, ie = pG->ie, js = pG->js, je = pG->je, ks = pG->ks, ke = pG->ke;
  double v0[3], b0[3];
  for (n = 0; n < 3; n++) { v0[n] = sym(0.6); b0[n] = sym(0.8); }
#ifdef MHD
  for (k = ks; k <= ke + (ke > ks); k++) for (j = js; j <= je + (je > js); j++) for (i = is; i <= ie + 1; i++) {
    pG->B1i[k][j][i] = b0[0] + sym(amp); pG->B2i[k][j][i] = b0[1] + sym(amp); pG->B3i[k][j][i] = b0[2] + sym(amp);
  }
  if (periodic) {
    for (k = ks; k <= ke; k++) for (j = js; j <= je; j++) pG->B1i[k][j][ie+1] = pG->B1i[k][j][is];
    if (je > js) for (k = ks; k <= ke; k++) for (i = is; i <= ie; i++) pG->B2i[k][je+1][i] = pG->B2i[k][js][i];
    if (ke > ks) for (j = js; j <= je; j++) for (i = is; i <= ie; i++) pG->B3i[ke+1][j][i] = pG->B3i[ks][j][i];
  }
  if (ie > is && je == js) { double b = b0[0]; for (i = is; i <= ie + 1; i++) pG->B1i[ks][js][i] = b; }
#endif
  for (k = ks; k <= ke; k++) for (j = js; j <= je; j++) for (i = is; i <= ie; i++) {
    ConsS *u = &pG->U[k][j][i];
    double v[3], p, e;
    u->d = 1.0 + amp * urand();
    for (n = 0; n < 3; n++) v[n] = v0[n] + sym(amp);
    p = 0.7 + amp * urand();
#ifdef SPECIAL_RELATIVITY
    {
      PrimS W;
      memset(&W, 0, sizeof(W));
      W.d = u->d; W.V1 = 0.5 * v[0]; W.V2 = 0.5 * v[1]; W.V3 = 0.5 * v[2];
#ifndef BAROTROPIC
      W.P = p;
#endif
#ifdef MHD
      W.B1c = 0.5 * (pG->B1i[k][j][i] + pG->B1i[k][j][i+1]);
      W.B2c = je > js ? 0.5 * (pG->B2i[k][j][i] + pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
      W.B3c = ke > ks ? 0.5 * (pG->B3i[k][j][i] + pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
#endif
      *u = Prim_to_Cons(&W);
    }
#else
    u->M1 = u->d * v[0]; u->M2 = u->d * v[1]; u->M3 = u->d * v[2];
    e = p / 0.4 + 0.5 * u->d * (v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
#ifdef MHD
    u->B1c = 0.5 * (pG->B1i[k][j][i] + pG->B1i[k][j][i+1]);
    u->B2c = je > js ? 0.5 * (pG->B2i[k][j][i] + pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
    u->B3c = ke > ks ? 0.5 * (pG->B3i[k][j][i] + pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
    e += 0.5 * (SQR(u->B1c) + SQR(u->B2c) + SQR(u->B3c));
#endif
#ifndef BAROTROPIC
    u->E = e;
#endif
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) u->s[n] = u->d * urand();
#endif
  }
}
#define NCONS ((int)(sizeof(ConsS)/sizeof(Real)))
