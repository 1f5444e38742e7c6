/* time-step selection: new_dt() on random states.  argv: n1 n2 n3 seed levels */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
static double spd[3], rate[3];
static void grid_rates(GridS *g)
{
  int i, j, k, d;
  for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
    ConsS *u = &g->U[k][j][i];
    double v[3], dx[3];
    v[0] = u->M1 / u->d; v[1] = u->M2 / u->d; v[2] = u->M3 / u->d;
    dx[0] = g->dx1; dx[1] = g->dx2; dx[2] = g->dx3;
#ifdef CYLINDRICAL
    { Real x1, x2, x3; cc_pos(g, i, j, k, &x1, &x2, &x3); dx[1] *= x1; }
#endif
    for (d = 0; d < 3; d++) {
      double s, a2, q = v[0]*v[0] + v[1]*v[1] + v[2]*v[2];
      if (g->Nx[d] == 1) continue;
#ifdef SPECIAL_RELATIVITY
      s = 1.0; (void)a2; (void)q;
#else
#ifdef MHD
      double b[3], b2;
      b[0] = fabs(u->B1c) + fabs(g->B1i[k][j][i] - u->B1c);
      b[1] = fabs(u->B2c) + fabs(g->B2i[k][j][i] - u->B2c);
      b[2] = fabs(u->B3c) + fabs(g->B3i[k][j][i] - u->B3c);
      b2 = b[0]*b[0] + b[1]*b[1] + b[2]*b[2];
#endif
#ifdef ISOTHERMAL
      a2 = Iso_csound2;
#else
      {
        double p = u->E - 0.5 * u->d * q;
#ifdef MHD
        p -= 0.5 * b2;
#endif
        p *= Gamma - 1.0; if (p < TINY_NUMBER) p = TINY_NUMBER;
        a2 = Gamma * p / u->d;
      }
#endif
#ifdef MHD
      { double c2 = b2 / u->d + a2; s = 0.5 * (c2 + sqrt(fmax(0.0, c2*c2 - 4.0 * a2 * b[d]*b[d] / u->d))); }
#else
      s = a2;
#endif
      s = fabs(v[d]) + sqrt(s);
#endif
      spd[d] = fmax(spd[d], s); rate[d] = fmax(rate[d], s / dx[d]);
    }
  }
#ifdef PARTICLES
  { long q;
    for (q = 0; q < g->nparticle; q++) {
      double v[3]; v[0] = g->particle[q].v1; v[1] = g->particle[q].v2; v[2] = g->particle[q].v3;
      for (d = 0; d < 3; d++) if (g->Nx[d] > 1) rate[d] = fmax(rate[d], fabs(v[d]) / (d == 0 ? g->dx1 : d == 1 ? g->dx2 : g->dx3));
    } }
#endif
}
static double expect(MeshS *M, double *lowest)
{
  int nl, nd, d; double r = 0.0, m[3], rl = 0.0;
  memset(spd, 0, sizeof(spd)); memset(rate, 0, sizeof(rate));
  for (nl = 0; nl < M->NLevels; nl++) for (nd = 0; nd < M->DomainsPerLevel[nl]; nd++) if (M->Domain[nl][nd].Grid) grid_rates(M->Domain[nl][nd].Grid);
  for (d = 0; d < 3; d++) r = fmax(r, rate[d]);
  m[0] = M->dx[0]; m[1] = M->dx[1]; m[2] = M->dx[2];
  for (d = 0; d < 3; d++) rl = fmax(rl, fmax(rate[d], spd[d] / (m[d] / (1 << (M->NLevels - 1)))));
  *lowest = CourNo / rl;
  return CourNo / r;
}
int main(int argc, char **argv)
{
  MeshS M; int N[3], n, nl, nd, it, lev, d; double lo;
  memset(&M, 0, sizeof(M));
  for (n = 0; n < 3; n++) N[n] = atoi(argv[1+n]);
  rseed(atol(argv[4])); lev = atoi(argv[5]);
#ifdef CYLINDRICAL
  X0[0] = 1.0; X1[0] = 2.0;
#endif
  pars(N[0], N[1], N[2], 4);
  if (lev > 1) {
    par_seti("job", "num_domains", "%d", 2, "");
    par_seti("domain2", "level", "%d", 1, "");
    for (d = 0; d < 3; d++) {
      char k[16];
      sprintf(k, "Nx%d", d + 1); par_seti("domain2", k, "%d", N[d] > 1 ? N[d] : 1, "");
      sprintf(k, "iDisp"); k[0] = "ijk"[d]; par_seti("domain2", k, "%d", N[d] > 1 ? N[d] / 2 : 0, "");
    }
  }
  init_mesh(&M); init_grid(&M);
  if (M.NLevels != lev) { printf("setup: %d levels\n", M.NLevels); return 2; }
#ifndef SPECIAL_RELATIVITY
  for (it = 0; it < 12; it++) {
    double e, old, t, amp = it < 6 ? 0.3 : 0.05;
    for (nl = 0; nl < M.NLevels; nl++) for (nd = 0; nd < M.DomainsPerLevel[nl]; nd++) {
      GridS *g = M.Domain[nl][nd].Grid;
      if (!g) continue;
      random_state(&M.Domain[nl][nd], amp, 0);
      { int w = (int)(urand() * 4), i, j, k;   /* one fast cell somewhere, sometimes the last or first one */
        i = w == 0 ? g->is : w == 1 ? g->ie : g->is + (int)(urand() * g->Nx[0]);
        j = w == 0 ? g->js : w == 1 ? g->je : g->js + (int)(urand() * g->Nx[1]);
        k = w == 0 ? g->ks : w == 1 ? g->ke : g->ks + (int)(urand() * g->Nx[2]);
        ConsS *u = &g->U[k][j][i]; double f = 3.0 * sym(1.0);
        d = (int)(urand() * 3);
#ifndef BAROTROPIC
        u->E -= 0.5 * (u->M1*u->M1 + u->M2*u->M2 + u->M3*u->M3) / u->d;
#endif
        if (d == 0) u->M1 = u->d * f; if (d == 1) u->M2 = u->d * f; if (d == 2) u->M3 = u->d * f;
#ifndef BAROTROPIC
        u->E += 0.5 * (u->M1*u->M1 + u->M2*u->M2 + u->M3*u->M3) / u->d;
        if (it % 3 == 2) u->E += 8.0;
#endif
      }
#ifdef PARTICLES
      { long q;
        g->nparticle = 5;
        if (g->particle == NULL) g->particle = (GrainS *)calloc(64, sizeof(GrainS));
        for (q = 0; q < 5; q++) { g->particle[q].v1 = sym(it % 2 ? 6.0 : 1.0); g->particle[q].v2 = sym(it % 2 ? 6.0 : 1.0); g->particle[q].v3 = sym(it % 2 ? 6.0 : 1.0); }
      }
#endif
    }
    e = expect(&M, &lo);
#define CHK(what, want) do { double w_ = (want); if (lev == 1 ? fabs(M.dt - w_) > 1e-11 * w_ : (M.dt > w_ * (1 + 1e-11))) fail("%s: dt=%.15g expected %.15g (run %d)", what, M.dt, w_, it); } while (0)
    M.nstep = 0; M.time = 0.0; M.dt = 1e-30; new_dt(&M); CHK("first step", e);
    if (M.dt < lo * (1 - 1e-11)) fail("dt=%.15g below %.15g, the limit of the fastest signal on the finest cell", M.dt, lo);
    M.nstep = 7; M.dt = e * (2.0 + urand()); new_dt(&M); CHK("later step, not limited by growth", e);
    old = e * 0.4 * urand(); M.dt = old; new_dt(&M);
    if (fabs(M.dt - 2 * old) > 1e-11 * old && (lev == 1 || M.dt > 2*old)) fail("growth limit: dt=%.15g expected %.15g", M.dt, 2 * old);
    t = 1.0e10; par_setd("time", "tlim", "%.17g", 1.0, ""); M.time = 1.0 - 0.3 * lo; M.dt = e; new_dt(&M);
    if (fabs(M.time + M.dt - 1.0) > 1e-12) fail("does not land on tlim: time+dt-tlim = %.5g", M.time + M.dt - 1.0);
    M.time = 1.0 - 1.7 * e; M.dt = e; new_dt(&M); CHK("tlim not within reach", e);
    if (M.time + M.dt > 1.0 + 1e-12) fail("overshoots tlim");
    par_setd("time", "tlim", "%.17g", t, "");
    M.time = 0.0; M.dt = e; new_dt(&M);
    for (nl = 0; nl < M.NLevels; nl++) for (nd = 0; nd < M.DomainsPerLevel[nl]; nd++) if (M.Domain[nl][nd].Grid && M.Domain[nl][nd].Grid->dt != M.dt) fail("Grid on level %d has dt %.15g, Mesh %.15g", nl, M.Domain[nl][nd].Grid->dt, M.dt);
#if defined(MHD) && !defined(CYLINDRICAL)
    if (lev == 1) {   /* reversing every field component and velocity must not change the step */
      GridS *g = M.Domain[0][0].Grid; int i, j, k; double a = M.dt;
      for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
        ConsS *u = &g->U[k][j][i];
        u->M1 = -u->M1; u->M2 = -u->M2; u->M3 = -u->M3; u->B1c = -u->B1c; u->B2c = -u->B2c; u->B3c = -u->B3c;
        g->B1i[k][j][i] *= -1; g->B2i[k][j][i] *= -1; g->B3i[k][j][i] *= -1;
      }
      M.dt = a; new_dt(&M);
      if (fabs(M.dt - a) > 1e-12 * a) fail("reversed field and velocity: dt=%.15g instead of %.15g", M.dt, a);
    }
#endif
  }
#else
  { double e = expect(&M, &lo);
    M.nstep = 0; M.time = 0.0; new_dt(&M);
    if (fabs(M.dt - e) > 1e-11 * e && lev == 1) fail("dt=%.15g expected %.15g", M.dt, e);
    M.nstep = 3; M.dt = 0.1 * e; new_dt(&M);
    if (fabs(M.dt - 0.2 * e) > 1e-11 * e) fail("growth: dt=%.15g expected %.15g", M.dt, 0.2 * e);
  }
#endif
  return done();
}
