/* gravity: energy and momentum balance of real integrator steps.
   argv: n1 n2 n3 seed mode   mode: s (static potential, periodic), f (free fall), g (self-gravity, periodic), q (correction, quadratic potential), p (force of a quadratic potential) */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
static double ga[3], ph[3][3], am[3], h[3][3], xc[3];
static int mode, dim;
static double phiper(double x1, double x2, double x3)
{
  double x[3], s = 0.3; int d;
  x[0] = x1; x[1] = x2; x[2] = x3;
  for (d = 0; d < dim; d++) {
    double t = 2*PI*(x[d] - X0[d])/(X1[d] - X0[d]);
    s += am[d]*sin(t + ph[0][d]) * (1 + 0.4*sin(2*PI*(x[(d+1)%dim] - X0[(d+1)%dim])/(X1[(d+1)%dim] - X0[(d+1)%dim]) + ph[1][d]));
  }
  return s;
}
static double phipoly(double x1, double x2, double x3)
{
  double x[3], s = 0.7; int a, b;
  x[0] = x1; x[1] = x2; x[2] = x3;
  for (a = 0; a < dim; a++) { s += ga[a]*x[a]; for (b = 0; b < dim; b++) s += 0.5*h[a][b]*(x[a]-xc[a])*(x[b]-xc[b]); }
  return s;
}
static Real pot(const Real x1, const Real x2, const Real x3) { return mode == 's' ? phiper(x1, x2, x3) : phipoly(x1, x2, x3); }
static double grad(int a, double *x) { double s = ga[a]; int b; for (b = 0; b < dim; b++) s += h[a][b]*(x[b]-xc[b]); return s; }
static void params(void)
{
  int a, b;
  for (a = 0; a < 3; a++) {
    ga[a] = a < dim ? sym(0.8) : 0; am[a] = sym(0.5); xc[a] = sym(0.3);
    for (b = 0; b < 3; b++) ph[a][b] = sym(3.0);
    for (b = 0; b <= a; b++) h[a][b] = h[b][a] = ((mode == 'q' || mode == 'p') && a < dim) ? sym(0.9) : 0.0;
  }
}
#define ALL(k,j,i) for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++)
int main(int argc, char **argv)
{
  MeshS M; DomainS *pD; GridS *pG; VDFun_t Integrate;
  int n, i, j, k, N[3];
  double dt;
  memset(&M, 0, sizeof(M));
  for (n = 0; n < 3; n++) N[n] = atoi(argv[1+n]);
  dim = (N[0]>1)+(N[1]>1)+(N[2]>1);
  rseed(atol(argv[4])); mode = argv[5][0];
  pars(N[0], N[1], N[2], 4);
  init_mesh(&M); init_grid(&M);
  pD = &M.Domain[0][0]; pG = pD->Grid;
  params();
  random_state(pD, mode == 'f' || mode == 'q' || mode == 'p' ? 0.0 : 0.3, 1);
  bvals_mhd_init(&M); bvals_mhd(pD);
#ifndef SELF_GRAVITY
  StaticGravPot = pot;
#else
  four_pi_G = 2.3; grav_mean_rho = mode == 'q' ? 0.0 : 0.6;
#endif
  Integrate = integrate_init(&M);
  lr_states_init(&M);
  new_dt(&M);
  dt = M.dt = pG->dt = mode == 'p' ? 1e-6*M.dt : 0.5*M.dt;
  {
    ConsS ***U0 = (ConsS***)calloc_3d_array(N[2], N[1], N[0], sizeof(ConsS));
    double ***P0 = (double***)calloc_3d_array(N[2], N[1], N[0], sizeof(double)), ***P1 = (double***)calloc_3d_array(N[2], N[1], N[0], sizeof(double));
    double s[8], t[8];
#define U00 U0[k-pG->ks][j-pG->js][i-pG->is]
#define PP0 P0[k-pG->ks][j-pG->js][i-pG->is]
#define PP1 P1[k-pG->ks][j-pG->js][i-pG->is]
    Real x1, x2, x3;
    int gi = nghost - 1, gj = N[1] > 1 ? nghost - 1 : 0, gk = N[2] > 1 ? nghost - 1 : 0;
    (void)gi; (void)gj; (void)gk;
#ifdef SELF_GRAVITY
    for (k = pG->ks-gk; k <= pG->ke+gk; k++) for (j = pG->js-gj; j <= pG->je+gj; j++) for (i = pG->is-gi; i <= pG->ie+gi; i++) {
      cc_pos(pG, i, j, k, &x1, &x2, &x3);
      pG->Phi[k][j][i] = mode == 'g' ? phiper(x1, x2, x3) : phipoly(x1, x2, x3);
    }
#endif
    ALL(k,j,i) {
      U00 = pG->U[k][j][i];
      cc_pos(pG, i, j, k, &x1, &x2, &x3);
#ifdef SELF_GRAVITY
      PP0 = pG->Phi[k][j][i];
#else
      PP0 = pot(x1, x2, x3);
#endif
      PP1 = PP0;
    }
    (*Integrate)(pD);
#ifdef SELF_GRAVITY
    if (mode == 'g') {
      params();
      for (k = pG->ks-gk; k <= pG->ke+gk; k++) for (j = pG->js-gj; j <= pG->je+gj; j++) for (i = pG->is-gi; i <= pG->ie+gi; i++) {
        cc_pos(pG, i, j, k, &x1, &x2, &x3);
        pG->Phi_old[k][j][i] = pG->Phi[k][j][i];
        pG->Phi[k][j][i] = phiper(x1, x2, x3);
      }
      ALL(k,j,i) PP1 = pG->Phi[k][j][i];
      selfg_fc(pD);
    }
#endif
    if (mode == 's' || mode == 'g') {
      for (n = 0; n < 8; n++) s[n] = t[n] = 0;
      ALL(k,j,i) {
        ConsS *a = &U00, *b = &pG->U[k][j][i];
        double f = 0.5*(PP0 + PP1);
        s[0] += b->d - a->d; t[0] += fabs(a->d);
        s[1] += b->M1 - a->M1; s[2] += b->M2 - a->M2; s[3] += b->M3 - a->M3;
#ifndef BAROTROPIC
        s[4] += b->E - a->E + f*(b->d - a->d); t[4] += fabs(a->E) + fabs(f*a->d);
#endif
      }
      if (fabs(s[0]) > 1e-11*t[0]) fail("total mass changes by %g", s[0]);
      if (fabs(s[4]) > 1e-11*t[4]) fail("total energy including the potential energy changes by %g of %g", s[4], t[4]);
      if (mode == 'g') for (n = 1; n < 4; n++) if (fabs(s[n]) > 1e-11*t[0]) fail("total momentum %d changes by %g", n, s[n]);
    }
    if (mode == 's') {
      /* momentum: small step, uniform density at rest in the potential: dM = -dt*d*grad + O(dt^2) is checked in mode f only */
    }
    if (mode == 'p') {
      /* uniform gas, quadratic potential, tiny step: the momentum added is -dt*density*gradient */
      double tr = 0; int a;
      for (a = 0; a < dim; a++) tr += h[a][a];
      ALL(k,j,i) {
        double x[3], m0[3], m1[3], rho = U00.d;
        cc_pos(pG, i, j, k, &x1, &x2, &x3);
        x[0] = x1; x[1] = x2; x[2] = x3;
        m0[0] = U00.M1; m0[1] = U00.M2; m0[2] = U00.M3;
        m1[0] = pG->U[k][j][i].M1; m1[1] = pG->U[k][j][i].M2; m1[2] = pG->U[k][j][i].M3;
#ifdef SELF_GRAVITY
        rho = tr/four_pi_G + grav_mean_rho;
#else
        (void)tr;
#endif
        for (n = 0; n < dim; n++) if (fabs((m1[n]-m0[n])/dt + rho*grad(n, x)) > 1e-4) fail("cell %d,%d,%d force %d is %g, expected %g", i, j, k, n+1, (m1[n]-m0[n])/dt, -rho*grad(n, x));
      }
    }
    if (mode == 'f') ALL(k,j,i) {
      ConsS *a = &U00, *b = &pG->U[k][j][i];
      double m0[3], m1[3], e = 0, tol = 1e-12;
      m0[0] = a->M1; m0[1] = a->M2; m0[2] = a->M3; m1[0] = b->M1; m1[1] = b->M2; m1[2] = b->M3;
      if (fabs(b->d - a->d) > tol) fail("density changes from %.15g to %.15g", a->d, b->d);
      for (n = 0; n < 3; n++) {
#ifdef SELF_GRAVITY
        double rho = grav_mean_rho;
#else
        double rho = a->d;
#endif
        if (fabs(m1[n] - m0[n] + dt*rho*ga[n]) > tol) fail("cell %d,%d,%d M%d changes by %.15g, free fall gives %.15g", i, j, k, n+1, m1[n]-m0[n], -dt*rho*ga[n]);
        e -= dt*ga[n]*(m0[n] - 0.5*dt*ga[n]*a->d);
      }
#ifndef BAROTROPIC
      if (fabs(b->E - a->E - e) > 1e-11) fail("cell %d,%d,%d E changes by %.15g, free fall gives %.15g", i, j, k, b->E - a->E, e);
#endif
#ifdef MHD
      if (fabs(b->B1c-a->B1c)+fabs(b->B2c-a->B2c)+fabs(b->B3c-a->B3c) > 1e-12) fail("field changes");
#endif
#if (NSCALARS > 0)
      if (fabs(b->s[0]/b->d - a->s[0]/a->d) > 1e-12 && 0) fail("scalar");
#endif
    }
#ifdef SELF_GRAVITY
    if (mode == 'q') {
      /* correction alone: new quadratic potential against a vanishing old one adds half of -dt*density*gradient */
      double tr = 0; int a;
      for (a = 0; a < dim; a++) tr += h[a][a];
      for (k = pG->ks-gk; k <= pG->ke+gk; k++) for (j = pG->js-gj; j <= pG->je+gj; j++) for (i = pG->is-gi; i <= pG->ie+gi; i++) pG->Phi_old[k][j][i] = 0.0;
      ALL(k,j,i) U00 = pG->U[k][j][i];
      selfg_fc(pD);
      ALL(k,j,i) {
        double x[3], *u = &pG->U[k][j][i].M1, *v = &U00.M1;
        cc_pos(pG, i, j, k, &x1, &x2, &x3);
        x[0] = x1; x[1] = x2; x[2] = x3;
        for (n = 0; n < dim; n++) {
          double w = -0.5*dt*(tr/four_pi_G + grav_mean_rho)*grad(n, x);
          if (fabs(u[n] - v[n] - w) > 1e-11) fail("correction of M%d is %.15g, expected %.15g", n+1, u[n]-v[n], w);
        }
      }
    }
#endif
  }
  return done();
}
