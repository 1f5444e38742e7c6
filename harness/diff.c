/* explicit diffusion: argv: n1 n2 n3 seed mode    c: conservation (periodic, random data)   v: magnitude on polynomial data */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
#include "diffstep.h"
static int dim;
static double q0[8], q1[8][3], q2[8][3][3];      /* fields: 0 d, 1-3 v, 4 T, 5-7 B */
static double fval(int f, const double *x) { double s = q0[f]; int a, b; for (a = 0; a < dim; a++) { s += q1[f][a]*x[a]; for (b = 0; b < dim; b++) s += 0.5*q2[f][a][b]*x[a]*x[b]; } return s; }
static double fd(int f, const double *x, int a) { double s = q1[f][a]; int b; for (b = 0; b < dim; b++) s += q2[f][a][b]*x[b]; return a < dim ? s : 0.0; }
static void field(int f, double c, int order, double amp)
{
  int a, b;
  q0[f] = c;
  for (a = 0; a < 3; a++) { q1[f][a] = order > 0 && a < dim ? sym(amp) : 0; for (b = 0; b <= a; b++) q2[f][a][b] = q2[f][b][a] = order > 1 && a < dim ? sym(amp) : 0; }
}
#define ALL(k,j,i) for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++)
#define GHOST(k,j,i) for (k = pG->ks-g3; k <= pG->ke+g3; k++) for (j = pG->js-g2; j <= pG->je+g2; j++) for (i = pG->is-nghost; i <= pG->ie+nghost; i++)
static void jcur(const double *x, double *J)
{
  J[0] = fd(7, x, 1) - fd(6, x, 2); J[1] = fd(5, x, 2) - fd(7, x, 0); J[2] = fd(6, x, 0) - fd(5, x, 1);
}
static double lap(int f) { return q2[f][0][0] + q2[f][1][1] + q2[f][2][2]; }
#ifdef RESISTIVITY
static double adE(int n, const double *x)
{
  double J[3], b[3], bb = 0, jb = 0; int a;
  jcur(x, J);
  for (a = 0; a < 3; a++) { b[a] = fval(5+a, x); bb += b[a]*b[a]; jb += J[a]*b[a]; }
  return Q_AD*(J[n] - jb*b[n]/bb);
}
#endif
int main(int argc, char **argv)
{
  static MeshS M; DomainS *pD; GridS *pG;
  int n, i, j, k, a, b, N[3], mode, g2, g3;
  double dt = 1e-5;
  for (n = 0; n < 3; n++) N[n] = atoi(argv[1+n]);
  dim = (N[0]>1)+(N[1]>1)+(N[2]>1);
  g2 = N[1] > 1 ? nghost : 0; g3 = N[2] > 1 ? nghost : 0;
  rseed(atol(argv[4])); mode = argv[5][0];
  pars(N[0], N[1], N[2], 4);
  init_mesh(&M); init_grid(&M);
  pD = &M.Domain[0][0]; pG = pD->Grid;
  random_state(pD, 0.4, 1);
  bvals_mhd_init(&M); bvals_mhd(pD);
  {
    ConsS ***U0 = (ConsS***)calloc_3d_array(N[2], N[1], N[0], sizeof(ConsS));
    double ***D0 = (double***)calloc_3d_array(N[2], N[1], N[0], sizeof(double));
#define U00 U0[k-pG->ks][j-pG->js][i-pG->is]
#define DD0 D0[k-pG->ks][j-pG->js][i-pG->is]
#ifdef MHD
#define DIVB ((pG->B1i[k][j][i+1]-pG->B1i[k][j][i])/pG->dx1 + (dim > 1 ? (pG->B2i[k][j+1][i]-pG->B2i[k][j][i])/pG->dx2 : 0) + (dim > 2 ? (pG->B3i[k+1][j][i]-pG->B3i[k][j][i])/pG->dx3 : 0))
#else
#define DIVB 0.0
#endif
    if (mode == 'c') {
      double s[32];
      ALL(k,j,i) { U00 = pG->U[k][j][i]; DD0 = DIVB; }
      diffstep(&M, dt);
      for (n = 0; n < NCONS; n++) {
        s[n] = 0;
        ALL(k,j,i) s[n] += ((double*)&pG->U[k][j][i])[n] - ((double*)&U00)[n];
        if (fabs(s[n]) > 1e-11) fail("total of component %d changes by %g", n, s[n]);
      }
      ALL(k,j,i) {
        if (pG->U[k][j][i].d != U00.d) fail("density changes");
        if (fabs(DIVB - DD0) > 1e-10) fail("divergence of B changes by %g in cell %d %d %d", DIVB - DD0, i, j, k);
#if (NSCALARS > 0)
        if (pG->U[k][j][i].s[0] != U00.s[0]) fail("scalar changes");
#endif
#ifndef VISCOSITY
        if (pG->U[k][j][i].M1 != U00.M1 || pG->U[k][j][i].M2 != U00.M2 || pG->U[k][j][i].M3 != U00.M3) fail("momentum changes");
#endif
#if defined(MHD) && !defined(RESISTIVITY)
        if (pG->U[k][j][i].B1c != U00.B1c || pG->U[k][j][i].B2c != U00.B2c || pG->U[k][j][i].B3c != U00.B3c) fail("field changes");
#endif
#ifdef RESISTIVITY
        if (fabs(pG->U[k][j][i].B1c - 0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1])) > 1e-13 && dim > 1) fail("B1c is not the face average");
        if (dim > 1 && fabs(pG->U[k][j][i].B2c - 0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i])) > 1e-13) fail("B2c is not the face average");
        if (dim > 2 && fabs(pG->U[k][j][i].B3c - 0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i])) > 1e-13) fail("B3c is not the face average");
#endif
      }
    } else {
      double x[3], h[3]; Real x1, x2, x3;
      int quad = (KIND == 1) && (atol(argv[4]) % 2 == 0);
      h[0] = pG->dx1; h[1] = pG->dx2; h[2] = pG->dx3;
      field(0, 4.0, quad ? 0 : 1, 0.9);
      for (n = 1; n < 4; n++) field(n, sym(0.8), quad ? 2 : 1, 0.8);
      field(4, 3.0, quad ? 2 : 1, 0.7);
#ifdef RESISTIVITY
      use_lin = 1;
      for (n = 5; n < 8; n++) field(n, 2.0 + sym(0.8), quad ? 2 : 1, 0.7);
      if (!quad) { eta_grad[0] = 2.0; for (a = 0; a < dim; a++) eta_grad[a+1] = sym(0.8); }
#else
      for (n = 5; n < 8; n++) field(n, 2.0 + sym(0.8), 0, 0);
#endif
      GHOST(k,j,i) {
        ConsS *u = &pG->U[k][j][i]; double d;
        cc_pos(pG, i, j, k, &x1, &x2, &x3); x[0] = x1; x[1] = x2; x[2] = x3;
        d = u->d = fval(0, x); u->M1 = d*fval(1, x); u->M2 = d*fval(2, x); u->M3 = d*fval(3, x);
#ifdef MHD
        u->B1c = fval(5, x); u->B2c = fval(6, x); u->B3c = fval(7, x);
        x[0] -= 0.5*h[0]; pG->B1i[k][j][i] = fval(5, x); x[0] += 0.5*h[0];
        if (dim > 1) x[1] -= 0.5*h[1]; pG->B2i[k][j][i] = fval(6, x); if (dim > 1) x[1] += 0.5*h[1];
        if (dim > 2) x[2] -= 0.5*h[2]; pG->B3i[k][j][i] = fval(7, x); if (dim > 2) x[2] += 0.5*h[2];
#endif
#ifndef BAROTROPIC
        u->E = d*fval(4, x)/Gamma_1 + 0.5*(SQR(u->M1)+SQR(u->M2)+SQR(u->M3))/d;
#ifdef MHD
        u->E += 0.5*(SQR(u->B1c)+SQR(u->B2c)+SQR(u->B3c));
#endif
#endif
      }
#ifdef MHD
      { double b1[3]; ConsS ***X = NULL; (void)b1; (void)X; }
#endif
      ALL(k,j,i) U00 = pG->U[k][j][i];
#ifdef MHD
      double ***F0[3], ***F1[3];
      F1[0] = pG->B1i; F1[1] = pG->B2i; F1[2] = pG->B3i;
      for (n = 0; n < 3; n++) {
        F0[n] = (double***)calloc_3d_array(N[2]+2*nghost, N[1]+2*nghost, N[0]+2*nghost, sizeof(double));
        ALL(k,j,i) F0[n][k][j][i] = F1[n][k][j][i];
      }
#endif
      diffstep(&M, dt);
      ALL(k,j,i) {
        ConsS *u = &pG->U[k][j][i], *w = &U00;
        double dm[3], wm[3], we = 0, de = 0, div = 0, tol = 1e-6;
        cc_pos(pG, i, j, k, &x1, &x2, &x3); x[0] = x1; x[1] = x2; x[2] = x3;
        dm[0] = (u->M1-w->M1)/dt; dm[1] = (u->M2-w->M2)/dt; dm[2] = (u->M3-w->M3)/dt;
#ifndef BAROTROPIC
        de = (u->E - w->E)/dt;
#endif
        wm[0] = wm[1] = wm[2] = 0; (void)div; (void)we; (void)de; (void)b;
#ifdef VISCOSITY
        if (quad) {
          for (n = 0; n < 3; n++) { wm[n] = lap(n+1); if (n < dim) for (a = 0; a < 3; a++) wm[n] += q2[a+1][n][a]/3; wm[n] *= nu_iso*q0[0]; }
        } else {
          double bh[3], bb = 0, qa = 0, t;
          for (a = 0; a < 3; a++) { bh[a] = q0[5+a]; bb += bh[a]*bh[a]; div += q1[a+1][a]; }
          for (a = 0; a < 3; a++) bh[a] /= sqrt(bb);
          for (a = 0; a < dim; a++) for (n = 0; n < 3; n++) qa += bh[a]*bh[n]*q1[n+1][a];
          qa -= div/3;
          for (a = 0; a < dim; a++) for (n = 0; n < 3; n++) {
            t = nu_iso*(q1[n+1][a] + (n < dim ? q1[a+1][n] : 0) - (a == n ? 2*div/3 : 0));
#ifdef MHD
            if (dim > 1) t += nu_aniso*qa*(3*bh[a]*bh[n] - (a == n));
#endif
            wm[n] += q1[0][a]*t;
            we += t*(q1[0][a]*fval(n+1, x) + fval(0, x)*q1[n+1][a]);
          }
        }
        for (n = 0; n < 3; n++) if (fabs(dm[n]-wm[n]) > tol) fail("cell %d %d %d: rate of change of M%d is %.10g, expected %.10g", i, j, k, n+1, dm[n], wm[n]);
#ifndef BAROTROPIC
        if (!quad && fabs(de-we) > tol) fail("cell %d %d %d: rate of change of E is %.10g, expected %.10g", i, j, k, de, we);
#endif
#endif
#ifdef THERMAL_CONDUCTION
        if (quad) we = kappa_iso*q0[0]*lap(4);
        else {
          double bb = 0, bt = 0, bd = 0;
          for (a = 0; a < 3; a++) { we += kappa_iso*q1[0][a]*q1[4][a]; bb += q0[5+a]*q0[5+a]; bt += q0[5+a]*q1[4][a]; bd += q0[5+a]*q1[0][a]; }
#ifdef MHD
          if (dim > 1) we += kappa_aniso*bt*bd/bb;
#endif
        }
        if (fabs(de-we) > tol) fail("cell %d %d %d: rate of change of E is %.10g, expected %.10g", i, j, k, de, we);
#endif
#ifdef RESISTIVITY
        {
          double J[3], y[3], r, wb, db, dvb; int p, q, s;
          jcur(x, J);
          for (n = 0; n < 3; n++) {
            if (n < dim) db = (F1[n][k][j][i] - F0[n][k][j][i])/dt;
            else db = n == 1 ? (u->B2c - w->B2c)/dt : (u->B3c - w->B3c)/dt;
            p = (n+1)%3; q = (n+2)%3;
            if (quad) { wb = lap(5+n); for (a = 0; a < 3; a++) wb -= n < dim ? q2[5+a][n][a] : 0; wb *= eta_Ohm; }
            else {
              wb = -eta_Ohm*(eta_grad[p+1]*J[q] - eta_grad[q+1]*J[p]);
              dvb = q1[5][0]+q1[6][1]+q1[7][2];
              wb -= Q_Hall*J[n]*dvb; for (a = 0; a < 3; a++) wb += Q_Hall*J[a]*q1[5+n][a];
              for (s = -1; s < 2; s += 2) {
                if (p < dim && Q_AD > 0) { for (a = 0; a < 3; a++) y[a] = x[a]; if (n < dim) y[n] -= 0.5*h[n]; y[p] += 0.5*s*h[p]; wb -= s*adE(q, y)/h[p]; }
                if (q < dim && Q_AD > 0) { for (a = 0; a < 3; a++) y[a] = x[a]; if (n < dim) y[n] -= 0.5*h[n]; y[q] += 0.5*s*h[q]; wb += s*adE(p, y)/h[q]; }
              }
            }
            if (fabs(db-wb) > (HALL ? 1e-3 : tol)) fail("cell %d %d %d: rate of change of B%d is %.10g, expected %.10g", i, j, k, n+1, db, wb);
          }
          if (!quad && KIND == 1 && !HALL) {
            r = eta_grad[0]; for (a = 0; a < 3; a++) r += eta_grad[a+1]*x[a];
            we = 0;
            for (n = 0; n < 3; n++) { p = (n+1)%3; q = (n+2)%3; we += eta_Ohm*(r*J[n]*J[n] + eta_grad[n+1]*(fval(5+p, x)*J[q] - fval(5+q, x)*J[p])); }
#ifndef BAROTROPIC
            if (fabs(de-we) > tol) fail("cell %d %d %d: rate of change of E is %.10g, expected %.10g", i, j, k, de, we);
#endif
          }
        }
#endif
      }
    }
  }
  return done();
}
