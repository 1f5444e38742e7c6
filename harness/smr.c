/* nested grids: argv: seed nsteps mode n1 n2 n3 [L,N1,N2,N3,d1,d2,d3]...
   mode 0: smooth random periodic data, totals/div B/restriction/prolongation checked every step;  1: uniform state stays uniform */
#include <unistd.h>
#include <stddef.h>
#include <stdarg.h>
#include "ath.h"
#define NCONS ((int)(sizeof(ConsS)/sizeof(Real)))
#ifdef MHD
#define NB ((int)(offsetof(ConsS, B1c)/sizeof(Real)))
#endif
static MeshS M;
static int dim, mode;
#define EACH for (nl = 0; nl < M.NLevels; nl++) for (nd = 0; nd < M.DomainsPerLevel[nl]; nd++) if ((pG = M.Domain[nl][nd].Grid) != NULL)
#define CELLS for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++)
static double ca[16][8];
static double wave(int f, const double *x)      /* periodic smooth function number f */
{
  double s = 0; int n, a; static const int m[4][3] = {{1,0,0},{0,1,0},{0,0,1},{1,1,1}};
  for (n = 0; n < 4; n++) {
    double ph = 0; for (a = 0; a < dim; a++) ph += m[n][a]*2*PI*(x[a]-X0[a])/(X1[a]-X0[a]);
    s += ca[f][n]*sin(ph + ca[f][n+4]);
  }
  return mode ? ca[f][0] : s;
}
static void cpos(GridS *g, int i, int j, int k, double *x) { Real a, b, c; cc_pos(g, i, j, k, &a, &b, &c); x[0] = a; x[1] = b; x[2] = c; }
#ifdef MHD
/* vector potential components constant along their own edge: line integrals are exact on every level */
static double pot(int n, GridS *g, int i, int j, int k)
{
  double x[3]; cpos(g, i, j, k, x);
  int a; for (a = 0; a < dim; a++) if (a != n) x[a] -= 0.5*(a == 0 ? g->dx1 : a == 1 ? g->dx2 : g->dx3);
  x[n] = X0[n];
  return wave(8+n, x);
}
static double divb(GridS *g, int i, int j, int k)
{
  double d = (g->B1i[k][j][i+1]-g->B1i[k][j][i])/g->dx1;
  if (dim > 1) d += (g->B2i[k][j+1][i]-g->B2i[k][j][i])/g->dx2;
  if (dim > 2) d += (g->B3i[k+1][j][i]-g->B3i[k][j][i])/g->dx3;
  return d;
}
#endif
static void setup(GridS *pG)
{
  int i, j, k, n; double x[3];
#ifdef MHD
  for (k = pG->ks; k <= pG->ke + (dim > 2); k++) for (j = pG->js; j <= pG->je + (dim > 1); j++) for (i = pG->is; i <= pG->ie+1; i++) {
    double a[3][4];     /* A_n here, and at +1 along 1,2,3 */
    for (n = 0; n < 3; n++) {
      a[n][0] = pot(n, pG, i, j, k); a[n][1] = pot(n, pG, i+1, j, k);
      a[n][2] = dim > 1 ? pot(n, pG, i, j+1, k) : a[n][0]; a[n][3] = dim > 2 ? pot(n, pG, i, j, k+1) : a[n][0];
    }
    pG->B1i[k][j][i] = ca[11][0] + (a[2][2]-a[2][0])/pG->dx2 - (a[1][3]-a[1][0])/pG->dx3;
    pG->B2i[k][j][i] = ca[11][1] + (a[0][3]-a[0][0])/pG->dx3 - (a[2][1]-a[2][0])/pG->dx1;
    pG->B3i[k][j][i] = ca[11][2] + (a[1][1]-a[1][0])/pG->dx1 - (a[0][2]-a[0][0])/pG->dx2;
  }
#endif
  CELLS {
    ConsS *u = &pG->U[k][j][i];
    cpos(pG, i, j, k, x);
#ifdef SPECIAL_RELATIVITY
    {
      PrimS W; memset(&W, 0, sizeof(W));
      W.d = 2 + wave(0, x); W.V1 = wave(1, x); W.V2 = wave(2, x); W.V3 = wave(3, x); W.P = 2 + wave(4, x);
#ifdef MHD
      W.B1c = 0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]);
      W.B2c = dim > 1 ? 0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
      W.B3c = dim > 2 ? 0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
#endif
      *u = Prim_to_Cons(&W);
      continue;
    }
#endif
    u->d = 2 + wave(0, x); u->M1 = u->d*wave(1, x); u->M2 = u->d*wave(2, x); u->M3 = u->d*wave(3, x);
#ifdef MHD
    u->B1c = 0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]);
    u->B2c = dim > 1 ? 0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
    u->B3c = dim > 2 ? 0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
#endif
#ifndef BAROTROPIC
    u->E = (2 + wave(4, x))/Gamma_1 + 0.5*(SQR(u->M1)+SQR(u->M2)+SQR(u->M3))/u->d;
#ifdef MHD
    u->E += 0.5*(SQR(u->B1c)+SQR(u->B2c)+SQR(u->B3c));
#endif
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) u->s[n] = u->d*(1 + wave(5+n, x));
#endif
  }
}
static void check(int it, double *tot0, double *ab)
{
  int nl, nd, i, j, k, n, l, m, nn; GridS *pG, *pF; double t[64];
  EACH {
    int *D = M.Domain[nl][nd].Disp;
    if (nl == 0) {
      for (n = 0; n < NCONS; n++) t[n] = 0;
      CELLS for (n = 0; n < NCONS; n++) { double u = ((Real*)&pG->U[k][j][i])[n]; if (u != u) { printf("NAN\n"); exit(3); } t[n] += u; if (it == 0) ab[n] += fabs(u); }
      if (it == 0) for (n = 0; n < NCONS; n++) tot0[n] = t[n];
      else for (n = 0; n < NCONS; n++) if (fabs(t[n]-tot0[n]) > 1e-11*(ab[n]+1)) fail("step %d: root-level total of component %d changed by %g (sum |u| %g)", it, n, t[n]-tot0[n], ab[n]);
    }
#ifdef MHD
    CELLS {
      ConsS *u = &pG->U[k][j][i];
      if (fabs(divb(pG, i, j, k)) > 1e-9) fail("step %d level %d domain %d cell (%d,%d,%d): div B = %g", it, nl, nd, i, j, k, divb(pG, i, j, k));
      if (dim > 1 && (fabs(u->B1c - 0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1])) > 1e-11 || fabs(u->B2c - 0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i])) > 1e-11
        || (dim > 2 && fabs(u->B3c - 0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i])) > 1e-11))) fail("step %d level %d cell (%d,%d,%d): cell-centred field is not the face average", it, nl, i, j, k);
    }
#endif
    /* restriction: coarse cells (and faces) under a finer domain hold the mean of the fine ones */
    if (nl + 1 < M.NLevels) for (nn = 0; nn < M.DomainsPerLevel[nl+1]; nn++) {
      int *E = M.Domain[nl+1][nn].Disp, *N = M.Domain[nl+1][nn].Nx;
      pF = M.Domain[nl+1][nn].Grid;
      CELLS {
        int c[3], f[3], in = 1, q[3], a; double s[64], w = dim == 1 ? 0.5 : dim == 2 ? 0.25 : 0.125;
        c[0] = i - pG->is + D[0]; c[1] = j - pG->js + D[1]; c[2] = k - pG->ks + D[2];
        for (a = 0; a < dim; a++) { f[a] = 2*c[a] - E[a]; if (f[a] < 0 || f[a] >= N[a]) in = 0; }
        if (!in) continue;
        q[0] = pF->is + f[0]; q[1] = dim > 1 ? pF->js + f[1] : pF->js; q[2] = dim > 2 ? pF->ks + f[2] : pF->ks;
        for (n = 0; n < NCONS; n++) {
          s[n] = 0;
#ifdef MHD
          if (n >= NB && n < NB+3 && (n-NB < dim) && dim > 1) continue;       /* face average instead */
#endif
          for (l = 0; l < 2; l++) for (m = 0; m <= (dim > 1); m++) for (a = 0; a <= (dim > 2); a++) s[n] += w*((Real*)&pF->U[q[2]+a][q[1]+m][q[0]+l])[n];
          if (fabs(s[n] - ((Real*)&pG->U[k][j][i])[n]) > 1e-11*(1+fabs(s[n]))) fail("step %d level %d cell (%d,%d,%d) component %d: %.15g is not the mean %.15g of the finer cells", it, nl, i, j, k, n, ((Real*)&pG->U[k][j][i])[n], s[n]);
        }
#ifdef MHD
        for (n = 0; n < dim && dim > 1; n++) for (l = 0; l < 2; l++) {        /* both faces normal to axis n */
          double b = 0, cb; int p, r, u[3];
          for (p = 0; p <= (n != 1 && dim > 1); p++) for (r = 0; r <= (n != 2 && dim > 2) ; r++) for (m = 0; m <= (n != 0); m++) {
            u[0] = q[0] + (n == 0 ? 2*l : m); u[1] = q[1] + (n == 1 ? 2*l : p); u[2] = q[2] + (n == 2 ? 2*l : r);
            b += n == 0 ? pF->B1i[u[2]][u[1]][u[0]] : n == 1 ? pF->B2i[u[2]][u[1]][u[0]] : pF->B3i[u[2]][u[1]][u[0]];
          }
          b *= dim == 2 ? 0.5 : 0.25;
          cb = n == 0 ? pG->B1i[k][j][i+l] : n == 1 ? pG->B2i[k][j+l][i] : pG->B3i[k+l][j][i];
          if (fabs(b-cb) > 1e-11*(1+fabs(b))) fail("step %d level %d cell (%d,%d,%d): face field %d = %.15g is not the mean %.15g of the finer faces", it, nl, i, j, k, n+1, cb, b);
        }
#endif
      }
    }
  }
}
/* ghost zones of finer grids after Prolongate: means equal the coarse value, div B as in the coarse cell (zero) */
static void ghosts(int it)
{
  int nl, nd, i, j, k, n, l, m, a; GridS *pG, *pC;
  EACH if (nl > 0) {
    int *D = M.Domain[nl][nd].Disp, nn, g2 = dim > 1 ? nghost : 0, g3 = dim > 2 ? nghost : 0;
    for (nn = 0; nn < M.DomainsPerLevel[nl-1]; nn++) {
      int *E = M.Domain[nl-1][nn].Disp, *N = M.Domain[nl-1][nn].Nx;
      pC = M.Domain[nl-1][nn].Grid;
      for (k = pG->ks-g3; k <= pG->ke+g3; k += dim > 2 ? 2 : 1) for (j = pG->js-g2; j <= pG->je+g2; j += dim > 1 ? 2 : 1) for (i = pG->is-nghost; i <= pG->ie+nghost; i += 2) {
        int c[3], in = 1, act; double w = dim == 1 ? 0.5 : dim == 2 ? 0.25 : 0.125, x[3];
        act = i >= pG->is && i <= pG->ie && j >= pG->js && j <= pG->je && k >= pG->ks && k <= pG->ke;
        if (act) continue;
        cpos(pG, i, j, k, x); for (a = 0; a < dim; a++) if (x[a] < X0[a] || x[a] > X1[a]) in = 0;      /* physical boundary ghosts: not prolongated */
        c[0] = (i - pG->is + D[0])/2 - E[0]; c[1] = (j - pG->js + D[1])/2 - E[1]; c[2] = (k - pG->ks + D[2])/2 - E[2];
        for (a = 0; a < dim; a++) if (c[a] < 0 || c[a] >= N[a]) in = 0;
        if (!in) continue;
        if (dim < 2) c[1] = 0; if (dim < 3) c[2] = 0;
        for (n = 0; n < NCONS; n++) {
          double s = 0, u = ((Real*)&pC->U[pC->ks+c[2]][pC->js+c[1]][pC->is+c[0]])[n], z;
#ifndef BAROTROPIC
          if (n == 4) continue;
#endif
#ifdef MHD
          if (n >= NB && n < NB+3 && n-NB < dim && dim > 1) continue;
#endif
          for (l = 0; l < 2; l++) for (m = 0; m <= (dim > 1); m++) for (a = 0; a <= (dim > 2); a++) s += w*((Real*)&pG->U[k+a][j+m][i+l])[n];
          if (fabs(s-u) > 1e-11*(1+fabs(u))) fail("step %d level %d ghost cells (%d,%d,%d)+: mean of component %d is %.15g, coarse value %.15g", it, nl, i, j, k, n, s, u);
        }
#ifndef BAROTROPIC
        {
          double s = 0, p = 0, *q; ConsS *u;
          for (l = 0; l < 2; l++) for (m = 0; m <= (dim > 1); m++) for (a = 0; a <= (dim > 2); a++) {
            u = &pG->U[k+a][j+m][i+l];
            p = u->E - 0.5*(SQR(u->M1)+SQR(u->M2)+SQR(u->M3))/u->d;
            if (!(p > 0)) fail("step %d level %d ghost cell: internal energy %g", it, nl, p);
          }
          (void)s; (void)q;
        }
#endif
#ifdef MHD
        if (dim > 1) for (l = 0; l < 2; l++) for (m = 0; m < 2; m++) for (a = 0; a <= (dim > 2); a++) {
          int I = i+l, J = j+m, K = k+a;
          ConsS *u = &pG->U[K][J][I];
          if (I > pG->ie+nghost-1 || J > pG->je+nghost-1 || (dim > 2 && K > pG->ke+nghost-1)) continue;
          if (fabs(divb(pG, I, J, K)) > 1e-9) fail("step %d level %d ghost cell (%d,%d,%d): div B = %g", it, nl, I, J, K, divb(pG, I, J, K));
          if (fabs(u->B1c - 0.5*(pG->B1i[K][J][I]+pG->B1i[K][J][I+1])) > 1e-11 || fabs(u->B2c - 0.5*(pG->B2i[K][J][I]+pG->B2i[K][J+1][I])) > 1e-11
            || (dim > 2 && fabs(u->B3c - 0.5*(pG->B3i[K][J][I]+pG->B3i[K+1][J][I])) > 1e-11)) fail("step %d level %d ghost cell (%d,%d,%d): cell-centred field is not the face average", it, nl, I, J, K);
        }
#endif
      }
    }
  }
}
int main(int argc, char **argv)
{
  int nl, nd, n, i, j, k, it, nst = atoi(argv[2]), N[3], a; GridS *pG; VDFun_t Integrate;
  static double tot0[64], ab[64];
  rseed(atol(argv[1])); mode = atoi(argv[3]);
  for (n = 0; n < 3; n++) N[n] = atoi(argv[4+n]);
  dim = (N[0]>1)+(N[1]>1)+(N[2]>1);
  for (n = 0; n < 12; n++) { for (a = 0; a < 4; a++) ca[n][a] = sym(n < 8 ? 0.12 : 0.02); for (; a < 8; a++) ca[n][a] = 6*urand(); }
  for (a = 0; a < 3; a++) ca[11][a] = sym(0.8);
  pars(N[0], N[1], N[2], 4);
  for (n = 7; n < argc; n++) {
    int L, q[3], d[3]; char b[32];
    sscanf(argv[n], "%d,%d,%d,%d,%d,%d,%d", &L, q, q+1, q+2, d, d+1, d+2);
    sprintf(b, "domain%d", n-5);
    par_seti(b, "level", "%d", L, "");
    for (a = 0; a < 3; a++) {
      char s[16]; sprintf(s, "Nx%d", a+1); par_seti(b, s, "%d", q[a], "");
      sprintf(s, "%cDisp", 'i'+a); par_seti(b, s, "%d", d[a], "");
    }
  }
  par_seti("job", "num_domains", "%d", argc-6, "");
  init_mesh(&M); init_grid(&M);
  EACH setup(pG);
  SMR_init(&M); RestrictCorrect(&M);
  bvals_mhd_init(&M);
  EACH bvals_mhd(&M.Domain[nl][nd]);
  Prolongate(&M);
  new_dt(&M);
  lr_states_init(&M);
  Integrate = integrate_init(&M);
  check(0, tot0, ab); ghosts(0);
  for (it = 1; it <= nst; it++) {
    ConsS u0 = M.Domain[0][0].Grid->U[M.Domain[0][0].Grid->ks][M.Domain[0][0].Grid->js][M.Domain[0][0].Grid->is];
    EACH (*Integrate)(&M.Domain[nl][nd]);
    RestrictCorrect(&M);
    M.nstep++; M.time += M.dt;
    EACH { pG->time = M.time; }
    EACH bvals_mhd(&M.Domain[nl][nd]);
    Prolongate(&M);
    new_dt(&M);
    check(it, tot0, ab); ghosts(it);
    if (mode) EACH CELLS for (n = 0; n < NCONS; n++)
      if (fabs(((Real*)&pG->U[k][j][i])[n] - ((Real*)&u0)[n]) > 1e-11) fail("step %d level %d cell (%d,%d,%d): uniform state changed, component %d", it, nl, i, j, k, n);
  }
  return done();
}
