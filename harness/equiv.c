/* relabelling, mirroring and dropping axes: one real integrator step commutes with them.
   argv: n1 n2 n3 seed amp what   what: p (permute/mirror), d (dimension reduction), u (uniform state) */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
#ifndef STEPS
#define STEPS 1
#endif
static int P[3] = {0,1,2}, S[3] = {1,1,1};       /* new axis P[d] carries old axis d with sign S[d] */
static int usegrav;
static double phi0(double x, double y, double z) { return 0.3*sin(2*x+0.4) + 0.2*cos(1.7*y) * (1 + 0.5*x) + 0.25*sin(1.1*z+y); }
static Real pot(const Real x1, const Real x2, const Real x3)
{
  double n[3], o[3]; int d;
  n[0] = x1; n[1] = x2; n[2] = x3;
  for (d = 0; d < 3; d++) o[d] = S[d] > 0 ? n[P[d]] : -n[P[d]];
  return phi0(o[0], o[1], o[2]);
}
static double *cons(ConsS *u) { return (double *)u; }
static void fresh(MeshS *M, const int *N, const double *lo, const double *hi)
{
  int d; static int opened = 0;
  if (opened++) par_close();
  memset(M, 0, sizeof(*M));
  for (d = 0; d < 3; d++) { X0[d] = lo[d]; X1[d] = hi[d]; }
  pars(N[0], N[1], N[2], 4);
  init_mesh(M); init_grid(M);
  bvals_mhd_init(M);
}
static double stepdt = 0;
#ifdef DIFF
#include "diffstep.h"
static void step(MeshS *M)
{
  bvals_mhd(&M->Domain[0][0]);
  diffstep(M, 0.01*stepdt);
}
#else
static void step(MeshS *M)
{
  VDFun_t I;
  DomainS *pD = &M->Domain[0][0];
  int s;
  StaticGravPot = usegrav ? pot : NULL;
  I = integrate_init(M);
  lr_states_init(M);
  for (s = 0; s < STEPS; s++) {
    bvals_mhd(pD);
    pD->Grid->dt = M->dt = stepdt;
    (*I)(pD);
    pD->Grid->time += stepdt; M->time += stepdt;
  }
  integrate_destruct(); lr_states_destruct();
}
#endif
static double *face(GridS *g, int n, int k, int j, int i)
{
#ifdef MHD
  return n == 0 ? &g->B1i[k][j][i] : n == 1 ? &g->B2i[k][j][i] : &g->B3i[k][j][i];
#else
  return NULL;
#endif
}
static ConsS *cell(GridS *g, const int *c) { return &g->U[g->ks + c[2]][g->js + c[1]][g->is + c[0]]; }
/* copy (dir=0) or compare (dir=1) the state of a with its image in b */
static void image(GridS *a, GridS *b, int cmp, const char *what, double tol)
{
  int c[3], q[3], d, n;
  for (c[2] = 0; c[2] < a->Nx[2]; c[2]++) for (c[1] = 0; c[1] < a->Nx[1]; c[1]++) for (c[0] = 0; c[0] < a->Nx[0]; c[0]++) {
    ConsS *u = cell(a, c), *w, t;
    for (d = 0; d < 3; d++) q[P[d]] = S[d] > 0 ? c[d] : a->Nx[d] - 1 - c[d];
    w = cell(b, q);
    t = *u;
    { double m[3]; m[0] = u->M1; m[1] = u->M2; m[2] = u->M3; double *o = &t.M1; for (d = 0; d < 3; d++) o[P[d]] = S[d] * m[d]; }
#ifdef MHD
    { double m[3]; m[0] = u->B1c; m[1] = u->B2c; m[2] = u->B3c; double *o = &t.B1c; for (d = 0; d < 3; d++) o[P[d]] = S[d] * m[d]; }
#endif
    if (!cmp) *w = t;
    else for (n = 0; n < NCONS; n++) if (!(fabs(cons(&t)[n] - cons(w)[n]) <= tol))
      fail("%s: component %d of cell (%d,%d,%d): %.15g expected %.15g", what, n, q[0], q[1], q[2], cons(w)[n], cons(&t)[n]);
  }
#ifdef MHD
  for (n = 0; n < 3; n++) {
    int N[3]; for (d = 0; d < 3; d++) N[d] = a->Nx[d] + (d == n && a->Nx[d] > 1);
    for (c[2] = 0; c[2] < N[2]; c[2]++) for (c[1] = 0; c[1] < N[1]; c[1]++) for (c[0] = 0; c[0] < N[0]; c[0]++) {
      double v = S[n] * *face(a, n, a->ks + c[2], a->js + c[1], a->is + c[0]), *w;
      for (d = 0; d < 3; d++) q[P[d]] = S[d] > 0 ? c[d] : N[d] - 1 - c[d];
      w = face(b, P[n], b->ks + q[2], b->js + q[1], b->is + q[0]);
      if (!cmp) *w = v;
      else if (!(fabs(*w - v) <= tol)) fail("%s: face field %d at (%d,%d,%d): %.15g expected %.15g", what, P[n] + 1, q[0], q[1], q[2], *w, v);
    }
  }
#endif
}
static int finite_all(GridS *g) {
  int i, j, k, n;
  for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) for (n = 0; n < NCONS; n++) if (!isfinite(cons(&g->U[k][j][i])[n])) return 0;
  return 1;
}
int main(int argc, char **argv)
{
  static MeshS A, B, A0; int N[3], M[3], d, n, dim, v, k, j, i;
  double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825}, blo[3], bhi[3], amp, tol;
  static const int PERM[][3] = {{1,0,2},{1,2,0},{0,2,1},{2,0,1},{0,1,2},{0,1,2},{2,1,0},{0,1,2}};
  static const int SIGN[][3] = {{1,1,1},{1,1,1},{1,1,1},{1,1,1},{-1,1,1},{1,-1,1},{1,-1,-1},{1,1,-1}};
  for (d = 0; d < 3; d++) N[d] = atoi(argv[1+d]);
  rseed(atol(argv[4])); amp = atof(argv[5]);
  dim = (N[0]>1)+(N[1]>1)+(N[2]>1);
#ifdef GRAV
  usegrav = 1;
#endif
  fresh(&A, N, lo, hi);
  random_state(&A.Domain[0][0], amp, 1);
#ifdef SPECIAL_RELATIVITY
  stepdt = 0.02;
#else
  stepdt = 0.012;
#endif
  tol = 2e-10;
  if (argv[6][0] == 'z') {  /* gas at rest (mass fluxes exactly zero) around a random block */
    GridS *g = A.Domain[0][0].Grid; ConsS u; int q;
#ifdef MHD
    double b0[3] = {0.3, -0.4, 0.2};
#endif
    memset(&u, 0, sizeof(u)); u.d = 1.0;
#ifndef BAROTROPIC
    u.E = 0.7/0.4;
#endif
#ifdef MHD
    u.B1c = b0[0]; u.B2c = b0[1]; u.B3c = b0[2];
#ifndef BAROTROPIC
    u.E += 0.5*(b0[0]*b0[0]+b0[1]*b0[1]+b0[2]*b0[2]);
#endif
#endif
    for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
      int in = i >= g->is+2 && i <= g->is+3 && (N[1] == 1 || (j >= g->js+1 && j <= g->js+2)) && (N[2] == 1 || k >= g->ks+3);
      ConsS keep = g->U[k][j][i];
      if (in) {
#ifdef MHD
        /* keep the moving gas, with the uniform field */
        double e2 = keep.B1c*keep.B1c + keep.B2c*keep.B2c + keep.B3c*keep.B3c;
        keep.B1c = b0[0]; keep.B2c = b0[1]; keep.B3c = b0[2];
#ifndef BAROTROPIC
        keep.E += 0.5*(b0[0]*b0[0]+b0[1]*b0[1]+b0[2]*b0[2] - e2);
#endif
        (void)e2;
#endif
        g->U[k][j][i] = keep;
      } else {
        for (q = 0; q < NSCALARS; q++) {
#if (NSCALARS > 0)
          u.s[q] = 0.5;
#endif
        }
        g->U[k][j][i] = u;
      }
    }
#ifdef MHD
    for (k = g->ks; k <= g->ke + (N[2] > 1); k++) for (j = g->js; j <= g->je + (N[1] > 1); j++) for (i = g->is; i <= g->ie + 1; i++) {
      g->B1i[k][j][i] = b0[0]; g->B2i[k][j][i] = b0[1]; g->B3i[k][j][i] = b0[2];
    }
#endif
  }
  if (argv[6][0] == 'p' || argv[6][0] == 'z') {
    GridS *a = A.Domain[0][0].Grid;
    fresh(&A0, N, lo, hi);
    image(a, A0.Domain[0][0].Grid, 0, "", 0);
    step(&A);
    if (!finite_all(a)) { printf("setup: not finite\n"); return 2; }
    for (v = 0; v < 8; v++) {
      int ok = 1;
      for (d = 0; d < 3; d++) { P[d] = PERM[v][d]; S[d] = SIGN[v][d]; }
      for (d = 0; d < 3; d++) if (N[d] == 1 && P[d] != d && N[P[d]] != 1) ok = 0;
      for (d = dim; d < 3; d++) if (P[d] < dim) ok = 0;
      if (!ok) continue;
      for (d = 0; d < 3; d++) { M[P[d]] = N[d]; blo[P[d]] = S[d] > 0 ? lo[d] : -hi[d]; bhi[P[d]] = S[d] > 0 ? hi[d] : -lo[d]; }
      fresh(&B, M, blo, bhi);
      image(A0.Domain[0][0].Grid, B.Domain[0][0].Grid, 0, "", 0);
      step(&B);
      { char w[64]; sprintf(w, "axes %d%d%d signs %d %d %d", P[0]+1, P[1]+1, P[2]+1, S[0], S[1], S[2]);
        image(a, B.Domain[0][0].Grid, 1, w, tol); }
    }
  } else if (argv[6][0] == 'd') {
    /* the same data in one and two more dimensions, all directions of embedding */
    static const int EMB[][3] = {{0,1,2},{1,0,2},{1,2,0},{2,0,1},{0,2,1}};
    GridS *a = A.Domain[0][0].Grid;
#ifdef MHD
    /* divergence-free start: B from a potential plus constants */
    if (dim == 2) {
      double *Az = (double *)calloc(64*64, sizeof(double));
      for (j = 0; j < N[1]; j++) for (i = 0; i < N[0]; i++) Az[j*64+i] = sym(0.03*amp);
      for (j = 0; j <= N[1]; j++) for (i = 0; i <= N[0]; i++) if (j == N[1] || i == N[0]) Az[j*64+i] = Az[(j % N[1])*64 + i % N[0]];
      for (j = 0; j <= N[1]; j++) for (i = 0; i <= N[0]; i++) {
        if (j < N[1]) a->B1i[0][a->js+j][a->is+i] = 0.4 + (Az[(j+1)*64+i] - Az[j*64+i]) / a->dx2;
        if (i < N[0]) a->B2i[0][a->js+j][a->is+i] = -0.3 - (Az[j*64+i+1] - Az[j*64+i]) / a->dx1;
      }
      free(Az);
    }
    for (j = a->js; j <= a->je; j++) for (i = a->is; i <= a->ie; i++) {
      ConsS *u = &a->U[0][j][i]; PrimS W = Cons_to_Prim(u);
      W.B1c = 0.5 * (a->B1i[0][j][i] + a->B1i[0][j][i+1]);
      W.B2c = dim > 1 ? 0.5 * (a->B2i[0][j][i] + a->B2i[0][j+1][i]) : a->B2i[0][j][i];
      W.B3c = a->B3i[0][j][i];
      *u = Prim_to_Cons(&W);
    }
#endif
    fresh(&A0, N, lo, hi);
    image(a, A0.Domain[0][0].Grid, 0, "", 0);
    step(&A);
    for (v = 0; v < 5; v++) {
      int D, c[3], q[3];
      for (d = 0; d < 3; d++) { P[d] = EMB[v][d]; S[d] = 1; }
      for (D = dim + 1; D <= 3; D++) {
        GridS *s = A0.Domain[0][0].Grid, *b; int top = 0;
        for (d = 0; d < dim; d++) if (P[d] > top) top = P[d];
        if (top >= D) continue;
        for (d = 0; d < 3; d++) { M[d] = d < D ? 5 : 1; blo[d] = 0.0; bhi[d] = 0.55; }
        for (d = 0; d < dim; d++) { M[P[d]] = N[d]; blo[P[d]] = lo[d]; bhi[P[d]] = hi[d]; }
        fresh(&B, M, blo, bhi); b = B.Domain[0][0].Grid;
        for (k = b->ks; k <= b->ke + (D > 2); k++) for (j = b->js; j <= b->je + (D > 1); j++) for (i = b->is; i <= b->ie + 1; i++) {
          ConsS *u, *w; int off[3];
          q[0] = i - b->is; q[1] = j - b->js; q[2] = k - b->ks;
          for (d = 0; d < 3; d++) { c[d] = d < dim ? q[P[d]] : 0; off[d] = d < dim && c[d] == s->Nx[d]; }
#ifdef MHD
          for (n = 0; n < 3; n++) {
            int ok = 1;
            for (d = 0; d < 3; d++) { int e = q[P[d]]; if (e >= M[P[d]] && (d != n || M[P[d]] == 1)) ok = 0; }
            if (!ok) continue;
            *face(b, P[n], k, j, i) = *face(s, n, s->ks + c[2], s->js + c[1], s->is + c[0]);
          }
#endif
          if (off[0] || off[1] || off[2] || i > b->ie || j > b->je || k > b->ke) continue;
          u = cell(s, c); w = &b->U[k][j][i]; *w = *u;
          { double m[3]; m[0] = u->M1; m[1] = u->M2; m[2] = u->M3; for (d = 0; d < 3; d++) (&w->M1)[P[d]] = m[d]; }
#ifdef MHD
          { double m[3]; m[0] = u->B1c; m[1] = u->B2c; m[2] = u->B3c; for (d = 0; d < 3; d++) (&w->B1c)[P[d]] = m[d]; }
#endif
        }
        step(&B);
        for (k = b->ks; k <= b->ke; k++) for (j = b->js; j <= b->je; j++) for (i = b->is; i <= b->ie; i++) {
          ConsS *u, t, *w = &b->U[k][j][i];
          q[0] = i - b->is; q[1] = j - b->js; q[2] = k - b->ks;
          for (d = 0; d < 3; d++) c[d] = d < dim ? q[P[d]] : 0;
          u = cell(a, c); t = *u;
          { double m[3]; m[0] = u->M1; m[1] = u->M2; m[2] = u->M3; for (d = 0; d < 3; d++) (&t.M1)[P[d]] = m[d]; }
#ifdef MHD
          { double m[3]; m[0] = u->B1c; m[1] = u->B2c; m[2] = u->B3c; for (d = 0; d < 3; d++) (&t.B1c)[P[d]] = m[d]; }
#endif
          for (n = 0; n < NCONS; n++) if (!(fabs(cons(&t)[n] - cons(w)[n]) <= tol))
            fail("%dD data embedded in %dD along axes %d%d%d: component %d of cell (%d,%d,%d): %.15g expected %.15g", dim, D, P[0]+1, P[1]+1, P[2]+1, n, q[0], q[1], q[2], cons(w)[n], cons(&t)[n]);
        }
      }
    }
  } else {
    GridS *a = A.Domain[0][0].Grid; ConsS u0;
    int it;
    for (it = 0; it < 6; it++) {
      random_state(&A.Domain[0][0], amp, 1);
      u0 = a->U[a->ks][a->js][a->is];
      for (k = a->ks; k <= a->ke; k++) for (j = a->js; j <= a->je; j++) for (i = a->is; i <= a->ie; i++) a->U[k][j][i] = u0;
#ifdef MHD
      for (k = a->ks; k <= a->ke + (a->ke > a->ks); k++) for (j = a->js; j <= a->je + (a->je > a->js); j++) for (i = a->is; i <= a->ie + 1; i++) {
        a->B1i[k][j][i] = u0.B1c; a->B2i[k][j][i] = u0.B2c; a->B3i[k][j][i] = u0.B3c;
      }
#endif
      step(&A);
      for (k = a->ks; k <= a->ke; k++) for (j = a->js; j <= a->je; j++) for (i = a->is; i <= a->ie; i++) for (n = 0; n < NCONS; n++)
        if (!(fabs(cons(&a->U[k][j][i])[n] - cons(&u0)[n]) <= 1e-12 * (1 + fabs(cons(&u0)[n])))) fail("uniform state changed: component %d of cell (%d,%d,%d): %.15g was %.15g", n, i - a->is, j - a->js, k - a->ks, cons(&a->U[k][j][i])[n], cons(&u0)[n]);
    }
  }
  return done();
}
