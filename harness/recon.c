/* replay: reconstruction (lr_states) identities on the compiled code.  argv: seed count */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
#define NV (NWAVE + NSCALARS)
#define NN 24
#if defined(THIRD_ORDER_CHAR) || defined(THIRD_ORDER_PRIM)
#define Q2 0.03
#else
#define Q2 0.0
#endif
static Real *f(Prim1DS *W, int n) { return (Real*)W + n; }
static int iP = 4;
#ifdef ISOTHERMAL
static int iB = 4;
#else
static int iB = 5;
#endif
static void rnd(Prim1DS *W, double amp, const Prim1DS *base)
{
  int n;
  for (n = 0; n < NV; n++) *f(W, n) = base ? *f((Prim1DS*)base, n) + sym(amp) : sym(amp);
  if (!base) {
    W->d = 1.0 + urand();
#ifndef ISOTHERMAL
    W->P = 1.0 + urand();
#endif
  }
#ifdef SPECIAL_RELATIVITY
  W->Vx = 0.5*urand()-0.25; W->Vy = 0.5*urand()-0.25; W->Vz = 0.5*urand()-0.25;
#endif
}
static void mirror(Prim1DS *a, const Prim1DS *b) { *a = *b; a->Vx = -a->Vx; }
static void swp(Prim1DS *a, const Prim1DS *b)
{
  *a = *b; a->Vy = b->Vz; a->Vz = b->Vy;
#ifdef MHD
  a->By = b->Bz; a->Bz = b->By;
#endif
}
static GridS *pG;
static int il = 4, iu = 18;
static void lr(Prim1DS *W, Real *B, double dt, double dx, Prim1DS *L, Prim1DS *R, int dir)
{
  memset(L, 0, sizeof(Prim1DS)*NN); memset(R, 0, sizeof(Prim1DS)*NN);
  lr_states(pG, W, B, dt, dx, il, iu, L, R, dir);
}
static void cmp(const char *w, Prim1DS *a, Prim1DS *b, int i, double tol)
{
  int n;
  for (n = 0; n < NV; n++) if (!(fabs(*f(a,n) - *f(b,n)) <= tol*(1.0 + fabs(*f(b,n))))) { fail("%s: component %d at face %d: %.15g expected %.15g", w, n, i, *f(a,n), *f(b,n)); return; }
}
static MeshS M;
int main(int argc, char **argv)
{
  Prim1DS W[NN], V[NN], L[NN], R[NN], L2[NN], R2[NN], w0, x;
  Real B[NN], B2[NN], dt, dx;
  int it, i, n, m, N = atoi(argv[2]);
  rseed(atol(argv[1]));
#ifdef CYLINDRICAL
  X0[0] = 1.0; X1[0] = 2.0;
#endif
  pars(iu - il + 1 + 0, 1, 1, 4);
  init_mesh(&M); init_grid(&M); pG = M.Domain[0][0].Grid;
  lr_states_init(&M);
  for (it = 0; it < N && nfail < 20; it++) {
#ifdef ISOTHERMAL
    Iso_csound = 0.3 + urand(); Iso_csound2 = Iso_csound*Iso_csound;
#else
    Gamma = 1.1 + 0.9*urand(); Gamma_1 = Gamma - 1.0; Gamma_2 = Gamma - 2.0;
#endif
    dx = 0.5 + urand(); dt = 0.05*urand()*dx;
    /* uniform data */
    memset(W, 0, sizeof W);
    rnd(&w0, 2.0, NULL); B[0] = sym(1.0);
    for (i = 0; i < NN; i++) { W[i] = w0; B[i] = B[0]; }
    lr(W, B, dt, dx, L, R, 1);
    for (i = il; i <= iu + 1; i++) { cmp("uniform data: left state", &L[i], &w0, i, 1e-12); cmp("uniform data: right state", &R[i], &w0, i, 1e-12); }
    /* general data */
    { double amp = (it % 3 == 0) ? 0.02 : 0.4;
      rnd(&w0, 1.0, NULL);
      for (i = 0; i < NN; i++) { rnd(&W[i], amp, &w0); if (W[i].d < 0.2) W[i].d = 0.2;
#ifndef ISOTHERMAL
        if (W[i].P < 0.2) W[i].P = 0.2;
#endif
        B[i] = B[0] + sym(amp); } }
    lr(W, B, dt, dx, L, R, 1);
#ifdef FIRST_ORDER
    for (i = il; i <= iu + 1; i++) { cmp("first order: left state is the left cell", &L[i], &W[i-1], i, 0); cmp("first order: right state is the right cell", &R[i], &W[i], i, 0); }
#endif
#ifndef CYLINDRICAL
    for (i = 0; i < NN; i++) { mirror(&V[i], &W[il+iu-i < 0 ? 0 : il+iu-i >= NN ? NN-1 : il+iu-i]); B2[i] = -B[il+iu-i < 0 ? 0 : il+iu-i >= NN ? NN-1 : il+iu-i]; }
    lr(V, B2, dt, dx, L2, R2, 1);
    for (i = il; i <= iu + 1; i++) {           /* face i (between i-1,i) maps to face il+iu+1-i */
      mirror(&x, &R2[il+iu+1-i]); cmp("mirror image: left state", &L[i], &x, i, 1e-8);
      mirror(&x, &L2[il+iu+1-i]); cmp("mirror image: right state", &R[i], &x, i, 1e-8);
    }
    lr(W, B, dt, dx, L2, R2, 2);
    for (i = il; i <= iu + 1; i++) { cmp("direction 2", &L2[i], &L[i], i, 1e-13); cmp("direction 2", &R2[i], &R[i], i, 1e-13); }
    lr(W, B, dt, dx, L2, R2, 3);
    for (i = il; i <= iu + 1; i++) { cmp("direction 3", &L2[i], &L[i], i, 1e-13); cmp("direction 3", &R2[i], &R[i], i, 1e-13); }
#endif
    for (i = 0; i < NN; i++) swp(&V[i], &W[i]);
    lr(V, B, dt, dx, L2, R2, 1);
    for (i = il; i <= iu + 1; i++) { swp(&x, &L2[i]); cmp("transverse exchange: left state", &L[i], &x, i, 1e-8); swp(&x, &R2[i]); cmp("transverse exchange: right state", &R[i], &x, i, 1e-8); }
    for (i = 0; i < NN; i++) { V[i] = W[i]; V[i].Vy = -W[i].Vy;
#ifdef MHD
      V[i].By = -W[i].By;
#endif
    }
    lr(V, B, dt, dx, L2, R2, 1);
    for (i = il; i <= iu + 1; i++) { x = L2[i]; x.Vy = -x.Vy;
#ifdef MHD
      x.By = -x.By;
#endif
      cmp("transverse reversal: left state", &L[i], &x, i, 1e-8); x = R2[i]; x.Vy = -x.Vy;
#ifdef MHD
      x.By = -x.By;
#endif
      cmp("transverse reversal: right state", &R[i], &x, i, 1e-8); }
    /* no time evolution: face values lie between the adjacent cells */
    lr(W, B, 0.0, dx, L, R, 1);
    for (i = il; i <= iu + 1; i++) for (n = 0; n < NV; n++) {
      double a = *f(&W[i-1],n), b = *f(&W[i],n), lo = a < b ? a : b, hi = a < b ? b : a, t = 1e-10*(1+fabs(lo)+fabs(hi));
      double l = *f(&L[i],n), r = *f(&R[i],n);
      if (!(l >= lo-t && l <= hi+t)) fail("left state component %d at face %d outside the adjacent cells: %.15g not in [%.15g,%.15g]", n, i, l, lo, hi);
      if (!(r >= lo-t && r <= hi+t)) fail("right state component %d at face %d outside the adjacent cells: %.15g not in [%.15g,%.15g]", n, i, r, lo, hi);
    }
#if !defined(FIRST_ORDER) && !defined(CYLINDRICAL)
    /* linear data, no time evolution */
    rnd(&w0, 1.0, NULL); w0.d += 1.0;
#ifndef ISOTHERMAL
    w0.P += 1.0;
#endif
#ifdef SPECIAL_RELATIVITY
    rnd(&x, 0.02, NULL); x.d *= 0.02;
#ifndef ISOTHERMAL
    x.P *= 0.02;
#endif
    x.Vx *= 0.02; x.Vy *= 0.02; x.Vz *= 0.02;
#else
    for (n = 0; n < NV; n++) *f(&x,n) = sym(0.05);
#endif
    for (i = 0; i < NN; i++) { for (n = 0; n < NV; n++) *f(&W[i],n) = *f(&w0,n) + (i-11)*(*f(&x,n)); B[i] = B[0]; }
    lr(W, B, 0.0, dx, L, R, 1);
    for (i = il; i <= iu + 1; i++) {
      Prim1DS mid; for (n = 0; n < NV; n++) *f(&mid,n) = 0.5*(*f(&W[i-1],n) + *f(&W[i],n));
      cmp("linear profile: left state", &L[i], &mid, i, 1e-9); cmp("linear profile: right state", &R[i], &mid, i, 1e-9);
    }
#if defined(CTU_INTEGRATOR) && !defined(SPECIAL_RELATIVITY)
    /* small simple waves: the upwind face state is the average over the domain of dependence */
    {
      Real ev[NWAVE], rem[NWAVE][NWAVE], lem[NWAVE][NWAVE]; double eps = 1e-6, big = 0;
      memset(rem, 0, sizeof rem); memset(lem, 0, sizeof lem);
      rnd(&w0, 1.0, NULL);
#if defined(HYDRO) && defined(ISOTHERMAL)
      esys_prim_iso_hyd(w0.d, w0.Vx, ev, rem, lem);
#elif defined(HYDRO)
      esys_prim_adb_hyd(w0.d, w0.Vx, Gamma*w0.P, ev, rem, lem);
#elif defined(ISOTHERMAL)
      esys_prim_iso_mhd(w0.d, w0.Vx, B[0], w0.By, w0.Bz, ev, rem, lem);
#else
      esys_prim_adb_mhd(w0.d, w0.Vx, Gamma*w0.P, B[0], w0.By, w0.Bz, ev, rem, lem);
#endif
      for (n = 0; n < NWAVE; n++) if (fabs(ev[n]) > big) big = fabs(ev[n]);
      dt = 0.8*urand()*dx/big;
      for (m = 0; m < NV; m++) {
        double lam = m < NWAVE ? ev[m] : w0.Vx, s = 0;
        Prim1DS r; memset(&r, 0, sizeof r);
        for (n = 0; n < NV; n++) { *f(&r,n) = m < NWAVE ? (n < NWAVE ? rem[n][m] : 0) : (n == m); s += fabs(*f(&r,n)); }
        if (s == 0) continue;
        for (i = 0; i < NN; i++) for (n = 0; n < NV; n++) *f(&W[i],n) = *f(&w0,n) + eps*((i-11) + Q2*((i-11)*(i-11)+1.0/12))*(*f(&r,n))/s;
        lr(W, B, dt, dx, L, R, 1);
        for (i = 11; i <= 12; i++) for (n = 0; n < NV; n++) {
          double sl = eps*(*f(&r,n))/s, ex, got, c = lam*dt/dx, x0 = i - 0.5 - 11;
          /* average of x + Q2 x^2 over [x0-c, x0] (c > 0) or [x0, x0-c] */
          ex = *f(&w0,n) + sl*(x0 - 0.5*c + Q2*(x0*x0 - x0*c + c*c/3));
          got = lam > 0 ? *f(&L[i],n) : *f(&R[i],n);
          if (!(fabs(got-ex) < 1e-3*eps)) fail("small wave %d (speed %g): upwind state component %d: change per slope %.6g expected %.6g", m, lam, n, (got-*f(&W[lam>0?i-1:i],n))/eps, (ex-*f(&W[lam>0?i-1:i],n))/eps);
        }
      }
    }
#endif
#endif
  }
  return done();
}
