/* replay: Riemann solver identities on the compiled solver.
   argv: seed count mask   (mask 1: consistency, upwinding, scalars; 2: mirror, transverse swap, contact) */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
#define NC ((int)(sizeof(Cons1DS)/sizeof(Real)))
static Prim1DS rstate(double amp, double *B)
{
  Prim1DS W; int n;
  memset(&W, 0, sizeof W);
  W.d = exp(sym(1.5*amp)); W.Vx = sym(2*amp); W.Vy = sym(2*amp); W.Vz = sym(2*amp);
#ifdef SPECIAL_RELATIVITY
  W.Vx *= 0.2; W.Vy *= 0.2; W.Vz *= 0.2;
#endif
#ifndef BAROTROPIC
  W.P = exp(sym(1.5*amp));
#endif
#ifdef MHD
  W.By = B[1] + sym(amp); W.Bz = B[2] + sym(amp);
#endif
#if (NSCALARS > 0)
  for (n = 0; n < NSCALARS; n++) W.r[n] = urand();
#endif
  return W;
}
static Cons1DS U_(Prim1DS W, Real Bx)
{
  Cons1DS U; int n;
#ifdef SPECIAL_RELATIVITY
  U = Prim1D_to_Cons1D(&W, &Bx);
#else
  memset(&U, 0, sizeof U);
  U.d = W.d; U.Mx = W.d*W.Vx; U.My = W.d*W.Vy; U.Mz = W.d*W.Vz;
#ifndef BAROTROPIC
  U.E = W.P/Gamma_1 + 0.5*W.d*(SQR(W.Vx)+SQR(W.Vy)+SQR(W.Vz));
#endif
#ifdef MHD
  U.By = W.By; U.Bz = W.Bz;
#ifndef BAROTROPIC
  U.E += 0.5*(Bx*Bx + W.By*W.By + W.Bz*W.Bz);
#endif
#endif
#if (NSCALARS > 0)
  for (n = 0; n < NSCALARS; n++) U.s[n] = W.d*W.r[n];
#endif
#endif
  return U;
}
static Cons1DS F_(Prim1DS W, Real Bx)
{
  Cons1DS F, U = U_(W, Bx); int n;
  double p, by = 0, bz = 0;
  memset(&F, 0, sizeof F);
#ifdef MHD
  by = W.By; bz = W.Bz;
#endif
#ifdef BAROTROPIC
  p = W.d*Iso_csound2;
#else
  p = W.P;
#endif
#ifdef SPECIAL_RELATIVITY
  {
    double v2 = SQR(W.Vx)+SQR(W.Vy)+SQR(W.Vz), g = 1/sqrt(1-v2), vB = W.Vx*Bx+W.Vy*by+W.Vz*bz, B2 = Bx*Bx+by*by+bz*bz;
    double b2 = B2/(g*g) + vB*vB, pt = p + 0.5*b2;
    double bx = Bx/g + g*vB*W.Vx, bY = by/g + g*vB*W.Vy, bZ = bz/g + g*vB*W.Vz;
    F.d = U.d*W.Vx;
    F.Mx = U.Mx*W.Vx + pt - Bx*bx/g; F.My = U.My*W.Vx - Bx*bY/g; F.Mz = U.Mz*W.Vx - Bx*bZ/g;
    F.E = U.Mx;
  }
#else
  F.d = W.d*W.Vx;
  F.Mx = W.d*W.Vx*W.Vx + p + 0.5*(by*by + bz*bz - Bx*Bx);
  F.My = W.d*W.Vx*W.Vy - Bx*by; F.Mz = W.d*W.Vx*W.Vz - Bx*bz;
#ifndef BAROTROPIC
  F.E = (U.E + p + 0.5*(Bx*Bx+by*by+bz*bz))*W.Vx - Bx*(Bx*W.Vx+by*W.Vy+bz*W.Vz);
#endif
#endif
#ifdef MHD
  F.By = by*W.Vx - Bx*W.Vy; F.Bz = bz*W.Vx - Bx*W.Vz;
#endif
#if (NSCALARS > 0)
  for (n = 0; n < NSCALARS; n++) F.s[n] = F.d*W.r[n];
#endif
  return F;
}
static Cons1DS G(Prim1DS L, Prim1DS R, Real Bx)
{
  Cons1DS F;
  memset(&F, 0, sizeof F);
  fluxes(U_(L, Bx), U_(R, Bx), L, R, Bx, &F);
  return F;
}
static void cmp(const char *what, Cons1DS a, Cons1DS b, double tol, Prim1DS L, Prim1DS R, double Bx)
{
  int n, m; double s = 0.01;
  for (n = 0; n < NC; n++) { s = MAX(s, fabs(((Real*)&a)[n])); s = MAX(s, fabs(((Real*)&b)[n])); }
  for (n = 0; n < NC; n++) {
    double x = ((Real*)&a)[n], y = ((Real*)&b)[n];
    if (!(fabs(x - y) <= tol*s)) {
      char buf[2000]; int k = 0;
      for (m = 0; m < (int)(sizeof(Prim1DS)/sizeof(Real)); m++) k += sprintf(buf+k, " %.6g", ((Real*)&L)[m]);
      k += sprintf(buf+k, " |");
      for (m = 0; m < (int)(sizeof(Prim1DS)/sizeof(Real)); m++) k += sprintf(buf+k, " %.6g", ((Real*)&R)[m]);
      fail("%s: component %d: %.14g expected %.14g; L|R =%s Bx=%g", what, n, x, y, buf, Bx);
      return;
    }
  }
}
static Cons1DS neg(Cons1DS F) { int n; Real mx = F.Mx; for (n = 0; n < NC; n++) ((Real*)&F)[n] = -((Real*)&F)[n]; F.Mx = mx; return F; }
static Prim1DS mir(Prim1DS W) { W.Vx = -W.Vx; return W; }
static Prim1DS swp(Prim1DS W) { Real t = W.Vy; W.Vy = W.Vz; W.Vz = t;
#ifdef MHD
  t = W.By; W.By = W.Bz; W.Bz = t;
#endif
  return W; }
static Cons1DS swc(Cons1DS W) { Real t = W.My; W.My = W.Mz; W.Mz = t;
#ifdef MHD
  t = W.By; W.By = W.Bz; W.Bz = t;
#endif
  return W; }
static Prim1DS pry(Prim1DS W) { W.Vy = -W.Vy;
#ifdef MHD
  W.By = -W.By;
#endif
  return W; }
static Cons1DS pcy(Cons1DS W) { W.My = -W.My;
#ifdef MHD
  W.By = -W.By;
#endif
  return W; }
static double cmax(Prim1DS W, double Bx)
{
  double c2;
#ifdef BAROTROPIC
  c2 = Iso_csound2;
#else
  c2 = Gamma*W.P/W.d;
#endif
#ifdef MHD
  c2 += (Bx*Bx+W.By*W.By+W.Bz*W.Bz)/W.d;
#endif
  return sqrt(c2);
}
int main(int argc, char **argv)
{
  int it, n, N = atoi(argv[2]), mask = argc > 3 ? atoi(argv[3]) : 1;
  double tol = 1e-9;
  rseed(atol(argv[1]));
#if defined(EXACT_FLUX)
  tol = 2e-3;
#endif
#ifdef SPECIAL_RELATIVITY
  tol = 1e-6;
#ifdef HLLD_FLUX
  tol = 1e-3;
#endif
#endif
  ath_log_set_level(-1, -1);
  for (it = 0; it < N && nfail < 12; it++) {
    double amp = it % 4 == 0 ? 0.05 : it % 4 == 1 ? 0.5 : 1.0, B[3] = {0, 0, 0}, Bx = 0;
    Prim1DS L, R; Cons1DS F, H;
#ifdef EXACT_FLUX
    amp *= 0.3;
#endif
#ifdef ISOTHERMAL
    Iso_csound = 0.3 + urand(); Iso_csound2 = Iso_csound * Iso_csound;
#else
    Gamma = 1.1 + 0.6*urand(); Gamma_1 = Gamma - 1.0; Gamma_2 = Gamma - 2.0;
#endif
    d_MIN = 1e-6;
#ifdef MHD
    Bx = it % 7 == 0 ? 0.0 : sym(1.5); B[1] = sym(1.0); B[2] = sym(1.0);
#endif
    L = rstate(amp, B); R = rstate(amp, B);
    /* degenerate states: gas at rest, no transverse field or motion, equal sides */
    if (it % 8 == 3) L.Vx = R.Vx = 0.0;
    if (it % 9 == 4) { L.Vy = L.Vz = R.Vy = R.Vz = 0.0; }
    if (it % 10 == 5) R.d = L.d;
#ifdef MHD
    if (it % 11 == 6) L.By = L.Bz = R.By = R.Bz = 0.0;
    if (it % 13 == 7) { L.By = R.By = 0.0; }
#endif
    if (it % 14 == 8) { Prim1DS t = L; t.d = R.d; R = t; }
    if (it % 16 == 9) { Prim1DS t = L; t.Vx = R.Vx; R = t; }
    if (it % 17 == 10) { L.Vx = -R.Vx; L.d = R.d;
#ifndef BAROTROPIC
      L.P = R.P;
#endif
    }
    if (mask & 1) {
      if (it % 5 == 2) L.Vx = 0.0;
      if (it % 6 == 3) L.Vx *= 6.0;
#ifdef SPECIAL_RELATIVITY
      if (fabs(L.Vx) > 0.9) L.Vx *= 0.3;
#endif
      F = G(L, L, Bx); H = F_(L, Bx);
      cmp("consistency F(U,U) = F(U)", F, H, tol, L, L, Bx);
#ifndef SPECIAL_RELATIVITY
      F = G(L, R, Bx);
#if (NSCALARS > 0)
      for (n = 0; n < NSCALARS; n++)
        if (fabs(F.s[n] - F.d*L.r[n]) > 1e-9 && fabs(F.s[n] - F.d*R.r[n]) > 1e-9) fail("scalar flux %.12g is not mass flux %.12g times a side value %.12g %.12g", F.s[n], F.d, L.r[n], R.r[n]);
#if !defined(ROE_FLUX) && !defined(EXACT_FLUX) && !defined(TWO_SHOCK_FLUX) && !defined(FORCE_FLUX)
      for (n = 0; n < NSCALARS; n++)
        if (fabs(F.s[n] - F.d*(F.d >= 0 ? L.r[n] : R.r[n])) > 1e-9) fail("scalar flux not upwind");
#endif
#endif
#ifndef FORCE_FLUX
      {
        Prim1DS l = L, r = R; double c = 3*(cmax(L,Bx)+cmax(R,Bx)) + 3*(fabs(L.Vy-R.Vy)+fabs(L.Vz-R.Vz)) + 1.0;
        l.Vx = c + 0.2*sym(1); r.Vx = c + 0.2*sym(1);
#ifdef TWO_SHOCK_FLUX
        r.Vx = l.Vx; r.d = l.d*(1 + 0.2*sym(1));
#endif
#ifdef EXACT_FLUX
        l.Vx *= 2; r.Vx = l.Vx;
#endif
        cmp("supersonic to the right: F = F(U_L)", G(l, r, Bx), F_(l, Bx), tol, l, r, Bx);
        l.Vx = -l.Vx; r.Vx = -r.Vx;
        cmp("supersonic to the left: F = F(U_R)", G(l, r, Bx), F_(r, Bx), tol, l, r, Bx);
      }
#endif
#endif
    }
    if (mask & 2) {
      F = G(L, R, Bx);
#if !defined(EXACT_FLUX)
      cmp("mirror symmetry", neg(G(mir(R), mir(L), -Bx)), F, 1e-8 > tol ? 1e-8 : tol, L, R, Bx);
#else
      cmp("mirror symmetry", neg(G(mir(R), mir(L), -Bx)), F, 1e-2, L, R, Bx);
#endif
      cmp("transverse reversal", pcy(G(pry(L), pry(R), Bx)), F, 1e-8 > tol ? 1e-8 : tol, L, R, Bx);
      cmp("transverse exchange", swc(G(swp(L), swp(R), Bx)), F, 1e-8 > tol ? 1e-8 : tol, L, R, Bx);
#if !defined(SPECIAL_RELATIVITY) && (defined(ROE_FLUX) || defined(HLLC_FLUX) || defined(HLLD_FLUX) || defined(EXACT_FLUX))
      {
        Prim1DS r = R;
        r.Vx = L.Vx;
#ifdef BAROTROPIC
        r.d = L.d;
#else
        r.P = L.P;
#endif
#ifdef MHD
        r.By = L.By; r.Bz = L.Bz;
#ifdef BAROTROPIC
        r.Vy = L.Vy; r.Vz = L.Vz;   /* only a scalar jump is left */
#else
        if (Bx != 0.0) { r.Vy = L.Vy; r.Vz = L.Vz; }
#if defined(ROE_FLUX) || defined(HLLD_FLUX)
        r.Vy = L.Vy; r.Vz = L.Vz;
#endif
#endif
#endif
        if (fabs(L.Vx) > 1e-3) cmp("moving contact is resolved exactly", G(L, r, Bx), F_(L.Vx > 0 ? L : r, Bx), tol, L, r, Bx);
      }
#endif
    }
  }
  return done();
}
