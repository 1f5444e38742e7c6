/* replay: conversions between conserved and primitive variables.  argv: seed count */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
static double rel(double a, double b, double s) { return fabs(a - b) / (fabs(a) + fabs(b) + s); }
int main(int argc, char **argv)
{
  int n, it, N = atoi(argv[2]);
  rseed(atol(argv[1]));
#ifdef ISOTHERMAL
  Iso_csound = 0.3 + urand(); Iso_csound2 = Iso_csound * Iso_csound;
#else
  Gamma = 1.05 + urand(); Gamma_1 = Gamma - 1.0; Gamma_2 = Gamma - 2.0;
#endif
  for (it = 0; it < N; it++) {
    Prim1DS W, W2; Cons1DS U; PrimS Q, Q2; ConsS C; Real Bx = 0.0; double e, tol = 1e-9, c, cf;
    memset(&W, 0, sizeof W); memset(&Q, 0, sizeof Q); memset(&U, 0, sizeof U);
    Q.d = exp(sym(2)); Q.V1 = sym(1.5); Q.V2 = sym(1.5); Q.V3 = sym(1.5);
#ifdef SPECIAL_RELATIVITY
    Q.V1 *= 0.3; Q.V2 *= 0.3; Q.V3 *= 0.3; tol = 1e-6;
#endif
#ifndef BAROTROPIC
    Q.P = exp(sym(2));
#endif
#ifdef MHD
    Q.B1c = sym(1.2); Q.B2c = sym(1.2); Q.B3c = sym(1.2); Bx = Q.B1c;
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) Q.r[n] = urand();
#endif
    C = Prim_to_Cons(&Q);
    Q2 = Cons_to_Prim(&C);
    for (n = 0; n < (int)(sizeof(PrimS)/sizeof(Real)); n++)
      if (!(rel(((Real*)&Q)[n], ((Real*)&Q2)[n], 0.1) < tol)) fail("round trip of primitive #%d: %.17g -> %.17g", n, ((Real*)&Q)[n], ((Real*)&Q2)[n]);
    W.d = Q.d; W.Vx = Q.V1; W.Vy = Q.V2; W.Vz = Q.V3;
#ifndef BAROTROPIC
    W.P = Q.P;
#endif
#ifdef MHD
    W.By = Q.B2c; W.Bz = Q.B3c;
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) W.r[n] = Q.r[n];
#endif
    U = Prim1D_to_Cons1D(&W, &Bx);
    W2 = Cons1D_to_Prim1D(&U, &Bx);
    for (n = 0; n < (int)(sizeof(Prim1DS)/sizeof(Real)); n++)
      if (!(rel(((Real*)&W)[n], ((Real*)&W2)[n], 0.1) < tol)) fail("1D round trip of primitive #%d: %.17g -> %.17g", n, ((Real*)&W)[n], ((Real*)&W2)[n]);
#ifndef SPECIAL_RELATIVITY
    if (rel(C.d, Q.d, 0) > 1e-12 || rel(C.M1, Q.d*Q.V1, 1e-3) > 1e-12 || rel(C.M2, Q.d*Q.V2, 1e-3) > 1e-12 || rel(C.M3, Q.d*Q.V3, 1e-3) > 1e-12) fail("momentum definition");
    if (rel(U.d, Q.d, 0) > 1e-12 || rel(U.Mx, Q.d*Q.V1, 1e-3) > 1e-12 || rel(U.My, Q.d*Q.V2, 1e-3) > 1e-12 || rel(U.Mz, Q.d*Q.V3, 1e-3) > 1e-12) fail("1D momentum definition");
#ifndef BAROTROPIC
    e = Q.P/Gamma_1 + 0.5*Q.d*(SQR(Q.V1)+SQR(Q.V2)+SQR(Q.V3));
#ifdef MHD
    e += 0.5*(SQR(Q.B1c)+SQR(Q.B2c)+SQR(Q.B3c));
#endif
    if (rel(C.E, e, 0) > 1e-12) fail("energy definition: %.17g expected %.17g", C.E, e);
    if (rel(U.E, e, 0) > 1e-12) fail("1D energy definition: %.17g expected %.17g", U.E, e);
    c = Gamma*Q.P/Q.d;
#else
    c = Iso_csound2;
#endif
    cf = c;
#ifdef MHD
    { double b = (SQR(Q.B1c)+SQR(Q.B2c)+SQR(Q.B3c))/Q.d, x = SQR(Q.B1c)/Q.d; cf = 0.5*(c+b+sqrt(SQR(c+b)-4*c*x)); }
#endif
    cf = sqrt(cf);
    if (rel(cfast(&U, &Bx), cf, 0) > 1e-9) fail("cfast %.17g expected %.17g", cfast(&U, &Bx), cf);
    if (rel(cfast_prim(&W, &Bx), cf, 0) > 1e-9) fail("cfast_prim %.17g expected %.17g", cfast_prim(&W, &Bx), cf);
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) if (rel(C.s[n], Q.d*Q.r[n], 1e-3) > 1e-12 || rel(U.s[n], Q.d*Q.r[n], 1e-3) > 1e-12) fail("scalar definition");
#endif
#else
    { double v2 = SQR(Q.V1)+SQR(Q.V2)+SQR(Q.V3), g2 = 1/(1-v2), h = Q.d + Gamma/Gamma_1*Q.P, B2 = 0, vb = 0, bx = 0;
#ifdef MHD
      B2 = SQR(Q.B1c)+SQR(Q.B2c)+SQR(Q.B3c); vb = Q.B1c*Q.V1+Q.B2c*Q.V2+Q.B3c*Q.V3; bx = Q.B1c;
#endif
      e = h*g2 - Q.P + 0.5*B2*(1+v2) - 0.5*vb*vb;
      if (rel(C.E, e, 0) > 1e-12) fail("relativistic energy definition");
      if (rel(C.d, Q.d*sqrt(g2), 0) > 1e-12) fail("relativistic density definition");
      if (rel(C.M1, (h*g2+B2)*Q.V1 - vb*bx, 1e-3) > 1e-12) fail("relativistic momentum definition");
    }
#endif
  }
  return done();
}
