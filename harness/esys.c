/* replay: eigensystem identities of the compiled code (ghost code of spec/esys.c).  argv: seed count */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
#include "../spec/esys.c"
static void chk(const char *w, Real *x, int n, double scale) { int k; for (k = 0; k < n; k++) if (!(fabs(x[k]) < 1e-8*scale)) fail("%s: entry %d residual %g", w, k, x[k]); }
int main(int argc, char **argv)
{
  int it, k, M = atoi(argv[2]);
  rseed(atol(argv[1]));
  for (it = 0; it < M && nfail < 10; it++) {
    Real lr[N*N], ar[N*N], ev[N], roe[N], hq = 1;
    Real bx = it % 9 == 0 ? 0 : sym(1), by = it % 5 == 0 ? 0 : sym(1), bz = it % 5 == 0 ? 0 : sym(1);
#ifdef ISOTHERMAL
    Iso_csound = 0.3 + urand(); Iso_csound2 = Iso_csound * Iso_csound;
#else
    Gamma = 1.1 + 0.6*urand(); Gamma_1 = Gamma - 1.0; Gamma_2 = Gamma - 2.0;
#endif
    spec_prim(exp(sym(1)), sym(2), exp(sym(1)), bx, by, bz, lr, ar, ev);
    chk("primitive L.R = I", lr, N*N, 1); chk("primitive A.R = R.Lambda", ar, N*N, 10);
    for (k = 0; k+1 < N; k++) if (ev[k] > ev[k+1] + 1e-9) fail("primitive eigenvalues out of order");
    { Real sl = exp(sym(.5)), sr = exp(sym(.5));
#ifdef MHD
    if (it % 2) sr = sl;
#endif
    spec_roe(sl, sr, sym(1), sym(1), sym(1), sym(1), sym(1), sym(1), exp(sym(1)), exp(sym(1)), bx, by + sym(.3), bz + sym(.3), by, bz, lr, roe, ev, &hq);
#ifdef MHD
    if (sr != sl) { roe[1] = 0;
#ifndef ISOTHERMAL
      roe[4] = 0;
#endif
    }
#endif
    }
    if (hq < 1e-6) continue;
    chk("Roe L.R = I", lr, N*N, 10); chk("Roe property", roe, N, 100);
    for (k = 0; k+1 < N; k++) if (ev[k] > ev[k+1] + 1e-9) fail("Roe eigenvalues out of order");
  }
  return done();
}
