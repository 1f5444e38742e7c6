/* ghost code: identities of the characteristic decompositions (parsed together with the real source) */
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#include "rsolvers/prototypes.h"
#include "reconstruction/prototypes.h"
#define N NWAVE

static void idents(Real ev[N], Real rem[N][N], Real lem[N][N], Real A[N][N], Real *lr, Real *ar)
{
  int i, j, k;
  for (i=0; i<N; i++) for (j=0; j<N; j++) {
    Real s = 0.0, t = 0.0;
    for (k=0; k<N; k++) { s += lem[i][k]*rem[k][j]; t += A[i][k]*rem[k][j]; }
    lr[i*N+j] = s - (i==j ? 1.0 : 0.0);
    ar[i*N+j] = t - rem[i][j]*ev[j];
  }
}

/* primitive-variable eigensystem: order d,Vx,Vy,Vz,[P],[By,Bz] */
void spec_prim(Real d, Real vx, Real p, Real bx, Real by, Real bz, Real *lr, Real *ar, Real *evo)
{
  Real ev[N], rem[N][N], lem[N][N], A[N][N];
  int i, j;
  for (i=0; i<N; i++) for (j=0; j<N; j++) { rem[i][j] = 0.0; lem[i][j] = 0.0; A[i][j] = (i==j ? vx : 0.0); }
  A[0][1] = d;
#ifdef ISOTHERMAL
  A[1][0] = Iso_csound2/d;
#ifdef MHD
  A[1][4] = by/d; A[1][5] = bz/d; A[2][4] = -bx/d; A[3][5] = -bx/d;
  A[4][1] = by; A[4][2] = -bx; A[5][1] = bz; A[5][3] = -bx;
  esys_prim_iso_mhd(d, vx, bx, by, bz, ev, rem, lem);
#else
  esys_prim_iso_hyd(d, vx, ev, rem, lem);
#endif
#else
  A[1][4] = 1.0/d; A[4][1] = Gamma*p;
#ifdef MHD
  A[1][5] = by/d; A[1][6] = bz/d; A[2][5] = -bx/d; A[3][6] = -bx/d;
  A[5][1] = by; A[5][2] = -bx; A[6][1] = bz; A[6][3] = -bx;
  esys_prim_adb_mhd(d, vx, Gamma*p, bx, by, bz, ev, rem, lem);
#else
  esys_prim_adb_hyd(d, vx, Gamma*p, ev, rem, lem);
#endif
#endif
  idents(ev, rem, lem, A, lr, ar);
  for (i=0; i<N; i++) evo[i] = ev[i];
}

/* Roe eigensystem between two states given by the square roots of their densities: L R = I and the Roe property
   R diag(ev) L (U_R-U_L) = F_R-F_L */
void spec_roe(Real sl, Real sr, Real vxl, Real vyl, Real vzl, Real vxr, Real vyr, Real vzr, Real pl, Real pr,
              Real bx, Real byl, Real bzl, Real byr, Real bzr, Real *lr, Real *roe, Real *evo, Real *hq)
{
  Real ev[N], rem[N][N], lem[N][N], A[N][N], dU[N], dF[N], aw[N], ar[N*N];
  Real dl = sl*sl, dr = sr*sr, is = 1.0/(sl+sr), d = sl*sr;
  Real v1 = (sl*vxl + sr*vxr)*is, v2 = (sl*vyl + sr*vyr)*is, v3 = (sl*vzl + sr*vzr)*is;
  Real b2 = (sr*byl + sl*byr)*is, b3 = (sr*bzl + sl*bzr)*is, h, el, er, pbl = 0.0, pbr = 0.0, x, y, ptl, ptr;
  int i, j;
  for (i=0; i<N; i++) for (j=0; j<N; j++) { rem[i][j] = 0.0; lem[i][j] = 0.0; A[i][j] = 0.0; }
#ifdef MHD
  pbl = 0.5*(bx*bx+byl*byl+bzl*bzl); pbr = 0.5*(bx*bx+byr*byr+bzr*bzr);
  x = 0.5*((byl-byr)*(byl-byr) + (bzl-bzr)*(bzl-bzr))*is*is;
  y = 0.5*(dl+dr)/d;
#endif
  dU[0] = dr - dl; dU[1] = dr*vxr - dl*vxl; dU[2] = dr*vyr - dl*vyl; dU[3] = dr*vzr - dl*vzl;
#ifdef ISOTHERMAL
  ptl = Iso_csound2*dl + pbl; ptr = Iso_csound2*dr + pbr;
#else
  ptl = pl + pbl; ptr = pr + pbr;
  el = pl/Gamma_1 + 0.5*dl*(vxl*vxl+vyl*vyl+vzl*vzl) + pbl;
  er = pr/Gamma_1 + 0.5*dr*(vxr*vxr+vyr*vyr+vzr*vzr) + pbr;
  h = ((el+ptl)/sl + (er+ptr)/sr)*is;
  dU[4] = er - el;
#endif
  dF[0] = dr*vxr - dl*vxl;
  dF[1] = dr*vxr*vxr + ptr - dl*vxl*vxl - ptl;
  dF[2] = dr*vxr*vyr - dl*vxl*vyl; dF[3] = dr*vxr*vzr - dl*vxl*vzl;
#ifndef ISOTHERMAL
  dF[4] = (er+ptr)*vxr - (el+ptl)*vxl;
#endif
#ifdef MHD
  dF[2] -= bx*(byr-byl); dF[3] -= bx*(bzr-bzl);
#ifdef ISOTHERMAL
  dU[4] = byr-byl; dU[5] = bzr-bzl;
  dF[4] = byr*vxr - bx*vyr - byl*vxl + bx*vyl; dF[5] = bzr*vxr - bx*vzr - bzl*vxl + bx*vzl;
  esys_roe_iso_mhd(d, v1, v2, v3, bx, b2, b3, x, y, ev, rem, lem);
#else
  dF[4] -= bx*(bx*vxr+byr*vyr+bzr*vzr) - bx*(bx*vxl+byl*vyl+bzl*vzl);
  dU[5] = byr-byl; dU[6] = bzr-bzl;
  dF[5] = byr*vxr - bx*vyr - byl*vxl + bx*vyl; dF[6] = bzr*vxr - bx*vzr - bzl*vxl + bx*vzl;
  esys_roe_adb_mhd(d, v1, v2, v3, h, bx, b2, b3, x, y, ev, rem, lem);
#endif
#else
#ifdef ISOTHERMAL
  esys_roe_iso_hyd(v1, v2, v3, ev, rem, lem);
#else
  esys_roe_adb_hyd(v1, v2, v3, h, ev, rem, lem);
#endif
#endif
#ifndef ISOTHERMAL
  *hq = h - 0.5*(v1*v1+v2*v2+v3*v3);
#ifdef MHD
  *hq = *hq - (bx*bx+b2*b2+b3*b3)/d;
#endif
#endif
  idents(ev, rem, lem, A, lr, ar);
  for (i=0; i<N; i++) { aw[i] = 0.0; for (j=0; j<N; j++) aw[i] += lem[i][j]*dU[j]; }
  for (i=0; i<N; i++) {
    Real s = 0.0;
    for (j=0; j<N; j++) s += rem[i][j]*ev[j]*aw[j];
    roe[i] = s - dF[i];
  }
  for (i=0; i<N; i++) evo[i] = ev[i];
}
