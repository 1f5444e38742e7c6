/* ghost code: identities of the prolongation operators (parsed together with the real source) */
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef MHD
void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3], const Real dx1c, const Real dx2c, const Real dx3c);
#define AT(b,n,m,l,c) b[(((n)*3+(m))*3+(l))*3+(c)]
/* s1,s2,s3 = 1: the axes are cycled before the call and the result cycled back (s = 0: as is, 1: cyclic, 2: exchange of 1 and 2) */
static void load(int how, int two, Real *b, Real3Vect B[3][3][3])
{
  int n, m, l;
  for (n=0; n<3; n++) for (m=0; m<3; m++) for (l=0; l<3; l++) {
    int k = two ? 0 : n;
    if (how == 0) { B[n][m][l].x1 = AT(b,k,m,l,0); B[n][m][l].x2 = AT(b,k,m,l,1); B[n][m][l].x3 = AT(b,k,m,l,2); }
    /* cyclic: new axis 1 = old axis 2, new 2 = old 3, new 3 = old 1 */
    if (how == 1) { B[l][n][m].x1 = AT(b,k,m,l,1); B[l][n][m].x2 = AT(b,k,m,l,2); B[l][n][m].x3 = AT(b,k,m,l,0); }
    if (how == 2) { B[n][l][m].x1 = AT(b,k,m,l,1); B[n][l][m].x2 = AT(b,k,m,l,0); B[n][l][m].x3 = AT(b,k,m,l,2); }
  }
}
static void zero(Real3Vect B[3][3][3])
{
  int n, m, l;
  for (n=0; n<3; n++) for (m=0; m<3; m++) for (l=0; l<3; l++) { B[n][m][l].x1 = 0.0; B[n][m][l].x2 = 0.0; B[n][m][l].x3 = 0.0; }
}
static void preset(int f, Real *p, Real3Vect F[3][3][3])
{
  int a, b;
  for (a=0; a<2; a++) for (b=0; b<2; b++) {
    if (f == 0) F[a][b][0].x1 = p[2*a+b];
    if (f == 1) F[a][b][2].x1 = p[2*a+b];
    if (f == 2) F[a][0][b].x2 = p[2*a+b];
    if (f == 3) F[a][2][b].x2 = p[2*a+b];
    if (f == 4) F[0][a][b].x3 = p[2*a+b];
    if (f == 5) F[2][a][b].x3 = p[2*a+b];
  }
}
/* o[0..7]: 8 * (net outward field flux of each fine cell) minus that of the whole block;
   o[8..13]: sum of the four fine faces minus 4 * the coarse face (or: the value already there) */
void spec_profld(int f, int two, Real *b, Real *p, Real d1, Real d2, Real d3, Real *o)
{
  Real3Vect B[3][3][3], F[3][3][3];
  int n, m, l, c;
  Real tot = 0.0;
  load(0, two, b, B); zero(F); preset(f, p, F);
  ProFld(B, F, d1, d2, d3);
  for (n=0; n<2; n++) for (m=0; m<2; m++)
    tot += d2*d3*(F[n][m][2].x1 - F[n][m][0].x1) + d1*d3*(F[n][2][m].x2 - F[n][0][m].x2) + d1*d2*(F[2][n][m].x3 - F[0][n][m].x3);
  c = 0;
  for (n=0; n<2; n++) for (m=0; m<2; m++) for (l=0; l<2; l++) {
    o[c] = 8.0*(d2*d3*(F[n][m][l+1].x1 - F[n][m][l].x1) + d1*d3*(F[n][m+1][l].x2 - F[n][m][l].x2) + d1*d2*(F[n+1][m][l].x3 - F[n][m][l].x3)) - tot;
    c++;
  }
  for (l=0; l<2; l++) {
    Real w1 = 0.0, w2 = 0.0, w3 = 0.0;
    for (n=0; n<2; n++) for (m=0; m<2; m++) {
      w1 += F[n][m][2*l].x1 - (f == l   ? p[2*n+m] : B[1][1][1+l].x1);
      w2 += F[n][2*l][m].x2 - (f == 2+l ? p[2*n+m] : B[1][1+l][1].x2);
      w3 += F[2*l][n][m].x3 - (f == 4+l ? p[2*n+m] : B[1+l][1][1].x3);
    }
    o[8+l] = w1; o[10+l] = w2; o[12+l] = w3;
  }
  c = 14;
  for (n=0; n<2; n++) for (m=0; m<2; m++) {
    Real v = 0.0;
    if (f == 0) v = F[n][m][0].x1 - p[2*n+m];
    if (f == 1) v = F[n][m][2].x1 - p[2*n+m];
    if (f == 2) v = F[n][0][m].x2 - p[2*n+m];
    if (f == 3) v = F[n][2][m].x2 - p[2*n+m];
    if (f == 4) v = F[0][n][m].x3 - p[2*n+m];
    if (f == 5) v = F[2][n][m].x3 - p[2*n+m];
    o[c] = v; c++;
  }
}
/* result with relabelled axes minus relabelled result */
void spec_properm(int how, Real *b, Real d1, Real d2, Real d3, Real *o)
{
  Real3Vect B[3][3][3], F[3][3][3], G[3][3][3], H[3][3][3];
  int n, m, l, c = 0;
  load(0, 0, b, B); zero(F);
  ProFld(B, F, d1, d2, d3);
  load(how, 0, b, H); zero(G);
  if (how == 1) ProFld(H, G, d2, d3, d1);
  if (how == 2) ProFld(H, G, d2, d1, d3);
  for (n=0; n<2; n++) for (m=0; m<2; m++) for (l=0; l<3; l++) {
    if (how == 1) {
      o[c] = F[n][m][l].x1 - G[l][n][m].x3; c++;
      o[c] = F[n][l][m].x2 - G[m][n][l].x1; c++;
      o[c] = F[l][n][m].x3 - G[m][l][n].x2; c++;
    }
    if (how == 2) {
      o[c] = F[n][m][l].x1 - G[n][l][m].x2; c++;
      o[c] = F[n][l][m].x2 - G[n][m][l].x1; c++;
      o[c] = F[l][n][m].x3 - G[l][m][n].x3; c++;
    }
  }
}
/* data linear in space (fields at face centres, unit coarse spacing d1,d2,d3): the fine faces hold the linear function; lin[3*c+a] = dB_c/dx_a, lin[9+c] = constant */
void spec_prolin(Real *q, Real d1, Real d2, Real d3, Real *o)
{
  Real3Vect B[3][3][3], F[3][3][3];
  int n, m, l, c = 0;
  for (n=0; n<3; n++) for (m=0; m<3; m++) for (l=0; l<3; l++) {
    Real x = (l-1)*d1, y = (m-1)*d2, z = (n-1)*d3;       /* centre of the coarse cell; the block is cell 1,1,1 */
    B[n][m][l].x1 = q[9]  + q[0]*(x-0.5*d1) + q[1]*y + q[2]*z;
    B[n][m][l].x2 = q[10] + q[3]*x + q[4]*(y-0.5*d2) + q[5]*z;
    B[n][m][l].x3 = q[11] + q[6]*x + q[7]*y + q[8]*(z-0.5*d3);
  }
  zero(F);
  ProFld(B, F, 0.5*d1, 0.5*d2, 0.5*d3);
  for (n=0; n<2; n++) for (m=0; m<2; m++) for (l=0; l<3; l++) {
    o[c] = F[n][m][l].x1 - (q[9]  + q[0]*(0.5*l-0.5)*d1 + q[1]*(0.5*m-0.25)*d2 + q[2]*(0.5*n-0.25)*d3); c++;
    o[c] = F[n][l][m].x2 - (q[10] + q[3]*(0.5*m-0.25)*d1 + q[4]*(0.5*l-0.5)*d2 + q[5]*(0.5*n-0.25)*d3); c++;
    o[c] = F[l][n][m].x3 - (q[11] + q[6]*(0.5*m-0.25)*d1 + q[7]*(0.5*n-0.25)*d2 + q[8]*(0.5*l-0.5)*d3); c++;
  }
}
#endif
void ProCon(const ConsS Uim1,const ConsS Ui,  const ConsS Uip1, const ConsS Ujm1,const ConsS Ujp1, const ConsS Ukm1,const ConsS Ukp1, ConsS PCon[][2][2]);
static Real eint(ConsS u)
{
#ifdef BAROTROPIC
  return 0.0;
#else
  Real e = u.E - 0.5*(u.M1*u.M1 + u.M2*u.M2 + u.M3*u.M3)/u.d;
#ifdef MHD
  e -= 0.5*(u.B1c*u.B1c + u.B2c*u.B2c + u.B3c*u.B3c);
#endif
  return e;
#endif
}
static Real comp(ConsS u, int c)
{
  if (c == 0) return u.d;
  if (c == 1) return u.M1;
  if (c == 2) return u.M2;
  if (c == 3) return u.M3;
#ifndef BAROTROPIC
  if (c == 4) return eint(u);
#endif
#ifdef MHD
  if (c == 5) return u.B1c;
  if (c == 6) return u.B2c;
  if (c == 7) return u.B3c;
#endif
#if (NSCALARS > 0)
  if (c == 8) return u.s[0];
#endif
  return 0.0;
}
/* o[c]: sum of component c over the children minus 8 * the parent's (internal energy for c = 4) */
void spec_procon(ConsS a, ConsS b, ConsS c, ConsS d, ConsS e, ConsS f, ConsS g, Real *o)
{
  ConsS W[2][2][2]; int n, m, l, q;
  ProCon(a, b, c, d, e, f, g, W);
  for (q=0; q<9; q++) {
    Real s = 0.0;
    for (n=0; n<2; n++) for (m=0; m<2; m++) for (l=0; l<2; l++) s += comp(W[n][m][l], q);
    o[q] = s - 8.0*comp(b, q);
  }
}
void spec_proconperm(int how, ConsS a, ConsS b, ConsS c, ConsS d, ConsS e, ConsS f, ConsS g, Real *o)
{
  ConsS W[2][2][2], V[2][2][2]; int n, m, l, q, z = 0;
  ProCon(a, b, c, d, e, f, g, W);
  if (how == 1) ProCon(d, b, e, f, g, a, c, V);      /* new 1,2,3 = old 2,3,1 */
  if (how == 2) ProCon(d, b, e, a, c, f, g, V);      /* exchange of 1 and 2 */
  if (how == 3) ProCon(c, b, a, d, e, f, g, V);      /* mirror in 1 */
  for (n=0; n<2; n++) for (m=0; m<2; m++) for (l=0; l<2; l++) for (q=0; q<9; q++) {
    o[z] = comp(W[n][m][l], q) - (how == 1 ? comp(V[l][n][m], q) : how == 2 ? comp(V[n][l][m], q) : comp(V[n][m][1-l], q));
    z++;
  }
}
static ConsS fill(Real *p)
{
  ConsS u;
  u.d = p[0]; u.M1 = p[1]; u.M2 = p[2]; u.M3 = p[3];
#ifdef MHD
  u.B1c = p[5]; u.B2c = p[6]; u.B3c = p[7];
#endif
#ifndef BAROTROPIC
  u.E = p[4] + 0.5*(p[1]*p[1] + p[2]*p[2] + p[3]*p[3])/p[0];
#ifdef MHD
  u.E += 0.5*(p[5]*p[5] + p[6]*p[6] + p[7]*p[7]);
#endif
#endif
#if (NSCALARS > 0)
  u.s[0] = p[8];
#endif
  return u;
}
/* components linear in space (internal energy density rather than total energy): q[4*c] constant, q[4*c+1..3] differences per coarse cell */
static ConsS lin(Real *q, Real x, Real y, Real z)
{
  Real p[9]; int c;
  for (c=0; c<9; c++) p[c] = q[4*c] + q[4*c+1]*x + q[4*c+2]*y + q[4*c+3]*z;
  return fill(p);
}
void spec_proconlin(Real *q, Real *o)
{
  ConsS W[2][2][2]; int n, m, l, c, z = 0;
  ProCon(lin(q,-1,0,0), lin(q,0,0,0), lin(q,1,0,0), lin(q,0,-1,0), lin(q,0,1,0), lin(q,0,0,-1), lin(q,0,0,1), W);
  for (n=0; n<2; n++) for (m=0; m<2; m++) for (l=0; l<2; l++) {
    ConsS w = lin(q, 0.5*l-0.25, 0.5*m-0.25, 0.5*n-0.25);
    for (c=0; c<9; c++) { o[z] = comp(W[n][m][l], c) - comp(w, c); z++; }
  }
}
