/* replay: physical boundary conditions through bvals_mhd_init()/bvals_mhd().
   argv: n1 n2 n3 seed bcix1 bcox1 bcix2 bcox2 bcix3 bcox3 */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
static int lo[3], hi[3], N[3], bc[6];
/* image of cell index c in direction d; *s: sign for quantities odd in the normal momentum / normal B / tangential B; returns index, -1: zero */
static int cimg(int d, int c, int *sM, int *sBn, int *sBt)
{
  int b;
  *sM = *sBn = *sBt = 1;
  if (c >= lo[d] && c <= hi[d]) return c;
  b = bc[2*d + (c > hi[d])];
  if (b == 4) return c < lo[d] ? c + N[d] : c - N[d];
  if (b == 2) return c < lo[d] ? lo[d] : hi[d];
  *sM = -1; if (b == 1) *sBn = -1; else *sBt = -1;
  return c < lo[d] ? 2*lo[d] - 1 - c : 2*hi[d] + 1 - c;
}
/* image of normal face f */
static int fimg(int d, int f, int *s)
{
  int b;
  *s = 1;
  if (f == lo[d]) { if (bc[2*d] == 1) *s = 0; return f; }
  if (f == hi[d] + 1) { if (bc[2*d+1] == 1) *s = 0; return f; }
  if (f > lo[d] && f <= hi[d]) return f;
  b = bc[2*d + (f > hi[d])];
  if (b == 4) return f < lo[d] ? f + N[d] : f - N[d];
  if (b == 2) return f < lo[d] ? lo[d] : hi[d];
  if (b == 1) *s = -1;
  return f < lo[d] ? 2*lo[d] - f : 2*(hi[d]+1) - f;
}
int main(int argc, char **argv)
{
  static MeshS M;
  DomainS *pD; GridS *pG;
  int i, j, k, n, d, n1, n2, n3;
  ConsS *U0; double *B0[3]; char key[16];
  for (d = 0; d < 3; d++) N[d] = atoi(argv[1+d]);
  rseed(atol(argv[4]));
  for (d = 0; d < 6; d++) bc[d] = atoi(argv[5+d]);
#ifdef CYLINDRICAL
  X0[0] = 1.0; X1[0] = 2.0;
#endif
  pars(N[0], N[1], N[2], 4);
  for (d = 0; d < 3; d++) {
    sprintf(key, "bc_ix%d", d+1); par_seti("domain1", key, "%d", bc[2*d], "");
    sprintf(key, "bc_ox%d", d+1); par_seti("domain1", key, "%d", bc[2*d+1], "");
  }
  init_mesh(&M); init_grid(&M);
  pD = &M.Domain[0][0]; pG = pD->Grid;
  lo[0] = pG->is; hi[0] = pG->ie; lo[1] = pG->js; hi[1] = pG->je; lo[2] = pG->ks; hi[2] = pG->ke;
  n1 = N[0] > 1 ? N[0] + 2*nghost : 1; n2 = N[1] > 1 ? N[1] + 2*nghost : 1; n3 = N[2] > 1 ? N[2] + 2*nghost : 1;
#define ID(k,j,i) (((size_t)(k)*n2 + (j))*n1 + (i))
  U0 = calloc((size_t)n1*n2*n3, sizeof(ConsS));
  for (d = 0; d < 3; d++) B0[d] = calloc((size_t)n1*n2*n3, sizeof(double));
  for (k = 0; k < n3; k++) for (j = 0; j < n2; j++) for (i = 0; i < n1; i++) {
    for (n = 0; n < NCONS; n++) ((Real*)&pG->U[k][j][i])[n] = sym(1.0);
    U0[ID(k,j,i)] = pG->U[k][j][i];
#ifdef MHD
    B0[0][ID(k,j,i)] = pG->B1i[k][j][i] = sym(1.0); B0[1][ID(k,j,i)] = pG->B2i[k][j][i] = sym(1.0); B0[2][ID(k,j,i)] = pG->B3i[k][j][i] = sym(1.0);
#endif
  }
  bvals_mhd_init(&M); bvals_mhd(pD);
  for (k = 0; k < n3; k++) for (j = 0; j < n2; j++) for (i = 0; i < n1; i++) {
    int c[3], m[3], sM[3], sn[3], st[3], e;
    ConsS x; Real *a = (Real*)&pG->U[k][j][i], *b = (Real*)&x;
    c[0] = i; c[1] = j; c[2] = k;
    for (d = 0; d < 3; d++) { sM[d] = sn[d] = st[d] = 1; m[d] = N[d] > 1 ? cimg(d, c[d], &sM[d], &sn[d], &st[d]) : c[d]; }
    x = U0[ID(m[2],m[1],m[0])];
    x.M1 *= sM[0]; x.M2 *= sM[1]; x.M3 *= sM[2];
#ifdef MHD
    x.B1c *= sn[0]*st[1]*st[2]; x.B2c *= st[0]*sn[1]*st[2]; x.B3c *= st[0]*st[1]*sn[2];
#endif
    for (n = 0; n < NCONS; n++) if (a[n] != b[n]) fail("cell (%d,%d,%d) of active [%d..%d][%d..%d][%d..%d]: variable %d is %g, expected the value %g of the image cell (%d,%d,%d)", i, j, k, lo[0],hi[0],lo[1],hi[1],lo[2],hi[2], n, a[n], b[n], m[0], m[1], m[2]);
#ifdef MHD
    for (e = 0; e < 3; e++) {
      int q[3], s = 1, t, skip = 0; double v = e == 0 ? pG->B1i[k][j][i] : e == 1 ? pG->B2i[k][j][i] : pG->B3i[k][j][i], w;
      for (d = 0; d < 3; d++) {
        q[d] = c[d];
        if (N[d] == 1) continue;
        if (d == e) { if (c[d] == lo[d] - nghost) { skip = 1; break; }       /* this face is not set */
          q[d] = fimg(d, c[d], &t); s *= t; }
        else { q[d] = m[d]; s *= st[d]; }
      }
      if (skip) continue;
      w = s ? s*B0[e][ID(q[2],q[1],q[0])] : 0.0;
      if (v != w) fail("face field B%di at (%d,%d,%d): %g expected %g (image (%d,%d,%d), sign %d)", e+1, i, j, k, v, w, q[0], q[1], q[2], s);
    }
#endif
  }
  return done();
}
