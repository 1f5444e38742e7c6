/* replay: totals of conserved quantities and div B over real integrator steps with periodic boundaries.
   argv: nx1 nx2 nx3 seed steps mode(0 both,1 totals,2 divB) amp */
#include <unistd.h>
#include <stdarg.h>
#include "ath.h"
static double rad(GridS *g, int i) {
#ifdef CYLINDRICAL
  return g->r[i];
#else
  return 1.0;
#endif
}
static double radi(GridS *g, int i) {
#ifdef CYLINDRICAL
  return g->ri[i];
#else
  return 1.0;
#endif
}
int main(int argc, char **argv)
{
  MeshS M;
  VDFun_t Integrate;
  DomainS *pD; GridS *pG;
  int i, j, k, n, it, N[3], mode, dim;
  double tot0[NCONS], tot1[NCONS], ab[NCONS], amp;
  double *div0;
  memset(&M, 0, sizeof(M));
  for (n = 0; n < 3; n++) N[n] = atoi(argv[1+n]);
  dim = (N[0]>1)+(N[1]>1)+(N[2]>1);
  rseed(atol(argv[4]));
  mode = atoi(argv[6]); amp = atof(argv[7]);
#ifdef CYLINDRICAL
  X0[0] = 1.0; X1[0] = 2.0;
#endif
  pars(N[0], N[1], N[2], 4);
  init_mesh(&M); init_grid(&M);
  pD = &M.Domain[0][0]; pG = pD->Grid;
  random_state(pD, amp, 1);
  bvals_mhd_init(&M); bvals_mhd(pD);
  lr_states_init(&M);
  Integrate = integrate_init(&M);
  div0 = (double*)calloc((size_t)N[0]*N[1]*N[2], sizeof(double));
#define IDX ((size_t)((k-pG->ks)*N[1]+(j-pG->js))*N[0]+(i-pG->is))
  for (it = 0; it <= atoi(argv[5]); it++) {
    double dmax = 0.0;
    for (n = 0; n < NCONS; n++) tot1[n] = 0.0;
    if (it == 0) for (n = 0; n < NCONS; n++) ab[n] = 0.0;
    for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++) {
      Real *u = (Real*)&pG->U[k][j][i];
      for (n = 0; n < NCONS; n++) { if (!(u[n] == u[n])) { printf("NAN\n"); return 3; } tot1[n] += u[n]*rad(pG,i); if (it == 0) ab[n] += fabs(u[n])*rad(pG,i); }
#ifdef MHD
      if (dim > 1) {
        double d = (radi(pG,i+1)*pG->B1i[k][j][i+1] - radi(pG,i)*pG->B1i[k][j][i]) / pG->dx1 / rad(pG,i)
                 + (pG->B2i[k][j+1][i] - pG->B2i[k][j][i]) / pG->dx2 / rad(pG,i);
        if (dim > 2) d += (pG->B3i[k+1][j][i] - pG->B3i[k][j][i]) / pG->dx3;
        if (it == 0) div0[IDX] = d;
        if (fabs(d - div0[IDX]) > dmax) dmax = fabs(d - div0[IDX]);
        if (mode != 1 && it > 0) {
          double c1 = 0.5*(pG->B1i[k][j][i] + pG->B1i[k][j][i+1]), c2 = 0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]);
#ifdef CYLINDRICAL
          c1 = 0.5*(pG->ri[i]*pG->B1i[k][j][i] + pG->ri[i+1]*pG->B1i[k][j][i+1])/pG->r[i];
#endif
          if (fabs(pG->U[k][j][i].B1c - c1) > 1e-12) fail("cell-centred B1 %.17g != face average %.17g at step %d cell (%d,%d,%d)", pG->U[k][j][i].B1c, c1, it, i, j, k);
          if (fabs(pG->U[k][j][i].B2c - c2) > 1e-12) fail("cell-centred B2 %.17g != face average %.17g at step %d cell (%d,%d,%d)", pG->U[k][j][i].B2c, c2, it, i, j, k);
          if (dim > 2) {
            double c3 = 0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]);
            if (fabs(pG->U[k][j][i].B3c - c3) > 1e-12) fail("cell-centred B3 %.17g != face average %.17g at step %d cell (%d,%d,%d)", pG->U[k][j][i].B3c, c3, it, i, j, k);
          }
        }
      }
#endif
    }
    if (it == 0) for (n = 0; n < NCONS; n++) tot0[n] = tot1[n];
    else {
      if (mode != 2) for (n = 0; n < NCONS; n++) {
#ifdef CYLINDRICAL
        if (n >= 1 && n < 3) continue;      /* momenta have geometric source terms */
#ifdef MHD
        continue;
#endif
#endif
        if (fabs(tot1[n] - tot0[n]) > 1e-11 * (ab[n] + N[0]*N[1]*N[2]*0.1)) fail("step %d: total of conserved variable #%d (order of ConsS) changed by %.6e (sum |u| %.6e)", it, n, tot1[n]-tot0[n], ab[n]);
      }
      if (mode != 1 && dmax > 1e-9) fail("step %d: div B of some cell changed by %.6e", it, dmax);
    }
    if (it == atoi(argv[5])) break;
    new_dt(&M);
    (*Integrate)(pD);
    M.time += M.dt; pG->time = M.time; M.nstep++;
    bvals_mhd(pD);
  }
  return done();
}
