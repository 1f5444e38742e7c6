/* one explicit diffusion step of the compiled code; NU=1: isotropic only, 2: anisotropic only, else both */
#ifndef KIND
#define KIND 3
#endif
#ifndef HALL
#define HALL 0
#endif
#include "microphysics/prototypes.h"
#ifdef RESISTIVITY
static double eta_grad[4]; static int use_lin = 0;
static void eta_lin(GridS *pG, int i, int j, int k, Real *o, Real *h, Real *a)
{
  Real x1, x2, x3, b2 = SQR(pG->U[k][j][i].B1c) + SQR(pG->U[k][j][i].B2c) + SQR(pG->U[k][j][i].B3c);
  cc_pos(pG, i, j, k, &x1, &x2, &x3);
  *o = eta_Ohm*(eta_grad[0] == 0 ? 1.0 : eta_grad[0] + eta_grad[1]*x1 + eta_grad[2]*x2 + eta_grad[3]*x3);
  *h = Q_Hall*sqrt(b2); *a = Q_AD;
}
#endif
static void diffstep(MeshS *M, double dt)
{
  GridS *pG = M->Domain[0][0].Grid;
#ifdef VISCOSITY
  nu_iso = KIND & 1 ? 0.7 : 0.0; nu_aniso = KIND & 2 ? 0.9 : 0.0;
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso = KIND & 1 ? 0.6 : 0.0; kappa_aniso = KIND & 2 ? 0.8 : 0.0;
#endif
#ifdef RESISTIVITY
  eta_Ohm = KIND & 1 ? 0.5 : 0.0; Q_AD = KIND & 2 ? 0.4 : 0.0; Q_Hall = HALL ? 0.3 : 0.0;
#endif
  integrate_diff_init(M);
#ifdef RESISTIVITY
  if (use_lin) get_myeta = eta_lin;
#endif
  new_dt_diff(M);
  pG->dt = M->dt = dt;
  integrate_diff(M);
  integrate_diff_destruct();
}
