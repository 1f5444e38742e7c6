/* ghost code: what the particle routines must satisfy (parsed together with the real source) */
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#include "particles/prototypes.h"
Real3Vect Get_Drag(GridS *pG, int type, Real x1, Real x2, Real x3, Real v1, Real v2, Real v3, Real3Vect cell1, Real *tstop1);
Real3Vect Get_Force(GridS *pG, Real x1, Real x2, Real x3, Real v1, Real v2, Real v3);
void JudgeCrossing(GridS *pG, Real x1, Real x2, Real x3, GrainS *gr);
/* uninterpreted: inverse stopping time, gas velocity, user force per mass at a position */
Real gK(Real x1, Real x2, Real x3);
Real gU(int d, Real x1, Real x2, Real x3);
Real gF(int d, Real x1, Real x2, Real x3);

/* o[0]: sum of the weights - 1; o[1..3]: interpolated cell-centre position - particle position (grid units);
   o[4..6]: same for the square (d: 1 where it must vanish); o[7..33]: the weights; o[34..36]: positions in cell units */
void spec_weight(int how, GridS *pG, Real x1, Real x2, Real x3, Real3Vect cell1, Real *o)
{
  Real w[3][3][3], s = 0.0, p[3], m[3], q[3], a[3]; int is, js, ks, i, j, k, n, z = 7;
  n = how == 1 ? 2 : 3;
  if (how == 1) getwei_linear(pG, x1, x2, x3, cell1, w, &is, &js, &ks);
  if (how == 2) getwei_TSC(pG, x1, x2, x3, cell1, w, &is, &js, &ks);
  if (how == 3) getwei_QP(pG, x1, x2, x3, cell1, w, &is, &js, &ks);
  for (i=0; i<3; i++) { m[i] = 0.0; q[i] = 0.0; }
  /* the centre of cell i lies at i+1/2; a dropped axis has only its one cell */
  p[0] = cell1.x1 > 0.0 ? (x1 - pG->MinX[0])*cell1.x1 + pG->is : pG->is + 0.5;
  p[1] = cell1.x2 > 0.0 ? (x2 - pG->MinX[1])*cell1.x2 + pG->js : pG->js + 0.5;
  p[2] = cell1.x3 > 0.0 ? (x3 - pG->MinX[2])*cell1.x3 + pG->ks : pG->ks + 0.5;
  for (k=0; k<n; k++) for (j=0; j<n; j++) for (i=0; i<n; i++) {
    a[0] = is + i + 0.5 - p[0]; a[1] = js + j + 0.5 - p[1]; a[2] = ks + k + 0.5 - p[2];
    s += w[k][j][i];
    m[0] += w[k][j][i]*a[0]; m[1] += w[k][j][i]*a[1]; m[2] += w[k][j][i]*a[2];
    q[0] += w[k][j][i]*a[0]*a[0]; q[1] += w[k][j][i]*a[1]*a[1]; q[2] += w[k][j][i]*a[2]*a[2];
    o[z] = w[k][j][i]; z++;
  }
  o[0] = s - 1.0;
  for (i=0; i<3; i++) { o[1+i] = m[i]; o[4+i] = q[i]; o[34+i] = p[i]; }
}
/* interpolated values times total weight minus weighted sums */
void spec_values(int n, GridS *pG, Real w[3][3][3], int is, int js, int ks, Real *o)
{
  Real r = 0.0, u1 = 0.0, u2 = 0.0, u3 = 0.0, c = 0.0, st = 0.0, t = 0.0, s[6]; int i, j, k, ok; GPCouple *q;
  for (i=0; i<6; i++) s[i] = 0.0;
#ifdef FEEDBACK
  ok = getvalues(pG, w, is, js, ks, &r, &u1, &u2, &u3, &c, &st);
#else
  ok = getvalues(pG, w, is, js, ks, &r, &u1, &u2, &u3, &c);
#endif
  for (k=0; k<n; k++) for (j=0; j<n; j++) for (i=0; i<n; i++) {
    q = &(pG->Coup[ks+k][js+j][is+i]);
    t += w[k][j][i];
    s[0] += w[k][j][i]*q->grid_d; s[1] += w[k][j][i]*q->grid_v1; s[2] += w[k][j][i]*q->grid_v2; s[3] += w[k][j][i]*q->grid_v3;
#ifndef ISOTHERMAL
    s[4] += w[k][j][i]*q->grid_cs;
#endif
#ifdef FEEDBACK
    s[5] += w[k][j][i]*q->FBstiff;
#endif
  }
  o[0] = t; o[1] = ok;
  o[2] = r*t - s[0]; o[3] = u1*t - s[1]; o[4] = u2*t - s[2]; o[5] = u3*t - s[3];
#ifdef ISOTHERMAL
  o[6] = c - Iso_csound;
#else
  o[6] = c*t - s[4];
#endif
  o[7] = st*t - s[5];
}
#ifdef FEEDBACK
/* change of the force in cell (ks+c,js+b,is+a), minus weight times force; what: 0 corrector, 1 predictor */
void spec_distr(int what, GridS *pG, Real w[3][3][3], int is, int js, int ks, Real3Vect fb, Real E, Real S, int c, int b, int a, Real *o)
{
  GPCouple q, r;
  q = pG->Coup[ks+c][js+b][is+a];
#ifndef BAROTROPIC
  if (what) distrFB_pred(pG, w, is, js, ks, fb, S, E);
#else
  if (what) distrFB_pred(pG, w, is, js, ks, fb, S);
#endif
  else distrFB_corr(pG, w, is, js, ks, fb, E);
  r = pG->Coup[ks+c][js+b][is+a];
  o[0] = r.fb1 - q.fb1 - w[c][b][a]*fb.x1; o[1] = r.fb2 - q.fb2 - w[c][b][a]*fb.x2; o[2] = r.fb3 - q.fb3 - w[c][b][a]*fb.x3;
  o[3] = 0.0; o[4] = 0.0;
#ifndef BAROTROPIC
  o[3] = r.Eloss - q.Eloss - w[c][b][a]*E;
#endif
  if (what) o[4] = r.FBstiff - q.FBstiff - w[c][b][a]*S;
}
/* a cell outside the stencil */
void spec_distr_frame(int what, GridS *pG, Real w[3][3][3], int is, int js, int ks, Real3Vect fb, Real E, Real S, int k, int j, int i, Real *o)
{
  GPCouple q, r;
  q = pG->Coup[k][j][i];
#ifndef BAROTROPIC
  if (what) distrFB_pred(pG, w, is, js, ks, fb, S, E);
#else
  if (what) distrFB_pred(pG, w, is, js, ks, fb, S);
#endif
  else distrFB_corr(pG, w, is, js, ks, fb, E);
  r = pG->Coup[k][j][i];
  o[0] = r.fb1 - q.fb1; o[1] = r.fb2 - q.fb2; o[2] = r.fb3 - q.fb3; o[3] = r.Eloss - q.Eloss; o[4] = r.FBstiff - q.FBstiff;
}
/* recorded by the contract of the deposition */
Real ghost_fb[5];
void spec_back(GridS *pG, GrainS *a, GrainS *b, Real3Vect cell1, Real dv1, Real dv2, Real dv3, Real ts, Real *o)
{
  Real3Vect f; Real m = grproperty[a->property].m;
  f = Get_Force(pG, 0.5*(a->x1+b->x1), 0.5*(a->x2+b->x2), 0.5*(a->x3+b->x3), 0.5*(a->v1+b->v1), 0.5*(a->v2+b->v2), 0.5*(a->v3+b->v3));
  feedback_corrector(pG, a, b, cell1, dv1, dv2, dv3, ts);
  o[0] = ghost_fb[0] - m*(dv1 - pG->dt*f.x1);
  o[1] = ghost_fb[1] - m*(dv2 - pG->dt*f.x2);
  o[2] = ghost_fb[2] - m*(dv3 - pG->dt*f.x3);
}
#endif
void spec_gas(GridS *pG, int k, int j, int i, Real *o)
{
  ConsS u = pG->U[k][j][i]; GPCouple q;
  get_gasinfo(pG);
  q = pG->Coup[k][j][i];
  o[0] = q.grid_d - u.d; o[1] = u.d*q.grid_v1 - u.M1; o[2] = u.d*q.grid_v2 - u.M2; o[3] = u.d*q.grid_v3 - u.M3; o[4] = 0.0;
#ifdef ADIABATIC
  { Real p = u.E - 0.5*(u.M1*u.M1 + u.M2*u.M2 + u.M3*u.M3)/u.d;
#ifdef MHD
  p -= 0.5*(u.B1c*u.B1c + u.B2c*u.B2c + u.B3c*u.B3c);
#endif
  p = p*Gamma_1;
  if (p > TINY_NUMBER) o[4] = q.grid_cs*q.grid_cs*u.d - Gamma*p; }
#endif
}
/* acceleration other than drag: user force, Coriolis force and tide in the shearing sheet (dir: the axis along the orbit) */
static Real rest(int d, Real *x, Real *v)
{
  Real f = gF(d, x[0], x[1], x[2]);
#ifdef SHEARING_BOX
  int y = ShBoxCoord == xy ? 1 : 2;
#ifdef FARGO
  if (d == 0) f += 2.0*Omega_0*v[y];
  if (d == y) f -= (2.0-qshear)*Omega_0*v[0];
#else
  if (d == 0) f += 2.0*Omega_0*v[y] + 2.0*qshear*Omega_0*Omega_0*x[0];
  if (d == y) f -= 2.0*Omega_0*v[0];
#endif
#endif
  return f;
}
void spec_force(GridS *pG, Real x1, Real x2, Real x3, Real v1, Real v2, Real v3, Real *o)
{
  Real3Vect f = Get_Force(pG, x1, x2, x3, v1, v2, v3); Real x[3], v[3];
  x[0] = x1; x[1] = x2; x[2] = x3; v[0] = v1; v[1] = v2; v[2] = v3;
  o[0] = f.x1 - rest(0, x, v); o[1] = f.x2 - rest(1, x, v); o[2] = f.x3 - rest(2, x, v);
}
static void acc(Real *x, Real *v, Real *f)
{
  int d;
  for (d=0; d<3; d++) f[d] = rest(d, x, v) - gK(x[0],x[1],x[2])*(v[d] - gU(d,x[0],x[1],x[2]));
}
/* homogeneous (velocity-dependent) part of the acceleration applied to w at position x */
static void lin(Real *x, Real *w, Real *f)
{
  Real z[3], a[3], b[3]; int d;
  for (d=0; d<3; d++) z[d] = 0.0;
  acc(x, w, a); acc(x, z, b);
  for (d=0; d<3; d++) f[d] = a[d] - b[d];
}
/* the velocity change returned by the integrators against the defining equation of each scheme:
   1 explicit midpoint rule; 2 implicit midpoint rule at the predicted mid position; 3 implicit two-stage scheme */
void spec_integ(int how, GridS *pG, GrainS *g, Real3Vect cell1, Real *o)
{
  Real dv[3], ts, x[3], v[3], xp[3], w[3], f[3], h = pG->dt, c; int d;
  x[0] = g->x1; x[1] = g->x2; x[2] = g->x3; v[0] = g->v1; v[1] = g->v2; v[2] = g->v3;
  c = how == 3 ? h : 0.5*h;
  for (d=0; d<3; d++) xp[d] = pG->Nx[d] > 1 ? x[d] + c*v[d] : x[d];
  if (how == 1) int_par_exp(pG, g, cell1, &dv[0], &dv[1], &dv[2], &ts);
  if (how == 2) int_par_semimp(pG, g, cell1, &dv[0], &dv[1], &dv[2], &ts);
  if (how == 3) int_par_fulimp(pG, g, cell1, &dv[0], &dv[1], &dv[2], &ts);
  if (how == 1) {
    acc(x, v, f);
    for (d=0; d<3; d++) w[d] = v[d] + 0.5*h*f[d];
    acc(xp, w, f);
    for (d=0; d<3; d++) o[d] = dv[d] - h*f[d];
  }
  if (how == 2) {
    for (d=0; d<3; d++) w[d] = v[d] + 0.5*dv[d];
    acc(xp, w, f);
    for (d=0; d<3; d++) o[d] = dv[d] - h*f[d];
  }
  if (how == 3) {
    Real fc[3], fp[3], a[3], b[3], e[3], t[3];
    acc(x, v, fc); acc(xp, v, fp);
    lin(x, dv, a); lin(xp, dv, b); lin(x, b, e); lin(x, fp, t);
    for (d=0; d<3; d++) o[d] = dv[d] - 0.5*h*(a[d]+b[d]) + 0.5*h*h*e[d] - 0.5*h*(fc[d] + fp[d] - h*t[d]);
  }
}
