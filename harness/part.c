/* dust particles on the compiled code.   (mode b: c with a single particle)
   argv: mode n1 n2 n3 seed interp integrator bc
   modes: c  whole steps: totals, particle bookkeeping           (bc 4 periodic, 1 reflecting, 2 outflow)
          p  relabelled / mirrored axes, d  dropped axes, t  shifted by whole cells
          o  order of accuracy of one particle step in a gas flow that varies linearly
          r  relaxation of uniform gas and uniform dust (feedback)
          w  interpolation weights */
#include <unistd.h>
#include <stdarg.h>
#define OWN_PROBLEM
#include "ath.h"
#include "particles/prototypes.h"
#include "particles/particle.h"
static double uf[3], ug[3], vs[3];            /* constant force, force gradient, gas velocity shift */
static int P[3] = {0,1,2}, S[3] = {1,1,1};
static double rdrag = 0.37;
void problem(DomainS *pDomain) {}
void problem_write_restart(MeshS *pM, FILE *fp) {}
void problem_read_restart(MeshS *pM, FILE *fp) {}
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
void Userwork_in_loop(MeshS *pM) {}
void Userwork_after_loop(MeshS *pM) {}
PropFun_t get_usr_par_prop(const char *name) { return NULL; }
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3)
{ Real *u[3]; int d; u[0] = u1; u[1] = u2; u[2] = u3; for (d = 0; d < 3; d++) *u[P[d]] += S[d]*vs[d]; }
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3, const Real v1, const Real v2, const Real v3)
{ double x[3]; Real *f[3]; int d; x[0] = x1; x[1] = x2; x[2] = x3; f[0] = &ft->x1; f[1] = &ft->x2; f[2] = &ft->x3;
  for (d = 0; d < 3; d++) *f[P[d]] += S[d]*uf[d] + ug[d]*x[P[d]]; }
static int interp, integ, bc, tsm = 3, pgrid = 40;
static VDFun_t Integ;
static int live = 0;
#define MAXP 4000
static void fresh(MeshS *M, const int *N, const double *lo, const double *hi)
{
  int d; static int opened = 0;
  if (opened++) par_close();
  memset(M, 0, sizeof(*M));
  for (d = 0; d < 3; d++) { X0[d] = lo[d]; X1[d] = hi[d]; }
  pars(N[0], N[1], N[2], bc);
  par_seti("particle", "partypes", "%d", 2, "");
  par_seti("particle", "parnumgrid", "%d", pgrid, "");
  par_seti("particle", "integrator", "%d", integ, "");
  par_seti("particle", "interp", "%d", interp, "");
  par_seti("particle", "tsmode", "%d", tsm, "");
  par_setd("particle", "tshuf", "%.17g", 0.05, "");
  init_mesh(M); init_grid(M); init_particle(M);
  tstop0[0] = rdrag; tstop0[1] = 0.11;
  grrhoa[0] = rdrag; grrhoa[1] = 0.2; grproperty[0].rad = 1.0; grproperty[1].rad = 3.0; alamcoeff = tsm == 1 ? 1.5 : 0.0;
#ifdef FEEDBACK
  grproperty[0].m = 0.05; grproperty[1].m = 0.21;
#endif
  grproperty[0].num = grproperty[1].num = 0; M->Domain[0][0].Grid->nparticle = 0;
  bvals_mhd_init(M); bvals_particle_init(M); exchange_gpcouple_init(M);
}
static void begin(MeshS *M) { lr_states_init(M); Integ = integrate_init(M); live = 1; }
static void finish(void) { integrate_destruct(); lr_states_destruct(); }
static void addpar(GridS *g, const double *x, const double *v, int type)
{
  GrainS *p;
  if (g->nparticle + 1 >= g->arrsize) particle_realloc(g, g->nparticle + 2);
  p = &g->particle[g->nparticle];
  memset(p, 0, sizeof(*p));
  p->x1 = x[0]; p->x2 = x[1]; p->x3 = x[2]; p->v1 = v[0]; p->v2 = v[1]; p->v3 = v[2];
  p->property = type; p->pos = 1; p->my_id = g->nparticle; g->nparticle++; grproperty[type].num++;
}
static void randpar(GridS *g, int n, double amp)
{
  int q, d; double x[3], v[3];
  for (q = 0; q < n; q++) {
    for (d = 0; d < 3; d++) {
      double L = g->MaxX[d] - g->MinX[d], h = d == 0 ? g->dx1 : d == 1 ? g->dx2 : g->dx3;
      double f = urand();
      x[d] = g->MinX[d] + f*L;
      if (q % 4 == 1) x[d] = g->MinX[d] + 0.02*f*h;
      if (q % 4 == 2) x[d] = g->MaxX[d] - 0.02*f*h - 1e-9;
      v[d] = sym(amp);
    }
    addpar(g, x, v, q % 2);
  }
}
static double px(const GrainS *p, int d) { return d == 0 ? p->x1 : d == 1 ? p->x2 : p->x3; }
static double pv(const GrainS *p, int d) { return d == 0 ? p->v1 : d == 1 ? p->v2 : p->v3; }
static GrainS *byid(GridS *g, long id) { long p; for (p = 0; p < g->nparticle; p++) if (g->particle[p].my_id == id) return &g->particle[p]; return NULL; }
static void step(MeshS *M, double dt)
{
  DomainS *pD = &M->Domain[0][0];
  pD->Grid->dt = M->dt = dt;
  (*Integ)(pD);
  M->time += dt; pD->Grid->time = M->time; M->nstep++;
  bvals_mhd(pD); bvals_particle(pD);
}
static void smooth_state(DomainS *pD, double amp)
{
  random_state(pD, amp, 1);
}
static double mass(int t) {
#ifdef FEEDBACK
  return grproperty[t].m;
#else
  return 0.0*t;
#endif
}
static ConsS *cell(GridS *g, const int *c) { return &g->U[g->ks + c[2]][g->js + c[1]][g->is + c[0]]; }
static void image(GridS *a, GridS *b, int cmp, const char *what, double tol)
{
  int c[3], q[3], d, n; long p;
  for (c[2] = 0; c[2] < a->Nx[2]; c[2]++) for (c[1] = 0; c[1] < a->Nx[1]; c[1]++) for (c[0] = 0; c[0] < a->Nx[0]; c[0]++) {
    ConsS *u = cell(a, c), *w, t; double m[3], *o;
    for (d = 0; d < 3; d++) q[P[d]] = S[d] > 0 ? c[d] : a->Nx[d] - 1 - c[d];
    w = cell(b, q); t = *u; o = &t.M1;
    m[0] = u->M1; m[1] = u->M2; m[2] = u->M3; for (d = 0; d < 3; d++) o[P[d]] = S[d] * m[d];
    if (!cmp) *w = t;
    else for (n = 0; n < NCONS; n++) if (!(fabs(((double*)&t)[n] - ((double*)w)[n]) <= tol))
      fail("%s: gas component %d of cell (%d,%d,%d): %.15g expected %.15g", what, n, q[0], q[1], q[2], ((double*)w)[n], ((double*)&t)[n]);
  }
  if (!cmp) for (p = 0; p < a->nparticle; p++) {
    GrainS *g = &a->particle[p]; double x[3], v[3];
    for (d = 0; d < 3; d++) { x[P[d]] = S[d]*px(g, d); v[P[d]] = S[d]*pv(g, d); }
    addpar(b, x, v, g->property); b->particle[b->nparticle-1].my_id = g->my_id;
  } else {
    if (a->nparticle != b->nparticle) fail("%s: %ld particles, expected %ld", what, b->nparticle, a->nparticle);
    for (p = 0; p < a->nparticle; p++) {
      GrainS *g = &a->particle[p], *h = byid(b, g->my_id);
      if (!h) { fail("%s: particle %ld missing", what, g->my_id); continue; }
      for (d = 0; d < 3; d++) {
        double L = a->MaxX[d] - a->MinX[d];
        double e = fabs(px(h, P[d]) - S[d]*px(g, d)), f = fabs(pv(h, P[d]) - S[d]*pv(g, d));
        if (bc == 4 && a->Nx[d] > 1) e = fmin(e, fabs(e - L));
        if (!(e <= tol) || !(f <= tol)) fail("%s: particle %ld axis %d: x %.15g v %.15g expected x %.15g v %.15g", what, g->my_id, P[d]+1, px(h, P[d]), pv(h, P[d]), S[d]*px(g, d), S[d]*pv(g, d));
      }
    }
  }
}
static void conserve(int argc, char **argv, const int *N, long seed)
{
  static MeshS M; DomainS *pD; GridS *g; int d, i, j, k, it, n; long p, n0;
  double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825}, t0[3], t1[3];
  int NP = pgrid == 1 ? 1 : 50, seen[MAXP], out[MAXP];
  memset(out, 0, sizeof(out));
  fresh(&M, N, lo, hi); pD = &M.Domain[0][0]; g = pD->Grid;
  rseed(seed);
  random_state(pD, bc == 4 ? 0.4 : 0.0, 1);
  if (bc != 4) for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
    ConsS *u = &g->U[k][j][i]; memset(u, 0, sizeof(*u)); u->d = 1.0; u->M1 = sym(0.2); u->M2 = sym(0.2); u->M3 = sym(0.2);
#ifndef BAROTROPIC
    u->E = 2.5 + 0.5*(u->M1*u->M1+u->M2*u->M2+u->M3*u->M3);
#endif
  }
  for (d = 0; d < 3; d++) { vs[d] = 0.0; uf[d] = 0.0; }
  randpar(g, NP == 1 ? 1 : 24, 1.2);
  if (NP > 1) for (n = 0; n < 27; n++) if (n != 13) {      /* one particle about to leave through every face, edge and corner */
    double x[3], v[3]; int o[3] = {n % 3 - 1, n / 3 % 3 - 1, n / 9 - 1};
    for (d = 0; d < 3; d++) {
      double h = d == 0 ? g->dx1 : d == 1 ? g->dx2 : g->dx3;
      x[d] = o[d] < 0 ? g->MinX[d] + 0.02*urand()*h : o[d] > 0 ? g->MaxX[d] - 0.02*urand()*h - 1e-9 : g->MinX[d] + (0.2 + 0.6*urand())*(g->MaxX[d] - g->MinX[d]);
      v[d] = o[d]*(0.5 + 1.5*urand());
    }
    addpar(g, x, v, g->nparticle % 2);
  }
  if (NP == 1) { GrainS *q = &g->particle[0]; q->x1 = g->MaxX[0] - 0.01*g->dx1; q->v1 = 3.0; q->x2 = g->MinX[1] + 0.01*g->dx2; q->v2 = -2.0; }
  n0 = g->nparticle;
  bvals_mhd(pD); bvals_particle(pD); begin(&M);
  if (g->nparticle != n0) fail("%ld of %ld particles left after the first boundary call", g->nparticle, n0);
  for (it = 0; it <= 6; it++) {
    double v0[MAXP][6]; long ng = g->nparticle;
    for (d = 0; d < 3; d++) t1[d] = 0.0;
    for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
      ConsS *u = &g->U[k][j][i];
      if (!isfinite(u->d + u->M1 + u->M2 + u->M3)) { fail("gas not finite at step %d", it); return; }
      t1[0] += u->M1; t1[1] += u->M2; t1[2] += u->M3;
    }
    memset(seen, 0, sizeof(seen));
    { long num[2] = {0,0};
    for (p = 0; p < g->nparticle; p++) {
      GrainS *q = &g->particle[p];
      if (q->my_id < 0 || q->my_id >= NP || seen[q->my_id]) { fail("step %d: particle %ld appears twice", it, q->my_id); continue; }
      seen[q->my_id] = 1; num[q->property]++;
      if (q->property != q->my_id % 2) fail("step %d: particle %ld changed its type", it, q->my_id);
      for (d = 0; d < 3; d++) {
        t1[d] += mass(q->property)*pv(q, d);
        if (bc != 2 && !(px(q, d) >= g->MinX[d] - 1e-12 && px(q, d) <= g->MaxX[d] + 1e-12)) fail("step %d: particle %ld at x%d=%.15g outside the domain", it, q->my_id, d+1, px(q, d));
        v0[q->my_id][d] = px(q, d); v0[q->my_id][3+d] = pv(q, d);
      }
    }
    if (num[0] != grproperty[0].num || num[1] != grproperty[1].num) fail("step %d: particle counters %ld %ld, particles %ld %ld", it, grproperty[0].num, grproperty[1].num, num[0], num[1]);
    }
    if (bc != 2 && g->nparticle != n0) fail("step %d: %ld particles, started with %ld", it, g->nparticle, n0);
    if (it == 0) for (d = 0; d < 3; d++) t0[d] = t1[d];
    for (d = 0; d < 3; d++) {
      if (bc == 1 && N[d] > 1) continue;          /* walls take up momentum */
      if (bc == 2) continue;
      if (fabs(t1[d] - t0[d]) > 1e-10*(1.0 + N[0]*N[1]*N[2])) fail("step %d: total momentum %d of gas and dust changed by %.6e", it, d+1, t1[d] - t0[d]);
    }
    if (it == 6) break;
    new_dt(&M);
    if (it >= 3) M.dt *= 0.7;
    step(&M, M.dt);
    /* free flight bookkeeping: dx = dt*(v0+v1)/2, up to a period or a reflection */
    for (p = 0; p < NP; p++) if (seen[p]) {
      GrainS *q = byid(g, p);
      if (!q) {
        if (bc != 2) fail("step %d: particle %ld lost", it, p);
        else { /* may only leave by flying beyond the ghost zones */
          int far = 0;
          for (d = 0; d < 3; d++) { double h = d == 0 ? g->dx1 : d == 1 ? g->dx2 : g->dx3;
            if (N[d] > 1 && (v0[p][d] < g->MinX[d] - (nghost-2.1)*h || v0[p][d] > g->MaxX[d] + (nghost-2.1)*h)) far = 1; }
          if (!far) fail("step %d: particle %ld removed although its position was (%g,%g,%g)", it, p, v0[p][0], v0[p][1], v0[p][2]);
        }
        continue;
      }
      for (d = 0; d < 3; d++) if (N[d] > 1) {
        double L = g->MaxX[d] - g->MinX[d], v1 = pv(q, d), x1, x2;
        x1 = v0[p][d] + 0.5*M.dt*(v0[p][3+d] + v1);                 /* not reflected */
        x2 = v0[p][d] + 0.5*M.dt*(v0[p][3+d] - v1);
        if (bc == 4) { if (x1 < g->MinX[d]) x1 += L; if (x1 >= g->MaxX[d]) x1 -= L; }
        if (bc == 1) {       /* a particle on the other side was reflected, with its velocity */
          double xr = x2 < g->MinX[d] ? 2*g->MinX[d] - x2 : x2 >= g->MaxX[d] ? 2*g->MaxX[d] - x2 : x1;
          if (fabs(xr - px(q, d)) < fabs(x1 - px(q, d))) x1 = xr;
        }
        if (!(fabs(x1 - px(q, d)) <= 1e-12)) fail("step %d: particle %ld moved to x%d=%.15g, its velocities %g %g give %.15g", it, p, d+1, px(q, d), v0[p][3+d], v1, x1);
      } else if (px(q, d) != v0[p][d]) fail("particle %ld moved along an absent axis", p);
    }
  }
  finish();
}
static void symm(char **argv, const int *N, long seed)
{
  static MeshS A, A0, B; int d, v, M[3], dim = (N[0]>1)+(N[1]>1)+(N[2]>1), it;
  double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825}, blo[3], bhi[3], dt = 0.012;
  static const int PERM[][3] = {{1,0,2},{1,2,0},{0,2,1},{2,0,1},{0,1,2},{0,1,2},{2,1,0},{0,1,2}};
  static const int SIGN[][3] = {{1,1,1},{1,1,1},{1,1,1},{1,1,1},{-1,1,1},{1,-1,1},{1,-1,-1},{1,1,-1}};
  rseed(seed);
  for (d = 0; d < 3; d++) { uf[d] = bc == 4 ? sym(0.5) : 0.0; ug[d] = bc == 4 ? sym(0.5) : 0.0; vs[d] = bc == 4 ? sym(0.2) : 0.0; }
  if (bc != 4) for (d = 0; d < 3; d++) { uf[d] = 0.3*(d+1); vs[d] = 0.1*(d-1); }
  fresh(&A, N, lo, hi); random_state(&A.Domain[0][0], 0.3, 1); randpar(A.Domain[0][0].Grid, 16, 1.0);
  fresh(&A0, N, lo, hi); image(A.Domain[0][0].Grid, A0.Domain[0][0].Grid, 0, "", 0);
  bvals_mhd(&A.Domain[0][0]); bvals_particle(&A.Domain[0][0]); begin(&A);
  for (it = 0; it < 3; it++) step(&A, dt);
  finish();
  for (v = 0; v < 8; v++) {
    int ok = 1; char w[64];
    for (d = 0; d < 3; d++) { P[d] = PERM[v][d]; S[d] = SIGN[v][d]; }
    for (d = 0; d < 3; d++) if (N[d] == 1 && P[d] != d && N[P[d]] != 1) ok = 0;
    for (d = dim; d < 3; d++) if (P[d] < dim) ok = 0;
    if (!ok) continue;
    for (d = 0; d < 3; d++) { M[P[d]] = N[d]; blo[P[d]] = S[d] > 0 ? lo[d] : -hi[d]; bhi[P[d]] = S[d] > 0 ? hi[d] : -lo[d]; }
    fresh(&B, M, blo, bhi); image(A0.Domain[0][0].Grid, B.Domain[0][0].Grid, 0, "", 0);
    bvals_mhd(&B.Domain[0][0]); bvals_particle(&B.Domain[0][0]); begin(&B);
    for (it = 0; it < 3; it++) step(&B, dt);
    finish();
    sprintf(w, "axes %d%d%d signs %d %d %d", P[0]+1, P[1]+1, P[2]+1, S[0], S[1], S[2]);
    image(A.Domain[0][0].Grid, B.Domain[0][0].Grid, 1, w, 2e-10);
  }
}
/* the same data with one or two more axes: particles repeated once per cell along the new axes when they act on the gas */
static void dims(char **argv, const int *N, long seed)
{
  static MeshS A, A0, B; int d, v, D, M[3], dim = (N[0]>1)+(N[1]>1)+(N[2]>1), it, c[3], q[3];
  double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825}, blo[3], bhi[3], dt = 0.012;
  static const int EMB[][3] = {{0,1,2},{1,0,2},{1,2,0},{2,0,1},{0,2,1}};
  rseed(seed);
  for (d = 0; d < 3; d++) { uf[d] = sym(0.5); ug[d] = 0.0; vs[d] = sym(0.2); }
  fresh(&A, N, lo, hi); random_state(&A.Domain[0][0], 0.3, 1); randpar(A.Domain[0][0].Grid, 12, 1.0);
  fresh(&A0, N, lo, hi); image(A.Domain[0][0].Grid, A0.Domain[0][0].Grid, 0, "", 0);
  bvals_mhd(&A.Domain[0][0]); bvals_particle(&A.Domain[0][0]); begin(&A);
  for (it = 0; it < 2; it++) step(&A, dt);
  finish();
  for (v = 0; v < 5; v++) for (D = dim + 1; D <= 3; D++) {
    GridS *s = A0.Domain[0][0].Grid, *a = A.Domain[0][0].Grid, *b; int top = 0, i, j, k, rep = 1, r, n; long p;
    for (d = 0; d < 3; d++) { P[d] = EMB[v][d]; S[d] = 1; }
    for (d = 0; d < dim; d++) if (P[d] > top) top = P[d];
    if (top >= D) continue;
    for (d = 0; d < 3; d++) { M[d] = d < D ? 5 : 1; blo[d] = 0.0; bhi[d] = 0.55; }
    for (d = 0; d < dim; d++) { M[P[d]] = N[d]; blo[P[d]] = lo[d]; bhi[P[d]] = hi[d]; }
    fresh(&B, M, blo, bhi); b = B.Domain[0][0].Grid;
    for (k = 0; k < M[2]; k++) for (j = 0; j < M[1]; j++) for (i = 0; i < M[0]; i++) {
      ConsS *u, *w; double m[3];
      q[0] = i; q[1] = j; q[2] = k;
      for (d = 0; d < 3; d++) c[d] = d < dim ? q[P[d]] : 0;
      u = cell(s, c); w = cell(b, q); *w = *u; m[0] = u->M1; m[1] = u->M2; m[2] = u->M3;
      for (d = 0; d < 3; d++) (&w->M1)[P[d]] = m[d];
    }
    for (d = dim; d < 3; d++) if (M[P[d]] > 1) rep *= 5;
    for (p = 0; p < s->nparticle; p++) for (r = 0; r < rep; r++) {
      GrainS *g = &s->particle[p]; double x[3], vv[3]; int rr = r;
      for (d = 0; d < 3; d++) { vv[P[d]] = pv(g, d);
        if (d < dim) x[P[d]] = px(g, d);
        else { x[P[d]] = 0.3; if (M[P[d]] > 1) { x[P[d]] = 0.11*(rr % 5) + 0.03 + 0.001*p; rr /= 5; } } }
      addpar(b, x, vv, g->property); b->particle[b->nparticle-1].my_id = g->my_id*1000 + r;
    }
    bvals_mhd(&B.Domain[0][0]); bvals_particle(&B.Domain[0][0]); begin(&B);
    for (it = 0; it < 2; it++) step(&B, dt);
    finish();
    for (k = 0; k < M[2]; k++) for (j = 0; j < M[1]; j++) for (i = 0; i < M[0]; i++) {
      ConsS *u, *w, t; double m[3];
      q[0] = i; q[1] = j; q[2] = k;
      for (d = 0; d < 3; d++) c[d] = d < dim ? q[P[d]] : 0;
      u = cell(a, c); w = cell(b, q); t = *u; m[0] = u->M1; m[1] = u->M2; m[2] = u->M3;
      for (d = 0; d < 3; d++) (&t.M1)[P[d]] = m[d];
      for (n = 0; n < NCONS; n++) if (!(fabs(((double*)&t)[n] - ((double*)w)[n]) <= 2e-10))
        fail("%dD data embedded in %dD along axes %d%d%d: gas component %d: %.15g expected %.15g", dim, D, P[0]+1, P[1]+1, P[2]+1, n, ((double*)w)[n], ((double*)&t)[n]);
    }
    for (p = 0; p < a->nparticle; p++) for (r = 0; r < rep; r++) {
      GrainS *g = &a->particle[p], *h = byid(b, g->my_id*1000 + r);
      if (!h) { fail("%dD data embedded in %dD: particle lost", dim, D); continue; }
      for (d = 0; d < 3; d++) {
        double e = d < dim ? fabs(px(h, P[d]) - px(g, d)) : 0.0;
        if (d < dim) e = fmin(e, fabs(e - (hi[d] - lo[d])));
        if (!(e <= 2e-10) || !(fabs(pv(h, P[d]) - pv(g, d)) <= 2e-10))
          fail("%dD data embedded in %dD along axes %d%d%d: particle axis %d x %.15g v %.15g expected %.15g %.15g", dim, D, P[0]+1, P[1]+1, P[2]+1, d+1, px(h, P[d]), pv(h, P[d]), px(g, d), pv(g, d));
      }
    }
  }
}
/* reference motion in the frozen gas flow u(x) = u0 + G x: dv/dt = (u - v)/ts + f (+ Coriolis and tidal terms) */
static double U0[3], G[3][3], TS; static int shear3d;
static void rhs(const double *y, double *f)
{
  int d, e;
  for (d = 0; d < 3; d++) {
    double u = U0[d] + vs[d];
    for (e = 0; e < 3; e++) u += G[d][e]*y[e];
    f[d] = y[3+d];
    f[3+d] = (u - y[3+d])/TS + uf[d] + ug[d]*y[d];
  }
#ifdef SHEARING_BOX
  { int az = shear3d ? 1 : 2;
#ifdef FARGO
    f[3] += 2.0*Omega_0*y[3+az]; f[3+az] += (qshear - 2.0)*Omega_0*y[3];
#else
    f[3] += 2.0*qshear*Omega_0*Omega_0*y[0] + 2.0*Omega_0*y[3+az]; f[3+az] += -2.0*Omega_0*y[3];
#endif
  }
#endif
}
static void reference(double *y, double T)
{
  int s, n = 20, i; double h = T/n, k1[6], k2[6], k3[6], k4[6], t[6];
  for (s = 0; s < n; s++) {
    rhs(y, k1); for (i = 0; i < 6; i++) t[i] = y[i] + 0.5*h*k1[i];
    rhs(t, k2); for (i = 0; i < 6; i++) t[i] = y[i] + 0.5*h*k2[i];
    rhs(t, k3); for (i = 0; i < 6; i++) t[i] = y[i] + h*k3[i];
    rhs(t, k4); for (i = 0; i < 6; i++) y[i] += h*(k1[i] + 2*k2[i] + 2*k3[i] + k4[i])/6.0;
  }
}
void Integrate_Particles(DomainS *pD);
static void order(char **argv, const int *N, long seed)
{
  static MeshS M; DomainS *pD; GridS *g; int d, e, i, j, k, it, lev; double err[3][6], x0[3], v0[3], dts[3] = {0.02, 0.01, 0.005};
  double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825};
  rseed(seed);
#ifdef SHEARING_BOX
  Omega_0 = 1.1; qshear = 1.4; ShBoxCoord = xz;
#endif
  fresh(&M, N, lo, hi); pD = &M.Domain[0][0]; g = pD->Grid;
  shear3d = N[2] > 1;
  for (it = 0; it < 12; it++) {
    for (d = 0; d < 3; d++) { uf[d] = sym(0.5); ug[d] = sym(0.5); vs[d] = sym(0.2); U0[d] = sym(0.5);
      x0[d] = lo[d] + (0.3 + 0.4*urand())*(hi[d] - lo[d]); v0[d] = sym(0.5);
      for (e = 0; e < 3; e++) G[d][e] = N[e] > 1 ? sym(0.8) : 0.0; }
    for (d = 0; d < 3; d++) if (N[d] == 1) { ug[d] = 0.0; }
    TS = tstop0[it % 2];
    for (k = klp; k <= kup; k++) for (j = jlp; j <= jup; j++) for (i = ilp; i <= iup; i++) {
      double x[3]; GPCouple *c = &g->Coup[k][j][i];
      cc_pos(g, i, j, k, &x[0], &x[1], &x[2]);
      c->grid_d = 1.0;
#ifndef ISOTHERMAL
      c->grid_cs = 1.0;
#endif
#ifdef FEEDBACK
      c->FBstiff = 0.0;
#endif
      c->grid_v1 = U0[0]; c->grid_v2 = U0[1]; c->grid_v3 = U0[2];
      for (e = 0; e < 3; e++) { c->grid_v1 += G[0][e]*x[e]; c->grid_v2 += G[1][e]*x[e]; c->grid_v3 += G[2][e]*x[e]; }
    }
    for (lev = 0; lev < 3; lev++) {
      double y[6];
      g->nparticle = 0; addpar(g, x0, v0, it % 2);
      g->dt = dts[lev];
      Integrate_Particles(pD);
      for (d = 0; d < 3; d++) { y[d] = x0[d]; y[3+d] = v0[d]; }
      reference(y, dts[lev]);
      for (d = 0; d < 3; d++) { err[lev][d] = px(&g->particle[0], d) - y[d]; err[lev][3+d] = pv(&g->particle[0], d) - y[3+d]; if (N[d] == 1) { err[lev][d] = 0.0; if (px(&g->particle[0], d) != x0[d]) fail("particle moved along an absent axis"); } }
    }
    /* one step of a second-order scheme is accurate to dt^3: no dt or dt^2 part in the error */
    for (d = 0; d < 6; d++) {
      double a1, a2, h = dts[2];
      /* fit err = c2 h^2 + c3 h^3 + c4 h^4 at h, 2h, 4h */
      double e1 = err[2][d]/(h*h), e2 = err[1][d]/(4*h*h), e4 = err[0][d]/(16*h*h);
      a1 = (8*e1 - 6*e2 + e4)/3.0;
      a2 = fabs(e1) + fabs(e2) + fabs(e4);
      if (!(fabs(a1) <= 0.02*(0.2 + a2) + 1e-3)) fail("particle %s%d: the error of one step has a part %.3g*dt^2 (dt %g: errors %.3g %.3g %.3g)", d < 3 ? "x" : "v", d % 3 + 1, a1, h, err[0][d], err[1][d], err[2][d]);
    }
  }
}
#ifdef FEEDBACK
/* uniform gas and one particle per cell: the drift decays as exp(-(1+eps) t/ts), eps = dust/gas ratio */
static void relax(char **argv, const int *N, long seed)
{
  static MeshS M; DomainS *pD; GridS *g; int d, i, j, k, it, lev; double err[3][6], dts[3] = {0.016, 0.008, 0.004};
  double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825};
  for (d = 0; d < 3; d++) uf[d] = ug[d] = vs[d] = 0.0;
  for (it = 0; it < 3; it++) {
    double u0[3], v0[3], off[3];
    rseed(seed + it);
    for (d = 0; d < 3; d++) { u0[d] = sym(0.5); v0[d] = sym(0.5); off[d] = 0.2 + 0.6*urand(); }
    for (lev = 0; lev < 3; lev++) {
      double m;
      fresh(&M, N, lo, hi); pD = &M.Domain[0][0]; g = pD->Grid;
      for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
        ConsS *u = &g->U[k][j][i]; double x[3]; memset(u, 0, sizeof(*u));
        u->d = 1.3; u->M1 = 1.3*u0[0]; u->M2 = 1.3*u0[1]; u->M3 = 1.3*u0[2];
#ifndef BAROTROPIC
        u->E = 2.5 + 0.5*1.3*(u0[0]*u0[0]+u0[1]*u0[1]+u0[2]*u0[2]);
#endif
        cc_pos(g, i, j, k, &x[0], &x[1], &x[2]);
        x[0] += (off[0] - 0.5)*g->dx1; x[1] += (off[1] - 0.5)*g->dx2; x[2] += (off[2] - 0.5)*g->dx3;
        addpar(g, x, v0, 0);
      }
      grproperty[0].m = 0.6; m = 0.6/1.3;
      bvals_mhd(pD); bvals_particle(pD); begin(&M);
      step(&M, dts[lev]);
      finish();
      { ConsS *u = &g->U[g->ks][g->js][g->is]; double q = exp(-(1+m)*dts[lev]/rdrag), w[3];
        w[0] = u->M1/u->d; w[1] = u->M2/u->d; w[2] = u->M3/u->d;
        for (d = 0; d < 3; d++) {
          double cm = (u0[d] + m*v0[d])/(1+m), dv = (v0[d] - u0[d])*q;
          err[lev][d] = w[d] - (cm - m*dv/(1+m)); err[lev][3+d] = pv(&g->particle[0], d) - (cm + dv/(1+m));
        }
      }
      for (k = g->ks; k <= g->ke; k++) for (j = g->js; j <= g->je; j++) for (i = g->is; i <= g->ie; i++) {
        ConsS *u = &g->U[k][j][i], *w = &g->U[g->ks][g->js][g->is];
        if (fabs(u->M1 - w->M1) + fabs(u->M2 - w->M2) + fabs(u->M3 - w->M3) + fabs(u->d - w->d) > 1e-11) fail("uniform dust makes the gas non-uniform");
      }
    }
    for (d = 0; d < 6; d++) {
      double h = dts[2], e1 = err[2][d]/(h*h), e2 = err[1][d]/(4*h*h), e4 = err[0][d]/(16*h*h), a1 = (8*e1 - 6*e2 + e4)/3.0, a2 = fabs(e1) + fabs(e2) + fabs(e4);
      if (!(fabs(a1) <= 0.03*(0.2 + a2) + 2e-3)) fail("%s velocity %d: the error of one coupled step has a part %.3g*dt^2 (errors %.3g %.3g %.3g)", d < 3 ? "gas" : "dust", d % 3 + 1, a1, err[0][d], err[1][d], err[2][d]);
    }
  }
}
#endif
static void weights(char **argv, const int *N, long seed)
{
  static MeshS M; GridS *g; int d, i, j, k, it; double lo[3] = {-0.5, -0.25, 0.125}, hi[3] = {0.5, 0.35, 0.825};
  Real3Vect c1;
  fresh(&M, N, lo, hi); g = M.Domain[0][0].Grid; rseed(seed);
  c1.x1 = N[0] > 1 ? 1.0/g->dx1 : 0.0; c1.x2 = N[1] > 1 ? 1.0/g->dx2 : 0.0; c1.x3 = N[2] > 1 ? 1.0/g->dx3 : 0.0;
  for (it = 0; it < 400; it++) {
    double x[3], a[4], s = 0.0; int is, js, ks; Real w[3][3][3];
    Real rho, u1, u2, u3, cs, st = 0.0; int rc, q;
    double h[3]; h[0] = g->dx1; h[1] = g->dx2; h[2] = g->dx3;
    for (d = 0; d < 3; d++) x[d] = N[d] > 1 ? lo[d] - 2*h[d] + urand()*(hi[d] - lo[d] + 4*h[d]) : lo[d] + 0.3*h[d];
    if (it % 3 == 0) for (d = 0; d < 3; d++) x[d] = lo[d] + h[d]*((int)(urand()*N[d]) + (it % 2 ? 0.5 : 0.0) + 1e-10*sym(1.0));
    for (q = 0; q < 27; q++) (&w[0][0][0])[q] = 0.0;
    for (d = 0; d < 4; d++) a[d] = sym(1.0);
    for (d = 0; d < 3; d++) if (N[d] == 1) a[d] = 0.0;
    for (k = klp; k <= kup; k++) for (j = jlp; j <= jup; j++) for (i = ilp; i <= iup; i++) {
      double y[3]; GPCouple *c = &g->Coup[k][j][i]; cc_pos(g, i, j, k, &y[0], &y[1], &y[2]);
      c->grid_d = 3.0 + a[0]*y[0] + a[1]*y[1] + a[2]*y[2]; c->grid_v1 = a[0]*y[0] + a[3]; c->grid_v2 = a[1]*y[1]; c->grid_v3 = a[2]*y[2];
#ifndef ISOTHERMAL
      c->grid_cs = 0.9 + 0.1*a[0]*y[0];
#endif
#ifdef FEEDBACK
      c->FBstiff = a[3];
#endif
    }
    (*getweight)(g, x[0], x[1], x[2], c1, w, &is, &js, &ks);
    for (q = 0; q < 27; q++) { s += (&w[0][0][0])[q]; if (interp != 3 && (&w[0][0][0])[q] < -1e-8) fail("negative weight %g at (%g,%g,%g)", (&w[0][0][0])[q], x[0], x[1], x[2]); }
    if (!(fabs(s - 1.0) <= 1e-12)) fail("weights add up to %.15g at (%g,%g,%g)", s, x[0], x[1], x[2]);
#ifdef FEEDBACK
    rc = getvalues(g, w, is, js, ks, &rho, &u1, &u2, &u3, &cs, &st);
#else
    rc = getvalues(g, w, is, js, ks, &rho, &u1, &u2, &u3, &cs);
#endif
    if (rc != 0) { fail("particle at (%g,%g,%g) reported outside", x[0], x[1], x[2]); continue; }
    { double e = fabs(rho - (3.0 + a[0]*x[0] + a[1]*x[1] + a[2]*x[2])) + fabs(u1 - a[0]*x[0] - a[3]) + fabs(u2 - a[1]*x[1]) + fabs(u3 - a[2]*x[2]);
#ifndef ISOTHERMAL
      e += fabs(cs - 0.9 - 0.1*a[0]*x[0]);
#endif
      if (!(e <= 1e-11)) fail("linear gas data interpolated to (%g,%g,%g): error %.3g", x[0], x[1], x[2], e); }
  }
  /* stopping time: finite and positive, also for a particle at rest in the gas */
  g->dt = 0.01;
  for (it = 0; it < 200; it++) {
    double rho = exp(sym(4.0)), cs = exp(sym(1.0)), vd = it % 5 == 0 ? 0.0 : exp(sym(8.0)), t = get_ts(g, it % 2, rho, cs, vd);
    if (!(t > 0.0) || !isfinite(t)) fail("stopping time %g for density %g, sound speed %g, drift %g", t, rho, cs, vd);
  }
}
int main(int argc, char **argv)
{
  int N[3], d; long seed;
  for (d = 0; d < 3; d++) N[d] = atoi(argv[2+d]);
  seed = atol(argv[5]); interp = atoi(argv[6]); integ = atoi(argv[7]); bc = atoi(argv[8]);
  if (argc > 9) tsm = atoi(argv[9]);
  switch (argv[1][0]) {
  case 'c': conserve(argc, argv, N, seed); break;
  case 'b': pgrid = 1; conserve(argc, argv, N, seed); break;
  case 'p': symm(argv, N, seed); break;
  case 'd': dims(argv, N, seed); break;
  case 'o': order(argv, N, seed); break;
#ifdef FEEDBACK
  case 'r': relax(argv, N, seed); break;
#endif
  case 'w': weights(argv, N, seed); break;
  default: return 2;
  }
  return done();
}
