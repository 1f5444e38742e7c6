/* cylindrical coordinates on the real code.
   argv: mode seed n1 n2 n3
   c  conserved totals (mass, angular momentum, axial momentum, energy, scalars), div B, cell-centred B; compact perturbation
   m  mirror in phi, mirror in z, shift in phi commute with the step
   d  dropping an axis along which nothing varies does not change the result
   e  uniform Cartesian flow and field: residual of a step converges to zero with second order
   r  rigidly rotating magnetised equilibrium: the same                                                 */
#include <unistd.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "ath.h"
enum { NF = 12 };                      /* d M1 M2 M3 E s B1c B2c B3c B1i B2i B3i */
typedef struct { int N[3], T[3]; double dt, val[8]; double dx[3]; double f[]; } Out;
static double *cellp(Out *o, int i, int j, int k) { return o->f + (((size_t)k*o->T[1]+j)*o->T[0]+i)*NF; }
static long SEED; static int STEPS; static char MODE;
static double K0[16], DTFIX = 0.0;
static Out *newout(void) { return (Out*)mmap(NULL, (size_t)64<<20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); }
static double grav(const Real x1, const Real x2, const Real x3) { return 0.5*SQR(K0[0]*x1); }
typedef struct { int flip2, flip3, shift2; } Xf;
/* smooth hash of integer cell indices: periodic random data independent of the grid's dimension */
static double hsh(int c, int i, int j, int k)
{
  uint64_t x = (uint64_t)SEED*1000003u + (uint64_t)c*7919u + (uint64_t)(i+50)*104729u + (uint64_t)(j+50)*1299709u + (uint64_t)(k+50)*15485863u;
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return 2.0*((double)(x >> 11)/9007199254740992.0) - 1.0;
}
static double sav(double a, double b) { return b == a ? cos(a) : (sin(b)-sin(a))/(b-a); }   /* mean of cos */
static double cav(double a, double b) { return b == a ? sin(a) : (cos(a)-cos(b))/(b-a); }   /* mean of sin */
/* primitive values; w = d v1 v2 v3 p s ; exact states use positions, random ones indices */
static void setcell(GridS *pG, int i, int j, int k, double *w, double *b)
{
  ConsS *u = &pG->U[k][j][i];
  u->d = w[0]; u->M1 = w[0]*w[1]; u->M2 = w[0]*w[2]; u->M3 = w[0]*w[3];
#ifdef MHD
  u->B1c = b[0]; u->B2c = b[1]; u->B3c = b[2];
#endif
#ifndef BAROTROPIC
  u->E = w[4]/Gamma_1 + 0.5*w[0]*(w[1]*w[1]+w[2]*w[2]+w[3]*w[3]);
#ifdef MHD
  u->E += 0.5*(b[0]*b[0]+b[1]*b[1]+b[2]*b[2]);
#endif
#endif
#if (NSCALARS > 0)
  u->s[0] = w[0]*w[5];
#endif
}
static void exact(GridS *pG)
{
  int i, j, k, t1 = pG->ie+nghost, t2 = pG->je + (pG->Nx[1]>1?nghost:0), t3 = pG->ke + (pG->Nx[2]>1?nghost:0);
  double Vx = K0[1], Vy = K0[2], Vz = K0[3], Bx = K0[4], By = K0[5], Bz = K0[6], b = K0[5], c = K0[4];
  for (k = 0; k <= t3; k++) for (j = 0; j <= t2; j++) for (i = 0; i <= t1; i++) {
    Real r, p, z; double w[6], B[3], pl, pr;
    cc_pos(pG, i, j, k, &r, &p, &z);
    pl = p - 0.5*pG->dx2; pr = p + 0.5*pG->dx2;
    if (pG->Nx[1] == 1) pl = pr = p;
    if (MODE == 'e') {
      w[0] = K0[7]; w[1] = Vx*cos(p)+Vy*sin(p); w[2] = -Vx*sin(p)+Vy*cos(p); w[3] = Vz; w[4] = K0[8]; w[5] = 0.5 + 0.1*K0[9];
#ifdef MHD
      pG->B1i[k][j][i] = Bx*sav(pl,pr) + By*cav(pl,pr);
      pG->B2i[k][j][i] = -Bx*sin(pl) + By*cos(pl);
      pG->B3i[k][j][i] = Bz;
#endif
      /* the code's own definition of the cell-centred field */
      B[0] = Bx*sav(pl,pr) + By*cav(pl,pr);
      B[1] = 0.5*(-Bx*sin(pl) + By*cos(pl) - Bx*sin(pr) + By*cos(pr)); B[2] = Bz;
    } else {
      w[0] = K0[7]; w[1] = 0.0; w[2] = K0[0]*r; w[3] = Vz; w[4] = K0[8]; w[5] = 0.5 + 0.1*sin(2.0*r);
#ifndef BAROTROPIC
      w[0] *= 1.0 + 0.2*sin(2.0*r+K0[9]);
#endif
#ifdef MHD
      pG->B1i[k][j][i] = c/(r-0.5*pG->dx1); pG->B2i[k][j][i] = b/r; pG->B3i[k][j][i] = Bz;
#endif
      B[0] = c/r; B[1] = b/r; B[2] = Bz;
    }
    setcell(pG, i, j, k, w, B);
  }
}
static void randomstate(GridS *pG, Xf x, int dim)
{
  int i, j, k, e, pass, t1 = pG->ie+nghost, t2 = pG->je + (pG->Nx[1]>1?nghost:0), t3 = pG->ke + (pG->Nx[2]>1?nghost:0);
  for (pass = 0; pass < 2; pass++)
  for (k = 0; k <= t3; k++) for (j = 0; j <= t2; j++) for (i = 0; i <= t1; i++) {
    Real r, p, z; double w[6], B[3] = {0,0,0}; int a = i-pG->is, bb = pG->Nx[1]>1 ? j-pG->js : 0, cc = pG->Nx[2]>1 ? k-pG->ks : 0, fb, fc, n;
    int in; double am;
    cc_pos(pG, i, j, k, &r, &p, &z);
    if (x.shift2) bb += x.shift2;
    bb = ((bb % pG->Nx[1]) + pG->Nx[1]) % pG->Nx[1]; cc = ((cc % pG->Nx[2]) + pG->Nx[2]) % pG->Nx[2];
    fb = bb; fc = cc;                                /* lower-face labels */
    if (x.flip2) { bb = pG->Nx[1]-1-bb; fb = (bb + 1) % pG->Nx[1]; }
    if (x.flip3) { cc = pG->Nx[2]-1-cc; fc = (cc + 1) % pG->Nx[2]; }
    if (MODE == 'd') { if (K0[10] < 2) bb = fb = 0; cc = fc = 0; }
    am = MODE == 'c' ? (a >= 6 && a < pG->Nx[0]-6 ? 0.2 : 0.0) : 0.1;
    if (pass == 0) {
#ifdef MHD
      double q0 = MODE == 'c' || (MODE == 'd' && K0[10] < 2) ? 0.0 : K0[4], q1 = MODE == 'c' ? 0.0 : K0[5], q2 = MODE == 'c' ? 0.0 : K0[6];
      double sb = (x.flip2 ? -1.0 : 1.0)*(x.flip3 ? -1.0 : 1.0), amf = MODE == 'c' && a == 6 ? 0.0 : am;
      pG->B1i[k][j][i] = sb*(q0 + (pG->Nx[1] > 1 && MODE != 'd' ? amf*hsh(10,a,bb,cc) : 0.0))/(r-0.5*pG->dx1);
      pG->B2i[k][j][i] = (x.flip3 ? -1.0 : 1.0)*(q1 + am*hsh(11,a,fb,cc));
      pG->B3i[k][j][i] = (x.flip2 ? -1.0 : 1.0)*(q2 + am*hsh(12,a,bb,fc));
      if (MODE == 'd' && K0[10] == 2) {        /* divergence-free, from a flux function */
        int b1 = (fb+1) % pG->Nx[1]; double q = 0.1*pG->dx2;
        pG->B1i[k][j][i] = (q0 + 0.1*(hsh(13,a,b1,0) - hsh(13,a,fb,0)))/pG->ri[i];
        pG->B2i[k][j][i] = q1 - q*(hsh(13,a+1,fb,0) - hsh(13,a,fb,0))/pG->dx1;
      }
#endif
      continue;
    }
#ifdef MHD
    {
      int ip = i < t1 ? i+1 : i, jp = j < t2 ? j+1 : j, kp = k < t3 ? k+1 : k;
      B[0] = pG->Nx[1] == 1 ? pG->B1i[k][j][i]*pG->ri[i]/pG->r[i] : 0.5*(pG->ri[i]*pG->B1i[k][j][i] + pG->ri[ip]*pG->B1i[k][j][ip])/pG->r[i];
      B[1] = pG->Nx[1]>1 ? 0.5*(pG->B2i[k][j][i] + pG->B2i[k][jp][i]) : pG->B2i[k][j][i];
      B[2] = pG->Nx[2]>1 ? 0.5*(pG->B3i[k][j][i] + pG->B3i[kp][j][i]) : pG->B3i[k][j][i];
    }
#endif
    in = MODE != 'c';
    w[0] = 1.0 + am*hsh(0,a,bb,cc);
    for (n = 1; n < 4; n++) w[n] = in*K0[n] + am*hsh(n,a,bb,cc);
    if (x.flip2) w[2] = -w[2];
    if (x.flip3) w[3] = -w[3];
    w[4] = 0.8 + am*hsh(4,a,bb,cc); w[5] = 0.5 + 0.3*hsh(5,a,bb,cc);
    if (MODE == 'c' && am == 0.0) w[5] = 0.5;
    setcell(pG, i, j, k, w, B);
  }
}
static void run(Out *o, int n1, int n2, int n3, Xf x)
{
  int st;
  pid_t pid;
  fflush(stdout);
  if ((pid = fork()) == 0) {
    MeshS M; VDFun_t Integrate; GridS *pG; int i, j, k, n, it, N[3], dim;
    memset(&M, 0, sizeof(M));
    N[0] = n1; N[1] = n2; N[2] = n3; dim = (n1>1)+(n2>1)+(n3>1);
    X0[0] = 1.0; X1[0] = 2.0; X0[1] = 0.3; X1[1] = 0.7; X0[2] = 0.0; X1[2] = 0.7;
    pars(n1, n2, n3, 4);
    par_seti("domain1", "bc_ix1", "%d", 2, ""); par_seti("domain1", "bc_ox1", "%d", 2, "");
    init_mesh(&M); init_grid(&M);
    pG = M.Domain[0][0].Grid;
    if (MODE == 'r') { StaticGravPot = grav; }
    if (MODE == 'e' || MODE == 'r') exact(pG); else randomstate(pG, x, dim);
    bvals_mhd_init(&M);
    if (MODE == 'c' || MODE == 'm') bvals_mhd(&M.Domain[0][0]);
    lr_states_init(&M);
    Integrate = integrate_init(&M);
    M.dt = pG->dt = 1e10;
    o->T[0] = n1+2*nghost; o->T[1] = n2>1 ? n2+2*nghost : 1; o->T[2] = n3>1 ? n3+2*nghost : 1;
    for (it = 0; it <= STEPS; it++) {
      double t[6] = {0,0,0,0,0,0}; double dv = 0, ba = 0;
      if (it == STEPS || MODE == 'c') {
        double *v = o->val;
        for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++) {
          ConsS *u = &pG->U[k][j][i]; double r = pG->r[i], q[6] = {0,0,0,0,0,0};
          q[0] = u->d; q[1] = r*u->M2; q[2] = u->M3;
#ifndef BAROTROPIC
          q[3] = u->E;
#endif
#if (NSCALARS > 0)
          q[4] = u->s[0];
#endif
#ifdef MHD
          if (dim < 3) q[5] = u->B3c;
#endif
          for (n = 0; n < 6; n++) t[n] += r*q[n];
#ifdef MHD
          if (dim > 1) {
            double d = (pG->ri[i+1]*pG->B1i[k][j][i+1] - pG->ri[i]*pG->B1i[k][j][i])/pG->dx1/r + (pG->B2i[k][j+1][i]-pG->B2i[k][j][i])/pG->dx2/r;
            double b1 = 0.5*(pG->ri[i]*pG->B1i[k][j][i]+pG->ri[i+1]*pG->B1i[k][j][i+1])/r, b2 = 0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]), b3 = pG->B3i[k][j][i];
            if (dim > 2) { d += (pG->B3i[k+1][j][i]-pG->B3i[k][j][i])/pG->dx3; b3 = 0.5*(b3 + pG->B3i[k+1][j][i]); }
            double *f = cellp(o, i, j, k);
            if (it == 0) f[0] = d;
            if (fabs(d-f[0]) > dv) dv = fabs(d-f[0]);
            b1 = fabs(b1-u->B1c)+fabs(b2-u->B2c)+fabs(b3-u->B3c); if (b1 > ba) ba = b1;
          }
#endif
        }
        if (MODE == 'c') {
          if (it == 0) { for (n = 0; n < 6; n++) v[n] = t[n]; }
          else {
            const char *nm[] = {"mass","angular momentum","axial momentum","energy","passive scalar","axial flux"};
            for (n = 0; n < 6; n++) if (!(fabs(t[n]-v[n]) < 1e-10*n1*n2*n3)) fail("step %d: total %s changed by %.6e (from %.6e)", it, nm[n], t[n]-v[n], v[n]);
            if (!(dv < 1e-9)) fail("step %d: div B of some cell changed by %.6e", it, dv);
            if (!(ba < 1e-12)) fail("step %d: cell-centred field is not the average of the faces (off by %.6e)", it, ba);
          }
        }
      }
      if (it == STEPS) break;
      new_dt(&M);
      if (DTFIX > 0.0) M.dt = pG->dt = DTFIX;
      (*Integrate)(&M.Domain[0][0]);
      M.time += M.dt; pG->time = M.time; M.nstep++;
      if (MODE == 'c' || MODE == 'm') bvals_mhd(&M.Domain[0][0]);
    }
    o->dt = M.dt;
    for (n = 0; n < 3; n++) { o->N[n] = N[n]; o->T[n] = N[n]; }
    for (k = 0; k < N[2]; k++) for (j = 0; j < N[1]; j++) for (i = 0; i < N[0]; i++) {
      double *f = cellp(o, i, j, k); ConsS *u = &pG->U[k+pG->ks][j+pG->js][i+pG->is];
      memset(f, 0, NF*sizeof(double));
      f[0] = u->d; f[1] = u->M1; f[2] = u->M2; f[3] = u->M3;
#ifndef BAROTROPIC
      f[4] = u->E;
#endif
#if (NSCALARS > 0)
      f[5] = u->s[0];
#endif
#ifdef MHD
      f[6] = u->B1c; f[7] = u->B2c; f[8] = u->B3c;
      f[9] = pG->B1i[k+pG->ks][j+pG->js][i+pG->is]; f[10] = pG->B2i[k+pG->ks][j+pG->js][i+pG->is]; f[11] = pG->B3i[k+pG->ks][j+pG->js][i+pG->is];
#endif
    }
    if (MODE == 'e' || MODE == 'r') {         /* residual of one step, L1 per unit time */
      double res[NF]; 
      memset(res, 0, sizeof(res));
      exact(pG);
      for (k = 0; k < N[2]; k++) for (j = 0; j < N[1]; j++) for (i = 0; i < N[0]; i++) {
        double *f = cellp(o, i, j, k), g[NF]; ConsS *u = &pG->U[k+pG->ks][j+pG->js][i+pG->is];
        memset(g, 0, sizeof(g));
        g[0] = u->d; g[1] = u->M1; g[2] = u->M2; g[3] = u->M3;
#ifndef BAROTROPIC
        g[4] = u->E;
#endif
#if (NSCALARS > 0)
        g[5] = u->s[0];
#endif
#ifdef MHD
        g[6] = u->B1c; g[7] = u->B2c; g[8] = u->B3c;
#endif
        for (n = 0; n < 9; n++) res[n] += fabs(f[n]-g[n])/(o->dt*STEPS)/((double)N[0]*N[1]*N[2]);
      }
      for (n = 0; n < 9; n++) o->f[n] = res[n];
    }
    fflush(stdout);
    _exit(nfail ? 1 : 0);
  }
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st)) { printf("CRASH %d\n", WTERMSIG(st)); exit(3); }
  if (WEXITSTATUS(st)) { if (WEXITSTATUS(st) == 1) nfail++; else { printf("EXIT %d\n", WEXITSTATUS(st)); exit(3); } }
}
int main(int argc, char **argv)
{
  int N[3], n, i, j, k, dim; Out *a = newout(), *b = newout(); Xf id = {0,0,0};
  static const char *nm[] = {"d","M1","M2","M3","E","s","B1c","B2c","B3c","B1i","B2i","B3i"};
  MODE = argv[1][0]; SEED = atol(argv[2]); rseed(SEED);
  for (n = 0; n < 3; n++) N[n] = atoi(argv[3+n]);
  dim = (N[0]>1)+(N[1]>1)+(N[2]>1);
  K0[0] = 0.5 + 0.3*urand();
  for (n = 1; n < 4; n++) K0[n] = (urand() < 0.5 ? -1 : 1)*(0.25 + 0.3*urand());
  for (n = 4; n < 7; n++) K0[n] = (urand() < 0.5 ? -1 : 1)*(0.3 + 0.4*urand());
  if (MODE == 'e') for (n = 1; n < 5; n += 3) {       /* no extremum of the components inside the domain */
    double q = hypot(K0[n], K0[n+1]), al = 0.5*M_PI*(int)(4*urand()) - (0.25 + 0.1*urand());
    K0[n] = q*cos(al); K0[n+1] = q*sin(al);
  }
  K0[7] = 0.8 + 0.4*urand(); K0[8] = 0.7 + 0.4*urand(); K0[9] = urand();
  if (MODE == 'c') { STEPS = 2; run(a, N[0], N[1], N[2], id); return done(); }
  if (MODE == 'e' || MODE == 'r') {
    STEPS = argc > 6 ? atoi(argv[6]) : 1;
    run(a, N[0], N[1], N[2], id);
    run(b, 2*N[0], N[1]>1 ? 2*N[1] : 1, N[2]>1 ? 2*N[2] : 1, id);
    for (n = 0; n < 9; n++) {
      /* below this the (nonsmooth) Riemann solver and limiters dominate the residual */
#ifdef MHD
      double floor_ = 2.5e-4;
#else
      double floor_ = 8e-5;
#endif
      if (argc > 7) printf("%s %.3e %.3e ratio %.2f dt %.3e\n", nm[n], a->f[n], b->f[n], a->f[n]/(b->f[n]+1e-300), b->dt);
      if (!(b->f[n] < 1.0/2.7*a->f[n] + floor_)) fail("steady solution: time derivative of %s does not converge with second order: %.6e at %d cells, %.6e at %d cells", nm[n], a->f[n], N[0], b->f[n], 2*N[0]);
    }
    return done();
  }
  STEPS = 2;
  if (MODE == 'm') {
    static double sg[3][12] = {{1,1,-1,1,1,1,-1,1,-1,-1,1,-1}, {1,1,1,-1,1,1,-1,-1,1,-1,-1,1}, {1,1,1,1,1,1,1,1,1,1,1,1}};
    int t;
    run(a, N[0], N[1], N[2], id);
    for (t = 0; t < 3; t++) {
      Xf x = {t == 0, t == 1, t == 2 ? 3 : 0};
      run(b, N[0], N[1], N[2], x);
      if (!(fabs(a->dt-b->dt) < 1e-12)) fail("dt differs after %s", t == 0 ? "mirror in phi" : t == 1 ? "mirror in z" : "shift in phi");
      for (k = 0; k < N[2]; k++) for (j = 0; j < N[1]; j++) for (i = 0; i < N[0]; i++) for (n = 0; n < 12; n++) {
        int jj = j, kk = k;
        double *f, *g = cellp(b, i, j, k);
        if (t == 0) jj = n == 10 && N[1] > 1 ? (N[1]-j) % N[1] : N[1]-1-j;
        if (t == 1) kk = n == 11 && N[2] > 1 ? (N[2]-k) % N[2] : N[2]-1-k;
        if (t == 2) jj = (j+3) % N[1];
        f = cellp(a, i, jj, kk);
        if (!(fabs(g[n] - sg[t][n]*f[n]) < 1e-11)) fail("%s: %s at (%d,%d,%d) is %.15g, expected %.15g", t == 0 ? "mirror in phi" : t == 1 ? "mirror in z" : "shift in phi", nm[n], i, j, k, g[n], sg[t][n]*f[n]);
      }
    }
  }
  if (MODE == 'd') {
    int M_[3] = {N[0], N[1], N[2]};
    K0[10] = dim-1; STEPS = 1;
    DTFIX = 0.2/N[0]/(dim > 2 ? 2.0 : 1.0)/3.0;
    run(a, N[0], N[1], N[2], id);
    M_[dim-1] = 1;
    run(b, M_[0], M_[1], M_[2], id);
    for (k = 0; k < N[2]; k++) for (j = 0; j < N[1]; j++) for (i = 0; i < N[0]; i++) for (n = 0; n < 12; n++) {
      double *f = cellp(a, i, j, k), *g = cellp(b, i, j % M_[1], k % M_[2]);
      double tol = 1e-10;
#if defined(MHD) && defined(ISOTHERMAL)
      if (n == 1) tol = 1e-5;     /* the half-step axial field of the radial source term is a face average in 3D only */
#endif
      if (!(fabs(g[n] - f[n]) < tol)) fail("axis dropped: %s at (%d,%d,%d) is %.15g, with the axis %.15g", nm[n], i, j, k, g[n], f[n]);
    }
  }
  return done();
}
