/* interrupted runs: the real program (main.c) with a problem of its own.  argv: seed nsteps n1 n2 n3 [L,N1,N2,N3,d1,d2,d3]...
   The run is made once without interruption, writing a restart file after every step, and once more from every restart file;
   final states (bit for bit), step counts and all later output files must agree. */
#define main athena_main
#include "main.c"
#ifdef PARTICLES
#include "particles/particle.h"
#endif
#undef main
#include <unistd.h>
#include <stdint.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/stat.h>
static uint64_t rs = 88172645463325252ULL;
static double urand(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return ((double)(rs >> 11) + 0.5)/9007199254740992.0; }
static double sym(double a) { return a*(2.0*urand() - 1.0); }
static long theseed; static int nfail = 0; static double user1, user2;
static void fail(const char *fmt, ...) { va_list ap; if (++nfail > 8) return; printf("FAIL: "); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); }
static double ca[16][10];
static double wave(int f, Real x1, Real x2, Real x3)
{
  double s = 0, x[3] = {x1, x2, x3}; int n, a; static const int m[4][3] = {{1,0,0},{0,1,0},{0,0,1},{1,1,1}};
  for (n = 0; n < 4; n++) { double ph = 0; for (a = 0; a < 3; a++) ph += 2*M_PI*m[n][a]*x[a]; s += ca[f][n]*sin(ph + ca[f][n+4]); }
  return s;
}
#define ALL for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++)
static void coefs(void) { int n, a; rs = 88172645463325252ULL ^ ((uint64_t)theseed*0x9E3779B97F4A7C15ULL); for (n = 0; n < 20; n++) urand(); for (n = 0; n < 16; n++) { for (a = 0; a < 4; a++) ca[n][a] = sym(0.1); for (; a < 8; a++) ca[n][a] = 6*urand(); ca[n][8] = sym(0.5); } }
void problem(DomainS *pD)
{
  GridS *pG = pD->Grid; int i, j, k, n; Real a, b, c;
  user1 = 0.12345678901234567; user2 = -7.5;
#ifdef MHD
  for (k = pG->ks; k <= pG->ke + (pG->Nx[2] > 1); k++) for (j = pG->js; j <= pG->je + (pG->Nx[1] > 1); j++) for (i = pG->is; i <= pG->ie + 1; i++) {
    cc_pos(pG, i, j, k, &a, &b, &c);
    pG->B1i[k][j][i] = pG->Nx[1] == 1 ? 0.4 : 0.4 + wave(8, 0.0, b, c); pG->B2i[k][j][i] = 0.3 + wave(9, a, 0.0, c); pG->B3i[k][j][i] = -0.2 + wave(10, a, b, 0.0);
  }
#endif
  ALL {
    ConsS *u = &pG->U[k][j][i]; double v[3], e;
    cc_pos(pG, i, j, k, &a, &b, &c);
    u->d = 1.2 + wave(0, a, b, c);
    for (n = 0; n < 3; n++) v[n] = ca[1+n][8] + wave(1+n, a, b, c);
    u->M1 = u->d*v[0]; u->M2 = u->d*v[1]; u->M3 = u->d*v[2];
    e = (1.0 + wave(4, a, b, c))/0.4 + 0.5*u->d*(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
#ifdef MHD
    u->B1c = 0.5*(pG->B1i[k][j][i] + pG->B1i[k][j][i+1]);
    u->B2c = pG->Nx[1] > 1 ? 0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
    u->B3c = pG->Nx[2] > 1 ? 0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
    e += 0.5*(SQR(u->B1c) + SQR(u->B2c) + SQR(u->B3c));
#endif
#ifndef BAROTROPIC
    u->E = e;
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) u->s[n] = u->d*(0.5 + wave(5+n, a, b, c));
#endif
  }
#ifdef PARTICLES
  { long p; int np = NPAR;
    if (np + 2 > pG->arrsize) particle_realloc(pG, np + 2);
    pG->nparticle = np; grproperty[0].num = (np + 1)/2; grproperty[1].num = np/2;
    tstop0[0] = 0.07; tstop0[1] = 0.19;
#ifdef FEEDBACK
    grproperty[0].m = 0.02; grproperty[1].m = 0.07;
#endif
    for (p = 0; p < np; p++) {
      GrainS *q = &pG->particle[p]; memset(q, 0, sizeof(*q));
      q->x1 = pG->MinX[0] + urand()*(pG->MaxX[0]-pG->MinX[0]); q->x2 = pG->Nx[1] > 1 ? pG->MinX[1] + urand()*(pG->MaxX[1]-pG->MinX[1]) : 0.5*(pG->MinX[1]+pG->MaxX[1]);
      q->x3 = pG->Nx[2] > 1 ? pG->MinX[2] + urand()*(pG->MaxX[2]-pG->MinX[2]) : 0.5*(pG->MinX[2]+pG->MaxX[2]);
      q->v1 = sym(0.7); q->v2 = sym(0.7); q->v3 = sym(0.7); q->property = p % 2; q->pos = 1; q->my_id = p;
#ifdef MPI_PARALLEL
      q->init_id = 0;
#endif
    }
  }
#endif
}
void problem_write_restart(MeshS *pM, FILE *fp) { fwrite(&user1, sizeof(double), 1, fp); fwrite(&user2, sizeof(double), 1, fp); }
void problem_read_restart(MeshS *pM, FILE *fp) { if (fread(&user1, sizeof(double), 1, fp) != 1 || fread(&user2, sizeof(double), 1, fp) != 1) user1 = 0.0; }
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
void Userwork_in_loop(MeshS *pM) {}
#ifdef PARTICLES
PropFun_t get_usr_par_prop(const char *name) { return NULL; }
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3) {}
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3, const Real v1, const Real v2, const Real v3) {}
#endif
static char *statefile;
/* a record per value: 'name', then the bits */
static void put(FILE *f, const char *nm, int a, int b, int c, int d, double v) { fprintf(f, "%s %d %d %d %d %.17g\n", nm, a, b, c, d, v); }
void Userwork_after_loop(MeshS *pM)
{
  FILE *f = fopen(statefile, "w"); int nl, nd, i, j, k, n; GridS *pG;
  put(f, "number of steps", 0, 0, 0, 0, pM->nstep); put(f, "time", 0, 0, 0, 0, pM->time); put(f, "time step", 0, 0, 0, 0, pM->dt);
  put(f, "problem's own data", 0, 0, 0, 0, user1); put(f, "problem's own data", 0, 0, 0, 1, user2);
  for (nl = 0; nl < pM->NLevels; nl++) for (nd = 0; nd < pM->DomainsPerLevel[nl]; nd++) if ((pG = pM->Domain[nl][nd].Grid) != NULL) {
    put(f, "grid time", nl, nd, 0, 0, pG->time); put(f, "grid step", nl, nd, 0, 0, pG->dt);
    ALL for (n = 0; n < (int)(sizeof(ConsS)/sizeof(Real)); n++) put(f, "cell component", nl*100 + n, i, j, k, ((Real*)&pG->U[k][j][i])[n]);
#ifdef MHD
    for (k = pG->ks; k <= pG->ke + (pG->Nx[2] > 1); k++) for (j = pG->js; j <= pG->je + (pG->Nx[1] > 1); j++) for (i = pG->is; i <= pG->ie + 1; i++) {
      if (k <= pG->ke && j <= pG->je) put(f, "B1 face", nl, i, j, k, pG->B1i[k][j][i]);
      if (k <= pG->ke && i <= pG->ie) put(f, "B2 face", nl, i, j, k, pG->B2i[k][j][i]);
      if (j <= pG->je && i <= pG->ie) put(f, "B3 face", nl, i, j, k, pG->B3i[k][j][i]);
    }
#endif
#ifdef PARTICLES
    put(f, "number of particles", nl, 0, 0, 0, pG->nparticle);
    for (n = 0; n < npartypes; n++) { put(f, "particles of type", n, 0, 0, 0, grproperty[n].num); put(f, "stopping time", n, 0, 0, 0, tstop0[n]);
#ifdef FEEDBACK
      put(f, "particle mass", n, 0, 0, 0, grproperty[n].m);
#endif
    }
    for (i = 0; i < NPAR; i++) for (n = 0; n < pG->nparticle; n++) { GrainS *q = &pG->particle[n];   /* the storage order does not matter */
      if (q->my_id != i) continue;
      put(f, "particle x1", q->my_id, q->property, q->pos, 0, q->x1); put(f, "particle x2", q->my_id, 0, 0, 0, q->x2); put(f, "particle x3", q->my_id, 0, 0, 0, q->x3);
      put(f, "particle v1", q->my_id, 0, 0, 0, q->v1); put(f, "particle v2", q->my_id, 0, 0, 0, q->v2); put(f, "particle v3", q->my_id, 0, 0, 0, q->v3); }
#endif
  }
  fclose(f);
}
static int child(const char *dir, char **av)
{
  int n, st; pid_t p; fflush(stdout);
  if ((p = fork()) == 0) {
    if (chdir(dir) || !freopen("log.txt", "a", stdout) || !freopen("log.txt", "a", stderr)) _exit(9);
    for (n = 0; av[n]; n++) ;
    alarm(100);
    exit(athena_main(n, av));
  }
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
static char *slurp(const char *fn, long *len)
{
  FILE *f = fopen(fn, "rb"); char *b; if (!f) return NULL;
  fseek(f, 0, SEEK_END); *len = ftell(f); rewind(f); b = malloc(*len + 1); if (fread(b, 1, *len, f) != (size_t)*len) *len = -1; b[*len] = 0; fclose(f); return b;
}
static void same(const char *a, const char *b, const char *what)
{
  FILE *f = fopen(a, "r"), *g = fopen(b, "r"); char x[400], y[400];
  if (!f || !g) { fail("%s: no final state written", what); return; }
  for (;;) {
    char *p = fgets(x, sizeof(x), f), *q = fgets(y, sizeof(y), g);
    if (!p && !q) break;
#ifdef PARTICLES      /* sums over particles depend on their order in memory: rounding only */
    if (p && q && strcmp(x, y)) {
      char *c = strrchr(x, ' '), *d = strrchr(y, ' ');
      if (c - x == d - y && !strncmp(x, y, c - x) && fabs(atof(c) - atof(d)) < 1e-10) continue;
    }
#endif
    if (!p || !q || strcmp(x, y)) { if (p) x[strcspn(x, "\n")] = 0; if (q) y[strcspn(y, "\n")] = 0; fail("%s: continued run ends with '%s', uninterrupted run with '%s'", what, q ? y : "(nothing)", p ? x : "(nothing)"); break; }
  }
  fclose(f); fclose(g);
}
int main(int argc, char **argv)
{
  int n, a, ns = atoi(argv[2]), N[3], step; char top[64], dir[128], fn[256], buf[512], lim[64]; FILE *f;
  char *av[12];
  theseed = atol(argv[1]); coefs();
  for (n = 0; n < 3; n++) N[n] = atoi(argv[3+n]);
  sprintf(top, "rst.%ld", (long)getpid()); mkdir(top, 0700);
  sprintf(dir, "%s/a", top); mkdir(dir, 0700);
  sprintf(fn, "%s/athinput", dir); f = fopen(fn, "w");
  fprintf(f, "<job>\nproblem_id = h\nmaxout = 3\nnum_domains = %d\n<output1>\nout_fmt = rst\ndt = 1e-9\n<output2>\nout_fmt = hst\ndt = 1e-9\n<output3>\nout_fmt = vtk\ndt = %.4g\n<log>\nfile_open = 0\n<time>\ncour_no = 0.4\nnlim = %d\ntlim = 1.0e3\n", argc - 5, 0.4/(N[0] > N[1] ? N[0] : N[1]), ns);
  fprintf(f, "<domain1>\nlevel = 0\nNx1 = %d\nx1min = 0.0\nx1max = 1.0\nNx2 = %d\nx2min = 0.0\nx2max = 1.0\nNx3 = %d\nx3min = 0.0\nx3max = 1.0\nbc_ix1 = 4\nbc_ox1 = 4\nbc_ix2 = 4\nbc_ox2 = 4\nbc_ix3 = 4\nbc_ox3 = 4\n", N[0], N[1], N[2]);
  for (n = 6; n < argc; n++) {
    int L, q[3], d[3];
    sscanf(argv[n], "%d,%d,%d,%d,%d,%d,%d", &L, q, q+1, q+2, d, d+1, d+2);
    fprintf(f, "<domain%d>\nlevel = %d\n", n - 4, L);
    for (a = 0; a < 3; a++) fprintf(f, "Nx%d = %d\n%cDisp = %d\n", a+1, q[a], 'i'+a, d[a]);
  }
  fprintf(f, "<particle>\npartypes = 2\nparnumgrid = 100\nintegrator = 2\ninterp = 2\ntsmode = 3\ntshuf = 0.05\n<problem>\ngamma = 1.4\niso_csound = 0.9\n");
  fclose(f);
  statefile = "state";
  av[0] = "athena"; av[1] = "-i"; av[2] = "athinput"; av[3] = NULL;
  if ((a = child(dir, av)) != 0) fail("uninterrupted run ended with status %d", a);
  else for (step = 0; step < ns; step++) {
    char cdir[128], res[256]; struct dirent *de; DIR *dp;
    sprintf(cdir, "%s/b%d", top, step); mkdir(cdir, 0700);
    sprintf(res, "../a/h.%04d.rst", step); sprintf(lim, "time/nlim=%d", ns);
    av[0] = "athena"; av[1] = "-r"; av[2] = res; av[3] = lim; av[4] = NULL;
    sprintf(buf, "restart after step %d", step);
    user1 = user2 = 0.0;
    if ((a = child(cdir, av)) != 0) { fail("%s: run ended with status %d", buf, a); continue; }
    sprintf(fn, "%s/a/state", top); { char g[256]; sprintf(g, "%s/state", cdir); same(fn, g, buf); }
#ifdef PARTICLES
    continue;
#endif
    if (!(dp = opendir(cdir))) continue;
    while ((de = readdir(dp)) != NULL) {
      char g[600], h[600]; long la, lb; char *pa, *pb; const char *e = strrchr(de->d_name, '.');
      if (!e || strcmp(e, ".vtk")) continue;
      sprintf(g, "%s/a/%s", top, de->d_name); sprintf(h, "%s/%s", cdir, de->d_name);
      pa = slurp(g, &la); pb = slurp(h, &lb);
      if (!pa) fail("%s: the continued run writes %s, the uninterrupted run does not", buf, de->d_name);
      else if (la != lb || memcmp(pa, pb, la)) fail("%s: %s of the continued run differs from that of the uninterrupted run", buf, de->d_name);
      free(pa); free(pb);
    }
    closedir(dp);
    if (!(dp = opendir(dir))) continue;
    sprintf(fn, "%s/a/h.%04d.rst", top, step);
    { long len; char *p = slurp(fn, &len), *q = p ? strstr(p, "<output3>") : NULL; int next = 9999;
      if (q) { char *l = q; while (l && (l = strchr(l, '\n')) != NULL && l[1] != '<') { l++; if (!strncmp(l, "num", 3) && strchr(l, '=')) next = atoi(strchr(l, '=') + 1); } }
      while ((de = readdir(dp)) != NULL) {
        const char *e = strrchr(de->d_name, '.'); char h[600];
        if (!e || strcmp(e, ".vtk") || atoi(e - 4) < next) continue;
        sprintf(h, "%s/%s", cdir, de->d_name);
        if (access(h, R_OK)) fail("%s: the continued run does not write %s", buf, de->d_name);
      }
      free(p);
    }
    closedir(dp);
  }
  if (!getenv("KEEP")) { sprintf(buf, "rm -rf '%s'", top); if (system(buf)) nfail += 0; }
  if (nfail) { printf("FAILED %d\n", nfail); return 1; }
  printf("OK\n"); return 0;
}
