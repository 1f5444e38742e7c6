#define _GNU_SOURCE
/* output files: the real program (main.c) with a problem of its own.  argv: seed n1 n2 n3 [L,N1,N2,N3,d1,d2,d3]...
   After a step every kind of dump is written and read back: history (volume averages), VTK, binary and table dumps (values,
   positions, sizes, file names), slices and averages of single variables. */
#define main athena_main
#include "main.c"
#ifdef PARTICLES
#include "particles/particle.h"
#endif
#undef main
#include <unistd.h>
#include <stdint.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/stat.h>
static uint64_t rs = 88172645463325252ULL;
static double urand(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return ((double)(rs >> 11) + 0.5)/9007199254740992.0; }
static double sym(double a) { return a*(2.0*urand() - 1.0); }
static FILE *rep; static long theseed; static int nfail = 0; static double user1, user2;
static void fail(const char *fmt, ...) { va_list ap; if (++nfail > 8) return; fprintf(rep, "FAIL: "); va_start(ap, fmt); vfprintf(rep, fmt, ap); va_end(ap); fprintf(rep, "\n"); fflush(rep); }
static double ca[16][10];
static double wave(int f, Real x1, Real x2, Real x3)
{
  double s = 0, x[3] = {x1, x2, x3}; int n, a; static const int m[4][3] = {{1,0,0},{0,1,0},{0,0,1},{1,1,1}};
  for (n = 0; n < 4; n++) { double ph = 0; for (a = 0; a < 3; a++) ph += 2*M_PI*m[n][a]*x[a]; s += ca[f][n]*sin(ph + ca[f][n+4]); }
  return s;
}
#define ALL for (k = pG->ks; k <= pG->ke; k++) for (j = pG->js; j <= pG->je; j++) for (i = pG->is; i <= pG->ie; i++)
static void coefs(void) { int n, a; rs = 88172645463325252ULL ^ ((uint64_t)theseed*0x9E3779B97F4A7C15ULL); for (n = 0; n < 20; n++) urand(); for (n = 0; n < 16; n++) { for (a = 0; a < 4; a++) ca[n][a] = sym(0.1); for (; a < 8; a++) ca[n][a] = 6*urand(); ca[n][8] = sym(0.5); } }
void problem(DomainS *pD)
{
  GridS *pG = pD->Grid; int i, j, k, n; Real a, b, c;
  user1 = 0.12345678901234567; user2 = -7.5;
#ifdef MHD
  for (k = pG->ks; k <= pG->ke + (pG->Nx[2] > 1); k++) for (j = pG->js; j <= pG->je + (pG->Nx[1] > 1); j++) for (i = pG->is; i <= pG->ie + 1; i++) {
    cc_pos(pG, i, j, k, &a, &b, &c);
    pG->B1i[k][j][i] = pG->Nx[1] == 1 ? 0.4 : 0.4 + wave(8, 0.0, b, c); pG->B2i[k][j][i] = 0.3 + wave(9, a, 0.0, c); pG->B3i[k][j][i] = -0.2 + wave(10, a, b, 0.0);
  }
#endif
  ALL {
    ConsS *u = &pG->U[k][j][i]; double v[3], e;
    cc_pos(pG, i, j, k, &a, &b, &c);
    u->d = 1.2 + wave(0, a, b, c);
    for (n = 0; n < 3; n++) v[n] = ca[1+n][8] + wave(1+n, a, b, c);
    u->M1 = u->d*v[0]; u->M2 = u->d*v[1]; u->M3 = u->d*v[2];
    e = (1.0 + wave(4, a, b, c))/0.4 + 0.5*u->d*(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
#ifdef MHD
    u->B1c = 0.5*(pG->B1i[k][j][i] + pG->B1i[k][j][i+1]);
    u->B2c = pG->Nx[1] > 1 ? 0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
    u->B3c = pG->Nx[2] > 1 ? 0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
    e += 0.5*(SQR(u->B1c) + SQR(u->B2c) + SQR(u->B3c));
#endif
#ifndef BAROTROPIC
    u->E = e;
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) u->s[n] = u->d*(0.5 + wave(5+n, a, b, c));
#endif
  }
}
void problem_write_restart(MeshS *pM, FILE *fp) {}
void problem_read_restart(MeshS *pM, FILE *fp) {}
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
void Userwork_in_loop(MeshS *pM) {}
static Real own(const GridS *pG, const int i, const int j, const int k) { return pG->U[k][j][i].M1*pG->U[k][j][i].M3 + 0.25*i; }
#define NC (int)(sizeof(ConsS)/sizeof(Real))
static double get(GridS *pG, int i, int j, int k, int prim, int n)
{
  ConsS u = pG->U[k][j][i];
  if (!prim) return ((Real*)&u)[n];
#ifdef SPECIAL_RELATIVITY
  { PrimS w = Cons_to_Prim(&u); return ((Real*)&w)[n]; }
#else
  if (n == 0) return u.d;
  if (n <= 3) return ((Real*)&u)[n]/u.d;
#ifndef BAROTROPIC
  if (n == 4) { double p = u.E - 0.5*(SQR(u.M1) + SQR(u.M2) + SQR(u.M3))/u.d;
#ifdef MHD
    p -= 0.5*(SQR(u.B1c) + SQR(u.B2c) + SQR(u.B3c));
#endif
    return p*(Gamma - 1.0); }
#endif
#ifdef MHD
  if ((Real*)&u + n <= &u.B3c) return ((Real*)&u)[n];
#endif
  return ((Real*)&u)[n]/u.d;
#endif
}
static double pos(GridS *pG, int a, int i) { double d = a == 0 ? pG->dx1 : a == 1 ? pG->dx2 : pG->dx3; int s = a == 0 ? pG->is : a == 1 ? pG->js : pG->ks; return pG->MinX[a] + (i - s + 0.5)*d; }
static int near(double a, double b, double tol) { return fabs(a - b) <= tol*(1e-3 + fabs(b)); }
static char *slurp(const char *fn, long *len)
{
  FILE *f = fopen(fn, "rb"); char *b; if (!f) return NULL;
  fseek(f, 0, SEEK_END); *len = ftell(f); rewind(f); b = malloc(*len + 1); if (fread(b, 1, *len, f) != (size_t)*len) *len = -1; b[*len] = 0; fclose(f); return b;
}
static void name(char *fn, int nl, int nd, int num, const char *ext)
{
  char dir[32] = "", lv[32] = "", dm[32] = "", nn[32] = "";
  if (nl) { sprintf(dir, "lev%d/", nl); sprintf(lv, "-lev%d", nl); }
  if (nd) sprintf(dm, "-dom%d", nd);
  if (num >= 0) sprintf(nn, ".%04d", num);
  sprintf(fn, "%sh%s%s%s.%s", dir, lv, dm, nn, ext);
}
static float be(const char *p) { unsigned char b[4]; float f; memcpy(b, p, 4); { unsigned char c[4] = {b[3], b[2], b[1], b[0]}; memcpy(&f, c, 4); } return f; }
static void vtkdata(GridS *pG, char **p, char *end, const char *head, int prim, int n0, int nv, const char *fn)
{
  int i, j, k, n; size_t L = strlen(head);
  char *q = *p < end ? memmem(*p, end - *p, head, L) : NULL;
  if (!q) { fail("%s: no '%s'", fn, head); return; }
  q += L; if (nv == 1) { const char *t = "LOOKUP_TABLE default\n"; if (strncmp(q, t, strlen(t))) { fail("%s: no lookup table line", fn); return; } q += strlen(t); }
  if (end - q < 4L*nv*pG->Nx[0]*pG->Nx[1]*pG->Nx[2]) { fail("%s: too short", fn); return; }
  ALL for (n = 0; n < nv; n++, q += 4) {
    double want = get(pG, i, j, k, prim, n0 + n); float got = be(q);
    if (!near(got, want, 3e-6)) { fail("%s: '%s' component %d of cell %d %d %d is %g in the file, %g in the run", fn, head, n, i, j, k, got, want); return; }
  }
  *p = q;
}
static void vtk(MeshS *pM, GridS *pG, int nl, int nd, int num, int prim)
{
  char fn[256], *b, *p, *end; long len; int dim[3], a; double o[3], dx[3]; long nc;
  name(fn, nl, nd, num, "vtk");
  if (!(b = slurp(fn, &len))) { fail("no file %s", fn); return; }
  end = b + len;
  if (!strstr(b, prim ? "PRIMITIVE vars" : "CONSERVED vars")) fail("%s: kind of variables", fn);
  if (!(p = strstr(b, "time= ")) || !near(atof(p + 6), pM->time, 1e-6)) fail("%s: time", fn);
  if (!(p = strstr(b, "DIMENSIONS")) || sscanf(p, "DIMENSIONS %d %d %d", dim, dim+1, dim+2) != 3) { fail("%s: no dimensions", fn); free(b); return; }
  for (a = 0; a < 3; a++) if (dim[a] != pG->Nx[a] + (a == 0 || pG->Nx[a] > 1)) fail("%s: %d points along axis %d of %d cells", fn, dim[a], a+1, pG->Nx[a]);
  if (!(p = strstr(b, "ORIGIN")) || sscanf(p, "ORIGIN %lf %lf %lf", o, o+1, o+2) != 3) fail("%s: no origin", fn);
  else for (a = 0; a < 3; a++) if (pG->Nx[a] > 1 && !near(o[a], pG->MinX[a], 1e-5)) fail("%s: origin along axis %d is %g instead of %g", fn, a+1, o[a], pG->MinX[a]);
  if (!(p = strstr(b, "SPACING")) || sscanf(p, "SPACING %lf %lf %lf", dx, dx+1, dx+2) != 3) fail("%s: no spacing", fn);
  else for (a = 0; a < 3; a++) if (pG->Nx[a] > 1 && !near(dx[a], (pG->MaxX[a]-pG->MinX[a])/pG->Nx[a], 1e-5)) fail("%s: spacing along axis %d is %g", fn, a+1, dx[a]);
  if (!(p = strstr(b, "CELL_DATA")) || sscanf(p, "CELL_DATA %ld", &nc) != 1 || nc != (long)pG->Nx[0]*pG->Nx[1]*pG->Nx[2]) { fail("%s: number of cells", fn); free(b); return; }
  vtkdata(pG, &p, end, "SCALARS density float\n", prim, 0, 1, fn);
  vtkdata(pG, &p, end, prim ? "VECTORS velocity float\n" : "VECTORS momentum float\n", prim, 1, 3, fn);
  a = 4;
#ifndef BAROTROPIC
  vtkdata(pG, &p, end, prim ? "SCALARS pressure float\n" : "SCALARS total_energy float\n", prim, a++, 1, fn);
#endif
#ifdef MHD
  vtkdata(pG, &p, end, "VECTORS cell_centered_B float\n", prim, a, 3, fn); a += 3;
#endif
  for (nc = 0; nc < NSCALARS; nc++) { char h[64]; sprintf(h, "SCALARS %sscalar[%ld] float\n", prim ? "specific_" : "", nc); vtkdata(pG, &p, end, h, prim, a++, 1, fn); }
  free(b);
}
static void bin(MeshS *pM, GridS *pG, int nl, int nd, int num, int prim)
{
  char fn[256], *b; long len, q; int hd[8], n, a, i, j, k; double *x;
  name(fn, nl, nd, num, "bin");
  if (!(b = slurp(fn, &len))) { fail("no file %s", fn); return; }
  memcpy(hd, b, sizeof(hd));
  if (hd[0] != -1 || hd[1] != pG->Nx[0] || hd[2] != pG->Nx[1] || hd[3] != pG->Nx[2] || hd[4] != NC || hd[5] != NSCALARS) { fail("%s: header says %d: %d %d %d cells, %d variables, %d scalars", fn, hd[0], hd[1], hd[2], hd[3], hd[4], hd[5]); free(b); return; }
  q = 4 + (long)pG->Nx[0] + pG->Nx[1] + pG->Nx[2] + (long)NC*pG->Nx[0]*pG->Nx[1]*pG->Nx[2];
  if (len != (long)(8*sizeof(int)) + q*8) { fail("%s: %ld bytes", fn, len); free(b); return; }
  x = malloc(q*8); memcpy(x, b + 8*sizeof(int), q*8);
#ifdef ISOTHERMAL
  if (x[0] != 0.0 || !near(x[1], Iso_csound, 1e-14)) fail("%s: sound speed", fn);
#else
  if (!near(x[0], Gamma - 1.0, 1e-14)) fail("%s: gamma-1", fn);
#endif
  if (x[2] != pM->time || x[3] != pM->dt) fail("%s: time or step", fn);
  q = 4;
  for (a = 0; a < 3; a++) for (i = 0; i < pG->Nx[a]; i++, q++) if (!near(x[q], pos(pG, a, i + (a == 0 ? pG->is : a == 1 ? pG->js : pG->ks)), 1e-12)) { fail("%s: x%d position %d is %g", fn, a+1, i, x[q]); goto out; }
  for (n = 0; n < NC; n++) ALL { double w = get(pG, i, j, k, prim, n); if (prim ? !near(x[q], w, 1e-8) : x[q] != w) { fail("%s: variable %d of cell %d %d %d is %.15g in the file, %.15g in the run", fn, n, i, j, k, x[q], w); goto out; } q++; }
out: free(x); free(b);
}
static void tab(MeshS *pM, GridS *pG, int nl, int nd, int num, int prim)
{
  char fn[256], line[4000], *t; FILE *f; int i, j, k, n, a;
  name(fn, nl, nd, num, "tab");
  if (!(f = fopen(fn, "r"))) { fail("no file %s", fn); return; }
  ALL {
    int c[3] = {i, j, k};
    do { if (!fgets(line, sizeof(line), f)) { fail("%s: too short", fn); goto out; } } while (line[0] == '#');
    t = line;
    for (a = 0; a < 3; a++) if (pG->Nx[a] > 1 && strtol(t, &t, 10) != c[a]) { fail("%s: cell number along axis %d of cell %d %d %d", fn, a+1, i, j, k); goto out; }
    for (a = 0; a < 3; a++) if (pG->Nx[a] > 1 && !near(strtod(t, &t), pos(pG, a, c[a]), 1e-12)) { fail("%s: x%d of cell %d %d %d", fn, a+1, i, j, k); goto out; }
    for (n = 0; n < NC; n++) { double g = strtod(t, &t), w = get(pG, i, j, k, prim, n); if (!near(g, w, 1e-8)) { fail("%s: variable %d of cell %d %d %d is %.12g in the file, %.12g in the run", fn, n, i, j, k, g, w); goto out; } }
    while (*t == ' ' || *t == '\n') t++;
    if (*t) { fail("%s: more columns than variables", fn); goto out; }
  }
out: fclose(f);
}
static void hst(MeshS *pM, GridS *pG, int nl, int nd)
{
  char fn[256], line[8000], last[8000] = "", *t; FILE *f; int i, j, k, n, m = 0; double v[64], w, vol = 0.0, g;
  name(fn, nl, nd, -1, "hst");
  if (!(f = fopen(fn, "r"))) { fail("no file %s", fn); return; }
  while (fgets(line, sizeof(line), f)) if (line[0] != '#') strcpy(last, line);
  fclose(f);
  memset(v, 0, sizeof(v));
  ALL {
    ConsS u = pG->U[k][j][i]; w = 1.0; vol += w; m = 0;
    v[m++] += w*u.d;
#ifndef BAROTROPIC
    v[m++] += w*u.E;
#endif
    v[m++] += w*u.M1; v[m++] += w*u.M2; v[m++] += w*u.M3;
#ifndef SPECIAL_RELATIVITY
    v[m++] += 0.5*w*u.M1*u.M1/u.d; v[m++] += 0.5*w*u.M2*u.M2/u.d; v[m++] += 0.5*w*u.M3*u.M3/u.d;
#ifdef MHD
    v[m++] += 0.5*w*SQR(u.B1c); v[m++] += 0.5*w*SQR(u.B2c); v[m++] += 0.5*w*SQR(u.B3c);
#endif
#if (NSCALARS > 0)
    for (n = 0; n < NSCALARS; n++) v[m++] += w*u.s[n];
#endif
    v[m++] += w*own(pG, i, j, k);
#endif
  }
  t = last;
  if (!near(strtod(t, &t), pM->time, 1e-12) || !near(strtod(t, &t), pM->dt, 1e-12)) fail("%s: time or step", fn);
  for (n = 0; n < m; n++) if (!near(g = strtod(t, &t), v[n]/vol, 1e-11)) fail("%s: column %d is %.12g, average over the domain %.12g", fn, n + 3, g, v[n]/vol);
}
/* slices and averages of single variables */
static void range(GridS *pG, int a, double l, double u, int *s, int *e)
{
  int s0 = a == 0 ? pG->is : a == 1 ? pG->js : pG->ks, n = pG->Nx[a], c; double d = (pG->MaxX[a]-pG->MinX[a])/n;
  if (n == 1) { *s = *e = s0; return; }
  c = floor((l - pG->MinX[a])/d); if (c < 0) c = 0; if (c > n - 1) c = n - 1; *s = s0 + c;
  c = floor((u - pG->MinX[a])/d); if (c < 0) c = 0; if (c > n - 1) c = n - 1; *e = s0 + c;
}
static void slices(GridS *pG)
{
  int red, a, t, nd = 1 + (pG->Nx[1] > 1) + (pG->Nx[2] > 1), i, j, k;
  for (red = 0; red < 8; red++) for (t = 0; t < 4; t++) {
    OutputS o; double l[3], u[3]; int s[3], e[3], st[3] = {pG->is, pG->js, pG->ks}, N[3], nx[3] = {1, 1, 1}, m = nd, outside = 0, c[3], at[3], kept[3], nk = 0; void *dat; double *flat;
    memset(&o, 0, sizeof(o)); o.expr = own; o.out = "own"; o.n = 1;
    for (a = 0; a < 3; a++) {
      double lo = pG->MinX[a], L = pG->MaxX[a] - lo;
      if (((red >> a) & 1) && pG->Nx[a] == 1) break;
      l[a] = 0.0; u[a] = 1.0;
      if ((red >> a) & 1) {
        m--; l[a] = lo + L*(t == 3 ? -0.3 + 1.6*urand() : urand()); u[a] = t == 0 ? l[a] : l[a] + urand()*L; if (t == 1) { l[a] = lo; u[a] = lo + L; } if (t == 2 && u[a] > lo + L) u[a] = lo + 0.999*L;
        if (u[a] < lo || l[a] >= lo + L) outside = 1;
        range(pG, a, l[a], u[a], s+a, e+a);
      } else { s[a] = st[a]; e[a] = st[a] + pG->Nx[a] - 1; if (pG->Nx[a] > 1 || a == 0) kept[nk++] = a; }
      N[a] = pG->Nx[a];
    }
    if (a < 3 || m < 1) continue;
    o.ndim = m; o.x1l = l[0]; o.x1u = u[0]; o.x2l = l[1]; o.x2u = u[1]; o.x3l = l[2]; o.x3u = u[2];
    o.reduce_x1 = red & 1; o.reduce_x2 = (red >> 1) & 1; o.reduce_x3 = (red >> 2) & 1;
    dat = m == 3 ? (void*)OutData3(pG, &o, nx, nx+1, nx+2) : m == 2 ? (void*)OutData2(pG, &o, nx, nx+1) : (void*)OutData1(pG, &o, nx);
    if (outside != (dat == NULL)) { fail("slice %d: %s although the range lies %s the grid", red, dat ? "data" : "no data", outside ? "outside" : "inside"); continue; }
    if (!dat) continue;
    for (a = 0; a < m; a++) if (nx[a] != pG->Nx[kept[a]]) { fail("slice %d: size %d along axis %d", red, nx[a], kept[a]+1); break; }
    if (a < m) continue;
    flat = m == 3 ? ((Real***)dat)[0][0] : m == 2 ? ((Real**)dat)[0] : (Real*)dat;
    for (c[2] = 0; c[2] < nx[2]; c[2]++) for (c[1] = 0; c[1] < nx[1]; c[1]++) for (c[0] = 0; c[0] < nx[0]; c[0]++) {
      double sum = 0.0; int cnt = 0, S[3], E[3];
      for (a = 0; a < 3; a++) { S[a] = s[a]; E[a] = e[a]; }
      for (a = 0; a < m; a++) S[kept[a]] = E[kept[a]] = st[kept[a]] + c[a];
      for (k = S[2]; k <= E[2]; k++) for (j = S[1]; j <= E[1]; j++) for (i = S[0]; i <= E[0]; i++) { sum += own(pG, i, j, k); cnt++; }
      if (!near(*flat, sum/cnt, 1e-11)) { fail("reduction %d of ranges [%g,%g] [%g,%g] [%g,%g]: point %d %d %d is %.12g, average of the cells %.12g", red, l[0], u[0], l[1], u[1], l[2], u[2], c[0], c[1], c[2], *flat, sum/cnt); goto next; }
      flat++;
    }
next: ;
  }
}
void Userwork_after_loop(MeshS *pM)
{
  int nl, nd, t; OutputS o; GridS *pG;
  if (getenv("NOHST") == NULL) dump_history_enroll(own, "own");
  for (t = 0; t < 2; t++) {
    memset(&o, 0, sizeof(o)); o.nlevel = o.ndomain = -1; o.out = t ? "prim" : "cons"; o.num = 40 + t; o.dat_fmt = "%24.16e"; o.id = "x";
    dump_vtk(pM, &o); dump_binary(pM, &o); if (t) dump_tab_prim(pM, &o); else dump_tab_cons(pM, &o);
    if (t == 0) { o.num = 0; dump_history(pM, &o); o.num = 1; dump_history(pM, &o); o.num = 40; }
  }
  for (nl = 0; nl < pM->NLevels; nl++) for (nd = 0; nd < pM->DomainsPerLevel[nl]; nd++) if ((pG = pM->Domain[nl][nd].Grid) != NULL) {
    for (t = 0; t < 2; t++) { vtk(pM, pG, nl, nd, 40 + t, t); bin(pM, pG, nl, nd, 40 + t, t); tab(pM, pG, nl, nd, 40 + t, t); }
    hst(pM, pG, nl, nd);
    slices(pG);
  }
  fflush(stdout);
}
int main(int argc, char **argv)
{
  int n, a, N[3], st; char top[64], buf[256]; FILE *f; pid_t p; char *av[4];
  theseed = atol(argv[1]); coefs();
  for (n = 0; n < 3; n++) N[n] = atoi(argv[2+n]);
  sprintf(top, "outf.%ld", (long)getpid()); mkdir(top, 0700);
  if (chdir(top)) return 9;
  f = fopen("athinput", "w");
  fprintf(f, "<job>\nproblem_id = h\nmaxout = 1\nnum_domains = %d\n<output1>\nout_fmt = rst\ndt = 1e9\n<log>\nfile_open = 0\n<time>\ncour_no = 0.4\nnlim = 1\ntlim = 1.0e3\n", argc - 4);
  fprintf(f, "<domain1>\nlevel = 0\nNx1 = %d\nx1min = 0.0\nx1max = 1.3\nNx2 = %d\nx2min = -0.5\nx2max = 0.5\nNx3 = %d\nx3min = 0.2\nx3max = 1.1\nbc_ix1 = 4\nbc_ox1 = 4\nbc_ix2 = 4\nbc_ox2 = 4\nbc_ix3 = 4\nbc_ox3 = 4\n", N[0], N[1], N[2]);
  for (n = 5; n < argc; n++) {
    int L, q[3], d[3];
    sscanf(argv[n], "%d,%d,%d,%d,%d,%d,%d", &L, q, q+1, q+2, d, d+1, d+2);
    fprintf(f, "<domain%d>\nlevel = %d\n", n - 3, L);
    for (a = 0; a < 3; a++) fprintf(f, "Nx%d = %d\n%cDisp = %d\n", a+1, q[a], 'i'+a, d[a]);
  }
  fprintf(f, "<problem>\ngamma = 1.4\niso_csound = 0.9\n");
  fclose(f); fflush(stdout);
  av[0] = "athena"; av[1] = "-i"; av[2] = "athinput"; av[3] = NULL;
  if ((p = fork()) == 0) { rep = fdopen(dup(1), "w"); if (!freopen("log.txt", "w", stdout) || !freopen("log2.txt", "w", stderr)) exit(9); alarm(100); n = athena_main(3, av); exit(n ? 9 : nfail ? 1 : 0); }
  waitpid(p, &st, 0);
  if (chdir("..")) return 9;
  if (!getenv("KEEP")) { sprintf(buf, "rm -rf '%s'", top); if (system(buf)) return 9; }
  if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { printf("%s %d\n", getenv("STRICT") ? "run ended with" : "FAIL: run ended with", st); return 1; }
  if (WEXITSTATUS(st)) { printf("FAILED\n"); return 1; }
  printf("OK\n"); return 0;
}
