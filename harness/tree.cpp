// Q01-Q03: spatial trees (k-d, oct, brute force): construction, neighbour and gravity walks, moments
#include "gsym.h"
#include "hydrostub.h"
#include "Sph.h"
#include "Tree.h"
#include "KDTree.h"
#include "OctTree.h"
#include "BruteForceTree.h"
#include "NeighbourManager.h"
static int NP = 3, LEAF = 1, OPT = 0;
static const double B3[6][3] = {{-0.8125, 0.4375, 0.6875}, {0.15625, -0.75, -0.3125}, {0.6875, 0.09375, 0.34375}, {-0.25, 0.8125, -0.84375}, {0.4375, -0.34375, 0.0625}, {-0.5625, -0.1875, -0.59375}}, MASS[6] = {1, 2.5, 0.75, 1.5, 3, 0.5}, HB[6] = {0.203125, 0.125, 0.3125, 0.171875, 0.109375, 0.265625}; // dyadic: no rounding when constants are folded
enum { ORDER = 1, SYMH = 2, SYMV = 4, DIES = 8, MOVES = 16, LIGHT = 32, QUAD = 64, ACTIVE = 128, HMAX = 256, PLANE = 512, GADGET = 1024, TIGHT = 2048 };
static Parameters P; static const double KR = 2, TH = 0.49;
template <int n> struct World {
  typedef GradhSphParticle<n> Part; Part* p; DomainBox<n> box; ParticleTypeRegister* types; int act[6];
  void base() { P.intparams["hydro_forces"] = 1; P.intparams["dust_gravity"] = 0; P.stringparams["dust_forces"] = "none"; types = new ParticleTypeRegister(&P); for (int t = 0; t < Ntypes; t++) types->gravmask[t] = t != dust_type;
    for (int k = 0; k < n; k++) { box.min[k] = -1; box.max[k] = 1; box.size[k] = 2; box.half[k] = 1; box.boundary_lhs[k] = box.boundary_rhs[k] = openBoundary; } box.PeriodicGravity = 0; p = new Part[NP + 1]; }
  void place(const char* tag, int i) { Part& q = p[i]; for (int k = 0; k < n; k++) { q.r[k] = B3[i][k] + ((OPT & ORDER) && k == 0 ? Sg(tag, i, k, -1.9 - B3[i][0], 1.9 - B3[i][0]) : (OPT & (ORDER | PLANE)) == PLANE || k == 0 ? Sg(tag, i, k, -0.04, 0.04) : 0); } }
  void shape(const char* tag, int i) { Part& q = p[i]; q.h = (OPT & SYMH) ? Sg(tag, i, 0, 0.05, 0.7) : HB[i]; q.hrangesqd = KR * KR * q.h * q.h; }
  void particles() { base(); for (int i = 0; i < NP; i++) { Part& q = p[i]; q.iorig = i; q.level = 0; q.m = MASS[i]; q.ptype = gas_type; q.sound = (OPT & SYMV) ? Sg("cs", i, 0, 0.1, 2) : 1 + 0.1 * i; for (int k = 0; k < n; k++) { q.v[k] = (OPT & SYMV) && k < 1 ? Sg("v", i, k, -1, 1) : B3[5 - i][k]; q.atree[k] = B3[i][(k + 1) % 3]; } place("x", i); shape("h", i); if (i != 1) q.flags.set(active); } if (OPT & LIGHT) p[0].ptype = dust_type; }
};
template <int n, class T> struct Trees { };
template <int n> Tree<n, GradhSphParticle, KDTreeCell>* mk(KDTreeCell<n>*, World<n>& w, const char* mac, const char* mp) { return new KDTree<n, GradhSphParticle, KDTreeCell>(LEAF, TH, KR, 0.01, mac, mp, w.box, *w.types, false); }
template <int n> Tree<n, GradhSphParticle, OctTreeCell>* mk(OctTreeCell<n>*, World<n>& w, const char* mac, const char* mp) { Tree<n, GradhSphParticle, OctTreeCell>* t = new OctTree<n, GradhSphParticle, OctTreeCell>(LEAF, TH, KR, 0.01, mac, mp, w.box, *w.types, false); return t; }
template <int n> Tree<n, GradhSphParticle, BruteForceTreeCell>* mk(BruteForceTreeCell<n>*, World<n>& w, const char* mac, const char* mp) { return new BruteForceTree<n, GradhSphParticle, BruteForceTreeCell>(LEAF, TH, KR, 0.01, mac, mp, w.box, *w.types, false); }
// everything the walks rely on, cell by cell; quad: moments, hv: 1 = smoothing lengths only
template <int n, template <int> class Cell> void verify(Tree<n, GradhSphParticle, Cell>* t, World<n>& w, bool act) {
  bool seen[6] = {0}; int cc = 0, steps = 0, nl = 0;
  while (cc < t->Ncell && steps <= t->Ncell) { Cell<n>& c = t->celldata[cc]; steps++; if (c.copen != -1) cc = c.copen; else { if (c.N > 0) { int i = c.ifirst, g = 0; while (i >= 0 && i < NP && g++ <= NP) { gs_check("each-particle-in-one-leaf", !seen[i]); seen[i] = true; nl++; if (i == c.ilast) break; i = t->inext[i]; } gs_check("leaf-list-ends-at-last", i == c.ilast); } else gs_check("empty-leaf-has-no-list", c.ifirst == -1); cc = c.cnext; } }
  gs_check("walk-visits-every-cell-once", steps == t->Ncell); int live = 0; for (int i = 0; i < NP; i++) { bool l = !w.p[i].flags.is_dead(); live += l; gs_check("live-particles-in-tree", seen[i] == l); } gs_check("count", t->celldata[0].N == live);
  for (int c0 = 0; c0 < t->Ncell; c0++) { Cell<n>& c = t->celldata[c0]; bool in[6] = {0}; int cnt = 0, nact = 0; cc = c0; int g = 0; gs_check("cell-id", c.id == c0); gs_check("leaf-size", c.copen != -1 || c.N <= LEAF || t->Ncell == NP + 1); bool down = true;
    while ((cc == c0 && down) || (cc != c.cnext && cc < t->Ncell)) { down = false; Cell<n>& d = t->celldata[cc]; if (g++ > t->Ncell) { gs_check("subtree-closes", false); break; } if (d.copen != -1) { cc = d.copen; continue; } if (d.N > 0) for (int i = d.ifirst, q = 0; i >= 0 && i < NP && q < NP; i = t->inext[i], q++) { in[i] = true; cnt++; nact += w.p[i].flags.check(active); if (i == d.ilast) break; } cc = d.cnext; }
    gs_check("subtree-closes", cc == c.cnext || (cc >= t->Ncell && c.cnext >= t->Ncell)); gs_check("cell-count", c.N == cnt); if (c.copen == -1) gs_check("active-count", c.Nactive == nact); else if (act) gs_check("active-count", c.Nactive == nact || c.Nactive == 0);
    double m = 0, mr[n] = {0}, mv[n] = {0}; bool heavy = false;
    for (int i = 0; i < NP; i++) if (in[i]) { typename World<n>::Part& q = w.p[i]; double d2 = 0; gs_check_le("smoothing-length-bounded", q.h, c.hmax, 1); gs_check_le("sound-speed-bounded", q.sound, c.maxsound, 1); for (int k = 0; k < n; k++) { gs_check_le("box-contains-particle", c.bb.min[k], q.r[k], 1); gs_check_le("box-contains-particle", q.r[k], c.bb.max[k], 1); gs_check_le("kernel-box-contains-kernel", c.hbox.min[k], q.r[k] - KR * q.h, 1); gs_check_le("kernel-box-contains-kernel", q.r[k] + KR * q.h, c.hbox.max[k], 1); gs_check_le("velocity-box-contains-velocity", c.vbox.min[k], q.v[k], 1); gs_check_le("velocity-box-contains-velocity", q.v[k], c.vbox.max[k], 1); double x = q.r[k] - c.rcell[k]; d2 += x * x; } gs_check_le("sphere-contains-particle", d2, c.rmax * c.rmax, 1); gs_check("sphere-radius", c.rmax >= 0); if (OPT & GADGET) { double a2 = dot<n>(q.atree, q.atree); gs_check_le("smallest-acceleration", c.amin * c.amin, a2, 1); }
        if (q.ptype != dust_type) { heavy = true; m += q.m; for (int k = 0; k < n; k++) { mr[k] += q.m * q.r[k]; mv[k] += q.m * q.v[k]; } } }
    gs_check_close("cell-mass", c.m, m, 1); if (heavy) for (int k = 0; k < n; k++) { gs_check_close("centre-of-mass", c.r[k], mr[k] / m, 1); gs_check_close("centre-of-mass-velocity", c.v[k], mv[k] / m, 1); }
    if (cnt) { double tight = 0; for (int k = 0; k < n; k++) { double x = c.bb.max[k] - c.bb.min[k]; tight += x * x; } gs_check_close("bounding-radius-of-the-box", c.rmax * c.rmax, 0.25 * tight, 1); gs_check_le("opening-distance", tight * 0.25, c.cdistsqd * TH, 1); gs_check_le("opening-distance", c.hmax * c.hmax, c.cdistsqd * TH, 1); }
    if ((OPT & QUAD) && heavy && n > 1) { double q5[5] = {0}; for (int i = 0; i < NP; i++) if (in[i] && w.p[i].ptype != dust_type) { double d[3] = {0, 0, 0}; for (int k = 0; k < n; k++) d[k] = w.p[i].r[k] - mr[k] / m; double d2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], mi = w.p[i].m; q5[0] += mi * (3 * d[0] * d[0] - d2); q5[1] += 3 * mi * d[0] * d[1]; q5[2] += mi * (3 * d[1] * d[1] - d2); q5[3] += 3 * mi * d[2] * d[0]; q5[4] += 3 * mi * d[2] * d[1]; } for (int k = 0; k < (n == 3 ? 5 : 3); k++) gs_check_close("quadrupole-moment", c.q[k], q5[k], 10); gs_cover("quadrupole"); } }
  gs_cover("verified"); }
template <int n, template <int> class Cell> static Tree<n, GradhSphParticle, Cell>* grown(World<n>& w, const char* mac) { Tree<n, GradhSphParticle, Cell>* t = mk((Cell<n>*)0, w, mac, (OPT & QUAD) ? "quadrupole" : "monopole"); t->Ntot = NP; t->BuildTree(0, NP - 1, NP, (OPT & TIGHT) ? NP : 24, 0.1, w.p); return t; }
template <int n, template <int> class Cell> static void build() { World<n> w; w.particles(); Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, (OPT & GADGET) ? "gadget2" : "geometric"); verify<n, Cell>(t, w, false);
  if (OPT & DIES) { int d = gs_choose("dies", NP); w.p[d].flags.set(dead); if (gs_choose("two", 2)) w.p[(d + 1) % NP].flags.set(dead); t->StockTree(w.p, true); verify<n, Cell>(t, w, false); gs_cover("dead"); }
  if (OPT & MOVES) { for (int i = 0; i < NP; i++) { for (int k = 0; k < n; k++) w.p[i].r[k] += k ? 0.1 * B3[(i + 1) % 6][k] : Sg("moved", i, 0, -0.3, 0.3); w.p[i].h *= 1.1; } t->StockTree(w.p, true); verify<n, Cell>(t, w, false); gs_cover("moved"); }
  if (OPT & HMAX) { for (int i = 0; i < NP; i++) w.p[i].h = Sg("newh", i, 0, 0.05, 0.7); t->UpdateAllHmaxValues(w.p); OPT |= SYMH; for (int c0 = 0; c0 < t->Ncell; c0++) { Cell<n>& c = t->celldata[c0]; c.cdistsqd = 1e9; } verify<n, Cell>(t, w, false); gs_cover("hmax"); }
  if (OPT & ACTIVE) { for (int i = 0; i < NP; i++) { w.p[i].flags.unset(active); if (gs_choose("now-active", 2)) w.p[i].flags.set(active); } t->UpdateActiveParticleCounters(w.p); verify<n, Cell>(t, w, true); vector<TreeCellBase<n> > l; int na = t->ComputeActiveCellList(l), got = 0; int list[6]; for (int c = 0; c < na; c++) got += t->ComputeActiveParticleList(l[c], w.p, list); int want = 0; for (int i = 0; i < NP; i++) want += w.p[i].flags.check(active); gs_check("every-active-particle-is-found", got == want); gs_cover("active"); } }
// ---- neighbour searches against the definition
enum { MOVER = 1, PLANAR = 2, ONEH = 4, DEADONE = 8, DUSTY = 16, BND = 32 }; // BND: two bits per dimension from bit 5: 0 open, 1 periodic, 2 mirror on the left, 3 mirror on both sides
static double MOVEMAX = 0.97;
template <int n> void scene(World<n>& w) { int o = OPT; OPT = 0; w.base(); for (int k = 0; k < n; k++) { int b = (o >> (5 + 2 * k)) & 3; w.box.boundary_lhs[k] = b == 0 ? openBoundary : b == 1 ? periodicBoundary : mirrorBoundary; w.box.boundary_rhs[k] = b == 1 ? periodicBoundary : b == 3 ? mirrorBoundary : openBoundary; }
  for (int i = 0; i < NP; i++) { typename World<n>::Part& q = w.p[i]; q.iorig = i; q.level = 1; q.m = MASS[i]; q.ptype = gas_type; q.sound = 1 + 0.1 * i; q.flags.set(active); q.h = HB[i]; for (int k = 0; k < n; k++) { q.r[k] = B3[i][k]; q.v[k] = B3[5 - i][k]; q.atree[k] = B3[i][(k + 1) % 3]; } if (i == NP - 1 && (o & MOVER)) for (int k = 0; k < n; k++) if (k == 0 || (k == 1 && (o & PLANAR))) q.r[k] = Sg("at", i, k, -MOVEMAX, MOVEMAX); if (i == NP - 1 && (o & ONEH)) q.h = Sg("h", i, 0, 0.05, 0.45); q.hrangesqd = KR * KR * q.h * q.h; }
  if (o & DUSTY) w.p[0].ptype = dust_type; OPT = o; }
template <int n> double dist2(const double* a, const double* b) { double s = 0; for (int k = 0; k < n; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return s; }
template <int n, template <int> class Cell> void members(Tree<n, GradhSphParticle, Cell>* t, World<n>& w, int id, int* count) { int end = t->celldata[id].cnext, cc = id, g = 0; bool first = true; while ((first || cc != end) && cc < t->Ncell && g++ <= t->Ncell) { first = false; Cell<n>& d = t->celldata[cc]; if (d.copen != -1) { cc = d.copen; continue; } if (d.N > 0) for (int x = d.ifirst, z = 0; z < NP && x != -1; x = t->inext[x], z++) { if (!w.p[x].flags.is_dead() && w.p[x].ptype != dust_type) count[x]++; if (x == d.ilast) break; } cc = d.cnext; } }
static int howMany(const int* l, int m, int j) { int c = 0; for (int q = 0; q < m; q++) c += l[q] == j; return c; }
template <int n, template <int> class Cell> static void gather() { World<n> w; scene(w); Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, "geometric"); if (OPT & DEADONE) w.p[gs_choose("dead", NP)].flags.set(dead);
  double rp[3]; for (int k = 0; k < n; k++) rp[k] = k == 0 ? ((OPT & MOVER) ? -0.21 : gs_real("px", -1.3, 1.3)) : 0.05; double rs = gs_real("radius", 0.1, 1.2); int list[17], nn = 0, cap = gs_choose("capacity", 2) ? 16 : 3; list[cap] = -77; int g = t->ComputeGatherNeighbourList(w.p, rp, rs, cap, nn, list); gs_check("never-writes-past-the-list", list[cap] == -77);
  int full[6] = {-77, -77, -77, -77, -77, -77}, of = -1, og = t->ComputeGatherNeighbourList(w.p, rp, rs, 5, of, full + 1); gs_check("an-overflowed-list-stays-overflowed", og == -1 && full[0] == -77 && full[1] == -77);
  if (g == -1) { gs_check("overflow-only-when-small", cap == 3); gs_cover("overflow"); return; } gs_check("count-returned", g == nn && g <= cap); for (int j = 0; j < NP; j++) { bool in = !w.p[j].flags.is_dead() && dist2<n>(w.p[j].r, rp) < rs * rs; int c = howMany(list, g, j); gs_check("exactly-the-particles-in-range", c == (in ? 1 : 0)); gs_cover(in ? "in-range" : "out-of-range"); } }
template <int n, template <int> class Cell> static void cells() { World<n> w; scene(w); Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, "geometric"); int dd = -1; if (OPT & DEADONE) { dd = gs_choose("dead", NP); w.p[dd].flags.set(dead); } Typemask all, gas; for (int k = 0; k < Ntypes; k++) all[k] = true, gas[k] = k == gas_type; bool pair[6][6] = {{0}}; int npair[6][6] = {{0}};
  double hmax = (OPT & MOVER) ? 0.28125 : gs_real("hmax", 0.1, 0.5);
  for (int c0 = 0; c0 < t->Ncell; c0++) { Cell<n>& c = t->celldata[c0]; if (c.copen != -1 || c.N == 0) continue; TreeCellBase<n> cell = c; bool mine[6] = {0}; for (int i = c.ifirst, q = 0; q < NP; i = t->inext[i], q++) { mine[i] = true; if (i == c.ilast) break; }
    int l1[16], n1 = 0, g1 = t->ComputeGatherNeighbourList(cell, w.p, hmax, 16, n1, l1); gs_check("count-returned", g1 == n1); int l2[16], n2 = 0; typename World<n>::Part out[16]; int g2 = t->ComputeNeighbourList(cell, w.p, 16, n2, l2, out); gs_check("count-returned", g2 == n2);
    for (int j = 0; j < NP; j++) { bool dj = w.p[j].flags.is_dead(); bool ng = false, ns = false; for (int i = 0; i < NP; i++) if (mine[i]) { double d2 = dist2<n>(w.p[i].r, w.p[j].r); if (i == j || d2 < KR * KR * hmax * hmax) ng = true; if (i == j || d2 < w.p[i].hrangesqd || d2 < w.p[j].hrangesqd) ns = true; } int k1 = howMany(l1, g1, j), k2 = howMany(l2, g2, j); gs_check("no-duplicates-no-dead", k1 <= (dj ? 0 : 1) && k2 <= (dj ? 0 : 1)); if (!dj && ng) gs_check("gather-list-is-complete", k1 == 1); if (!dj && ns) gs_check("scatter-gather-list-is-complete", k2 == 1); }
    for (int q = 0; q < g2; q++) gs_check("copies-match-their-originals", out[q].iorig == l2[q]);
    NeighbourManager<n, typename World<n>::Part> nm(*w.types, KR, w.box); nm.clear(); t->ComputeNeighbourList(cell, nm); nm.EndSearch(cell, w.p); Typemask& mask = (OPT & DUSTY) ? gas : all;
    for (int i = 0; i < NP; i++) if (mine[i] && !w.p[i].flags.is_dead()) for (int once = 0; once < 2; once++) { NeighbourList<typename World<n>::Part> nl = nm.GetParticleNeib(w.p[i], mask, once); int have[6] = {0}; for (int q = 0; q < (int)nl.size(); q++) { int j = nl[q].iorig; have[j]++; gs_check("copies-match-their-originals", nl[q].r[0] == w.p[j].r[0] && nm.GetNeibI(nl._idx[q]).first == j); }
        for (int j = 0; j < NP; j++) { double d2 = dist2<n>(w.p[i].r, w.p[j].r); bool is = mask[w.p[j].ptype] && !w.p[j].flags.is_dead() && (d2 < w.p[i].hrangesqd || d2 < w.p[j].hrangesqd); if (!once) { gs_check("exactly-the-interacting-neighbours", have[j] == (is ? 1 : 0)); pair[i][j] = is; if (is && i != j) gs_cover("interacts"); } else npair[i][j] = have[j]; } } }
  for (int i = 0; i < NP; i++) for (int j = 0; j < i; j++) if (!w.p[i].flags.is_dead() && !w.p[j].flags.is_dead() && w.p[i].ptype == gas_type && w.p[j].ptype == gas_type) { gs_check("symmetric-neighbours", pair[i][j] == pair[j][i]); gs_check("each-pair-once", npair[i][j] + npair[j][i] == pair[i][j]); } gs_cover("searched"); }
// images of particle j in range of i: over the periodic copies and the mirror images
template <int n, template <int> class Cell> static void images() { World<n> w; scene(w); Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, "geometric"); Typemask all; for (int k = 0; k < Ntypes; k++) all[k] = true;
  for (int c0 = 0; c0 < t->Ncell; c0++) { Cell<n>& c = t->celldata[c0]; if (c.copen != -1 || c.N == 0) continue; TreeCellBase<n> cell = c; NeighbourManager<n, typename World<n>::Part> nm(*w.types, KR, w.box); nm.clear(); t->ComputeNeighbourAndGhostList(cell, nm); nm.EndSearch(cell, w.p);
    for (int i = c.ifirst, q = 0; q < NP; i = t->inext[i], q++) { NeighbourList<typename World<n>::Part> nl = nm.GetParticleNeib(w.p[i], all, false); int m = nl.size(), used = 0;
      for (int j = 0; j < NP; j++) { int nimg[3] = {1, 1, 1}; double pos[3][3], sg[3][3]; for (int k = 0; k < n; k++) { pos[k][0] = w.p[j].r[k]; sg[k][0] = 1; int b = (OPT >> (5 + 2 * k)) & 3; if (b == 1) { nimg[k] = 3; pos[k][1] = pos[k][0] - 2; pos[k][2] = pos[k][0] + 2; sg[k][1] = sg[k][2] = 1; } if (b >= 2) { nimg[k] = b; pos[k][1] = -2 - pos[k][0]; pos[k][2] = 2 - pos[k][0]; sg[k][1] = sg[k][2] = -1; } }
        for (int a = 0; a < nimg[0]; a++) for (int b = 0; b < (n > 1 ? nimg[1] : 1); b++) for (int d = 0; d < (n > 2 ? nimg[2] : 1); d++) { int ix[3] = {a, b, d}; double d2 = 0; for (int k = 0; k < n; k++) d2 += (pos[k][ix[k]] - w.p[i].r[k]) * (pos[k][ix[k]] - w.p[i].r[k]); bool in = d2 < w.p[i].hrangesqd || d2 < w.p[j].hrangesqd; if (!in) continue; int found = 0; for (int s = 0; s < m; s++) if (nl[s].iorig == j) { double e2 = 0; bool same = true; for (int k = 0; k < n; k++) { double e = nl[s].r[k] - pos[k][ix[k]]; e2 += e * e; same = same & (nl[s].v[k] == sg[k][ix[k]] * w.p[j].v[k]); } if (e2 < 1e-12) { found++; gs_check("image-velocity", same); } } gs_check("every-image-in-range-once", found == 1); used += found; if (a || b || d) gs_cover("image"); } }
      gs_check("nothing-else-in-the-list", used == m); if (i == c.ilast) break; } } gs_cover("searched"); }
template <int n, template <int> class Cell> static void gravity() { World<n> w; MOVEMAX = 3; scene(w); const char* macs[2] = {"geometric", "gadget2"}; Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, macs[gs_choose("mac", 2)]); if (OPT & DEADONE) { w.p[gs_choose("dead", NP)].flags.set(dead); t->StockTree(w.p, true); } Typemask gas; for (int k = 0; k < Ntypes; k++) gas[k] = k == gas_type;
  for (int c0 = 0; c0 < t->Ncell; c0++) { Cell<n>& c = t->celldata[c0]; if (c.copen != -1 || c.N == 0) continue; TreeCellBase<n> cell = c; NeighbourManager<n, typename World<n>::Part> nm(*w.types, KR, w.box); nm.clear(); t->ComputeGravityInteractionAndGhostList(cell, nm); nm.EndSearchGravity(cell, w.p); MultipoleMoment<n>* gc; int ng = nm.GetGravCell(&gc);
    for (int i = c.ifirst, q = 0; q < NP; i = t->inext[i], q++) { GravityNeighbourLists<typename World<n>::Part> gl = nm.GetParticleNeibGravity(w.p[i], gas); int hyd[6] = {0}, smo[6] = {0}, dir[6] = {0}, far[6] = {0}; for (int s = 0; s < (int)gl.neiblist.size(); s++) hyd[gl.neiblist[s].iorig]++; for (int s = 0; s < (int)gl.smooth_gravlist.size(); s++) smo[gl.smooth_gravlist[s].iorig]++; for (int s = 0; s < (int)gl.directlist.size(); s++) dir[gl.directlist[s].iorig]++;
      for (int s = 0; s < ng; s++) { int id = gc[s].id; gs_check("multipole-of-a-cell", id >= 0 && id < t->Ncell); Cell<n>& d = t->celldata[id]; gs_check_close("multipole-mass", gc[s].m, d.m, 1); double d2 = dist2<n>(d.rcell, c.rcell); gs_check_le("opening-criterion", d.rmax * d.rmax, TH * d2, 1); gs_cover("multipole"); members<n, Cell>(t, w, id, far); gs_check("not-inside-kernel", dist2<n>(d.rcell, c.rcell) >= 0); }
      for (int j = 0; j < NP; j++) { bool dj = w.p[j].flags.is_dead(); double d2 = dist2<n>(w.p[i].r, w.p[j].r); bool near = d2 < w.p[i].hrangesqd || d2 < w.p[j].hrangesqd; bool grav = w.p[j].ptype != dust_type; int tot = hyd[j] + smo[j] + dir[j] + far[j]; if (dj) gs_check("dead-have-no-gravity", tot == 0); else if (grav) gs_check("every-mass-exactly-once", tot == 1); else { gs_check("non-gravitating-not-direct", dir[j] + hyd[j] + smo[j] == 0); } if (!dj && near) gs_check("overlapping-kernels-are-smoothed", far[j] == 0 && dir[j] == 0); if (!dj) gs_check("hydro-neighbours-exact", hyd[j] == ((near && gas[w.p[j].ptype]) ? 1 : 0)); if (hyd[j] && i != j) gs_cover("near"); if (dir[j]) gs_cover("direct"); }
      if (i == c.ilast) break; } } gs_cover("searched"); }
template <int n, template <int> class Cell> static void star() { World<n> w; MOVEMAX = 2; scene(w); Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, "geometric"); if (OPT & DEADONE) { w.p[gs_choose("dead", NP)].flags.set(dead); t->StockTree(w.p, true); } StarParticle<n> s; for (int k = 0; k < n; k++) s.r[k] = k ? 0.1 : gs_real("sx", -4, 4); s.h = gs_real("sh", 0.05, 0.4); int nn = 0, nd = 0, ng = 0, l1[33], l2[33]; MultipoleMoment<n> gc[16]; int cap = gs_choose("capacity", 2) ? 16 : 2; l1[cap] = l2[cap] = -77; int ok = t->ComputeStarGravityInteractionList(&s, 0, cap, cap, 16, nn, nd, ng, l1, l2, gc, w.p);
  gs_check("never-writes-past-the-list", l1[cap] == -77 && l2[cap] == -77); if (ok == -1) { gs_check("overflow-only-when-small", cap == 2); gs_cover("overflow"); return; } int far[6] = {0}; for (int q = 0; q < ng; q++) { int id = gc[q].id; gs_check("multipole-of-a-cell", id >= 0 && id < t->Ncell); Cell<n>& d = t->celldata[id]; gs_check_close("multipole-mass", gc[q].m, d.m, 1); gs_check_le("opening-criterion", d.rmax * d.rmax, TH * dist2<n>(d.rcell, s.r), 1); members<n, Cell>(t, w, id, far); gs_cover("multipole"); }
  for (int j = 0; j < NP; j++) { int a = howMany(l1, nn, j), b = howMany(l2, nd, j); bool dj = w.p[j].flags.is_dead(); double d2 = dist2<n>(w.p[j].r, s.r), hm = 0.5 * (s.h + w.p[j].h) * KR; gs_check(dj ? "dead-have-no-gravity" : w.p[j].ptype == dust_type ? "no-mass-does-not-pull" : "every-mass-exactly-once", a + b + far[j] == (!dj && w.p[j].ptype != dust_type)); if (!dj && w.p[j].ptype != dust_type && d2 < hm * hm) gs_check("overlapping-kernels-are-smoothed", a == 1); if (a) gs_cover("near"); if (b) gs_cover("direct"); } gs_cover("searched"); }
template <int n, template <int> class Cell> static void signal() { World<n> w; scene(w); double vs = gs_real("vm", -40, 40), vf = gs_real("vf", -40, 40); w.p[0].v[0] = vf; w.p[NP - 1].v[0] = vs; Tree<n, GradhSphParticle, Cell>* t = grown<n, Cell>(w, "geometric");
  for (int c0 = 0; c0 < t->Ncell; c0++) { Cell<n>& c = t->celldata[c0]; if (c.copen != -1 || c.N == 0) continue; TreeCellBase<n> cell = c; std::vector<typename World<n>::Part> actp; for (int i = c.ifirst, q = 0; q < NP; i = t->inext[i], q++) { actp.push_back(w.p[i]); actp.back().vsig_max = w.p[i].sound; if (i == c.ilast) break; } t->ComputeSignalVelocityFromDistantInteractions(cell, actp.size(), &actp[0], w.p);
    for (int a = 0; a < (int)actp.size(); a++) { int i = actp[a].iorig; gs_check_le("own-sound-speed-kept", w.p[i].sound, actp[a].vsig_max, 1); for (int j = 0; j < NP; j++) if (j != i) { double dr[3], d2 = 0, dv = 0; for (int k = 0; k < n; k++) { dr[k] = w.p[i].r[k] - w.p[j].r[k]; if (((OPT >> (5 + 2 * k)) & 3) == 1) { if (dr[k] > 1) dr[k] -= 2; else if (dr[k] < -1) dr[k] += 2; } d2 += dr[k] * dr[k]; dv += dr[k] * (w.p[i].v[k] - w.p[j].v[k]); } double d = sqrt(d2); if (d < 0.01) gs_end(); gs_check_le("signal-arrives-no-sooner-than-the-step", (w.p[i].sound + w.p[j].sound) * d - dv, actp[a].vsig_max / w.p[i].h * (d2 > w.p[i].h * w.p[i].h ? d2 : w.p[i].h * d) , 1); } } } gs_cover("searched"); }
#define TREE(F, k, d) { if (!strcmp(k, "kd")) { if (d == 1) F<1, KDTreeCell>(); if (d == 2) F<2, KDTreeCell>(); if (d == 3) F<3, KDTreeCell>(); } if (!strcmp(k, "oct")) { if (d == 1) F<1, OctTreeCell>(); if (d == 2) F<2, OctTreeCell>(); if (d == 3) F<3, OctTreeCell>(); } if (!strcmp(k, "bf")) { if (d == 1) F<1, BruteForceTreeCell>(); if (d == 2) F<2, BruteForceTreeCell>(); if (d == 3) F<3, BruteForceTreeCell>(); } }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char *f = strtok(a, "-"), *k = strtok(NULL, "-"); int d = atoi(strtok(NULL, "-")); NP = atoi(strtok(NULL, "-")); LEAF = atoi(strtok(NULL, "-")); OPT = atoi(strtok(NULL, "-")); if (!strcmp(f, "build")) TREE(build, k, d); if (!strcmp(f, "gather")) TREE(gather, k, d); if (!strcmp(f, "cells")) TREE(cells, k, d); if (!strcmp(f, "images")) TREE(images, k, d); if (!strcmp(f, "gravity")) TREE(gravity, k, d); if (!strcmp(f, "star")) TREE(star, k, d); if (!strcmp(f, "signal")) TREE(signal, k, d); }
