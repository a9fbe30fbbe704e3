#include "geff.h"
extern "C" {
#include "giuh.h"
}
// results depend on the arguments only: the same call is made before and after calls for another model (other layers, other soils),
// and with another verbosity.  case = 10*soils + function
static const int S[4][3] = {{1, 2, 3}, {2, 1, 4}, {4, 3, 1}, {3, 4, 2}};
struct Res { double v[80]; int n; };
static Res A0, A1, B0, B1;
static void put(Res &r, double v) { if (r.n < 80) r.v[r.n++] = v; }
static void putlist(Res &r, wetting_front *h) {
  put(r, nfronts(h));
  for (; h; h = h->next) { put(r, h->depth_cm); put(r, h->theta); put(r, h->psi_cm); put(r, h->dzdt_cm_per_h); put(r, h->layer_num); put(r, h->front_num); put(r, h->to_bottom); put(r, h->K_cm_per_h); }
}
static bool g_fixed = false;             // the other model's numbers are fixed, to keep the number of paths down
static double sy(const std::string &n, int i, double lo, double hi) { return g_fixed && n[0] == 'b' ? lo + (hi - lo) * (0.15 + 0.1 * i) : sym(n.c_str(), i, lo, hi); }
static double sv(const std::string &n, double lo, double hi) { return g_fixed && n[0] == 'b' ? lo + (hi - lo) * 0.37 : vf_double(n.c_str(), lo, hi); }
static void build(World &w, const char *tag, int nl, const int *so, const double *thick, const int *fr, bool bypsi) {
  mkworld(w, nl, thick, so);
  std::string t(tag);
  double psi[8], theta[8], depth[8]; int n = 0, lay[8]; bool bot[8];
  for (int l = 1; l <= nl; l++) { w.ff[l] = sy(t + "ff", l, 0.05, 1.0); for (int k = 0; k <= fr[l]; k++) { lay[n] = l; bot[n] = k == fr[l]; n++; } }
  for (int i = n - 1; i >= 0; i--) {
    if (bot[i] && i < n - 1) psi[i] = psi[i + 1];
    else { psi[i] = sy(t + "h", i, 1.0, 5000.0); if (i < n - 1) vf_assume(psi[i] < psi[i + 1]); }
    const soil_properties_ &p = w.sp[w.soil[lay[i]]];
    if (bypsi) theta[i] = th(w, lay[i], psi[i]);
    else if (g_fixed && t == "b") theta[i] = p.theta_r + (p.theta_e - p.theta_r) * (0.9 - 0.1 * i);
    else { theta[i] = sy(t + "th", i, p.theta_r, p.theta_e); vf_assume(theta[i] > p.theta_r); vf_assume(theta[i] < p.theta_e); if (i < n - 1 && lay[i] == lay[i + 1]) vf_assume(theta[i] > theta[i + 1]); }
  }
  wetting_front *q = NULL;
  for (int i = 0; i < n; i++) {
    if (bot[i]) depth[i] = w.cum[lay[i]];
    else {
      depth[i] = sy(t + "d", i, w.cum[lay[i] - 1], w.cum[lay[i]]);
      double top = i > 0 && lay[i - 1] == lay[i] ? depth[i - 1] : w.cum[lay[i] - 1];
      vf_assume(depth[i] > top); vf_assume(depth[i] < w.cum[lay[i]]);
    }
    q = push_front(w, q, depth[i], theta[i], psi[i], lay[i], bot[i]);
    q->K_cm_per_h = sy(t + "K", i, 1e-6, 10);
  }
}
static void call(int fn, World &w, const char *tag, Res &r) {
  std::string t(tag);
  if (fn == 0) {
    double P = sv(t + "P", 0, 20), pond = sv(t + "pond", 0.001, 20), in = -1, pm = 1.5;
    double ro = lgar_insert_water(true, 120, 0.25, 0.0, &pond, &in, P, wetting_front_free_drainage(w.head), w.nl, pm, w.soil, w.cum, w.ff, w.head, w.sp);
    put(r, ro); put(r, pond); put(r, in);
  } else if (fn == 1) {
    lgar_dzdt_calc(true, 120, sv(t + "hp", 0, 5), w.soil, w.cum, w.ff, w.head, w.sp);
  } else if (fn == 2) {
    double dth = 0, pond = sv(t + "pond", 0.001, 5), in = 0;
    vf_assume(w.sp[w.soil[1]].theta_e - w.head->theta > 1e-6);
    double dd = lgar_calc_dry_depth(true, 120, 0.25, &dth, w.soil, w.cum, w.ff, w.head, w.sp);
    lgar_create_surficial_front(w.nl, &pond, &in, dd, w.head->theta, w.soil, w.cum, w.ff, &w.head, w.sp);
    put(r, dd); put(r, dth); put(r, pond); put(r, in);
  } else if (fn == 3) {
    put(r, lgar_calc_mass_bal(w.cum, w.head)); put(r, wetting_front_free_drainage(w.head)); put(r, lgar_check_dry_over_wet_wetting_fronts(w.head));
  } else if (fn == 4) {
    double pet = sv(t + "pet", 0, 1);
    put(r, calc_aet(pet, 0.25, 15495.0, 340.9, w.soil, 0.85, 1.0, w.head, w.sp));
  } else if (fn == 5) {
    double o[4], q[5]; int n = t == "a" ? 3 : 4; for (int i = 0; i < n; i++) o[i] = sy(t + "o", i, 0, 1); for (int i = 0; i <= n; i++) q[i] = i < n ? sy(t + "q", i, 0, 10) : 0.0;
    put(r, giuh_convolution_integral(sv(t + "r", 0, 10), n, o, q)); for (int i = 0; i < n; i++) put(r, q[i]);
  } else if (fn == 6) {
    w.head->depth_cm = sv(t + "dd", w.cum[1] * 0.1, w.cum[1] * 1.5);
    lgar_merge_wetting_fronts(w.soil, w.ff, &w.head, w.sp);
    lgar_wetting_fronts_cross_layer_boundary(w.nl, w.cum, w.soil, w.ff, &w.head, w.sp);
  } else if (fn == 7) {
    wetting_front *f = w.head; while (f->next && f->next->next) f = f->next;
    f->depth_cm = sv(t + "dd", w.cum[w.nl] * 0.9, w.cum[w.nl] * 1.2);
    put(r, lgar_wetting_front_cross_domain_boundary(w.cum[w.nl], w.soil, w.ff, &w.head, w.sp));
  } else if (fn == 8) {
    lgar_bmi_parameters p; memset(&p, 0, sizeof p);
    double T[4], z[4] = {10, 30, 90, 190}; int nz = t == "a" ? 4 : 3; for (int i = 0; i < nz; i++) T[i] = sy(t + "T", i, 250, 300);
    if (t != "a") { z[0] = 20; z[1] = 50; z[2] = 60; }
    p.num_layers = w.nl; p.num_cells_temp = nz; p.cum_layer_thickness_cm = w.cum; p.soil_temperature = T; p.soil_temperature_z = z; p.frozen_factor = w.ff;
    frozen_factor_hydraulic_conductivity(p);
    for (int l = 1; l <= w.nl; l++) put(r, w.ff[l]);
  } else if (fn == 9) {                              // the top front dried out
    double mc = 0; wetting_front *f = w.head; f->psi_cm = sv(t + "dry", 5001, 9000); f->theta = th(w, 1, f->psi_cm);
    put(r, lgar_check_dry_over_wet_wetting_fronts(w.head)); lgar_fix_dry_over_wet_wetting_fronts(&mc, w.cum, w.soil, &w.head, w.sp); put(r, mc);
  }
  putlist(r, w.head);
}
static void runb(int fn, const int *sb, const double *TB, const int *fr, bool bypsi, Res &r) {
  World b; build(b, "b", 2, sb, TB, fr, bypsi); call(fn, b, "b", r); list_free(b.head);
}
extern "C" void harness(void) {
  int fn = vf_case() % 10; const int *sa = S[vf_case() / 10], *sb = S[(vf_case() / 10 + 1) % 4];
  static const double TA[] = {40, 60, 100}, TB[] = {25, 45, 35};
  static const int F0[][4] = {{0, 0, 0, 1}, {0, 1, 1, 0}, {0, 0, 0, 0}, {0, 1, 0, 1}, {0, 1, 0, 0}, {0, 0, 0, 0}, {0, 2, 0, 0}, {0, 0, 0, 1}, {0, 0, 0, 0}, {0, 1, 0, 0}}, F1[][4] = {{0, 1, 0}, {0, 1, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, 0}, {0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, 0}, {0, 1, 0}};
  g_fixed = fn == 0 || fn == 1 || fn == 8;
  bool bypsi = fn == 6 || fn == 7 || fn == 4 || fn == 9;
  int nla = fn == 8 ? 3 : fn == 1 ? 2 : 3;
  if (vf_iso_begin(&B0, sizeof B0)) { runb(fn, sb, TB, F1[fn], bypsi, B0); vf_iso_end(); }   // the other model's call in a process of its own
  unsigned long h0 = vf_heap();
  { World a; build(a, "a", nla, sa, TA, F0[fn], bypsi); call(fn, a, "a", A0); list_free(a.head); }
  vf_assert(vf_heap() == h0, "no memory is lost");
  runb(fn, sb, TB, F1[fn], bypsi, B1);
  verbosity = vf_choice("verbosity", 0, 1) ? "high" : "none";
  { World a; build(a, "a", nla, sa, TA, F0[fn], bypsi); call(fn, a, "a", A1); list_free(a.head); }
  vf_assert(A0.n == A1.n && B0.n == B1.n, "results depend on the arguments only");
  for (int i = 0; i < A0.n; i++) vf_close(A1.v[i], A0.v[i], 1e-9, "results depend on the arguments only");
  for (int i = 0; i < B0.n; i++) vf_close(B1.v[i], B0.v[i], 1e-9, "results depend on the arguments only");
  vf_reach("end");
}
