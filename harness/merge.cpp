#include "phys.h"
// merging, layer crossing, leaving through the bottom, dry over wet: each rearrangement conserves water
static int order_ok(wetting_front *h) { int k = 0; for (; h; h = h->next) if (h->front_num != ++k) return 0; return 1; }
static double TH3[] = {40.0, 60.0, 100.0};
extern "C" void harness(void) {
  int cs = pcase();
  static const int S1[] = {1, 2, 3}, S2[] = {2, 1, 4}, S3[] = {4, 3, 1}, S4[] = {1, 5, 6};
  const int *so = cs / 10 == 0 ? S1 : cs / 10 == 1 ? S2 : cs / 10 == 2 ? S3 : S4;
  cs %= 10;
  World w;
  if (cs == 0 || cs == 1) {            // merge: fronts of one layer, the upper one may have passed the one below
    mkworld(w, 2, TH3, so);
    int L = cs == 0 ? 1 : 2;           // layer holding the free fronts
    int nf = vf_choice("nf", 2, 3);
    wetting_front *t = NULL;
    if (L == 2) t = push_front(w, t, w.cum[1], sym("tb", 1, w.sp[w.soil[1]].theta_r + 0.001, w.sp[w.soil[1]].theta_e), 100, 1, true);
    double prev = w.sp[w.soil[L]].theta_e + 1;
    double dp = 0;
    for (int i = 0; i <= nf; i++) {
      double q = sym("th", i, w.sp[w.soil[L]].theta_r + 0.001, w.sp[w.soil[L]].theta_e);
      vf_assume(q < prev - 1e-5); prev = q;
      double d;
      if (i == nf) d = w.cum[L];
      else { d = sym("d", i, w.cum[L - 1], w.cum[L]); vf_assume(d > w.cum[L - 1]); vf_assume(d < w.cum[L]); }
      // at most one pair out of order at a time, except that the lowest free front may be passed by both
      if (i >= 1 && i < nf && vf_choice(nm("over", i).c_str(), 0, 1) == 0) vf_assume(d >= dp);
      dp = d;
      t = push_front(w, t, d, q, 100, L, i == nf);
    }
    if (L == 1) t = push_front(w, t, w.cum[2], sym("tb", 2, w.sp[w.soil[2]].theta_r + 0.001, w.sp[w.soil[2]].theta_e), 100, 2, true);
    int n0 = nfronts(w.head);
    double m0 = signed_mass(w.cum, w.head);
    double top = L == 1 ? w.head->theta : w.head->next->theta;
    wetting_front *c = L == 1 ? w.head : w.head->next;
    int over = 0;
    for (wetting_front *f = c; f->next && f->next->layer_num == L && !f->next->to_bottom; f = f->next) if (f->depth_cm > f->next->depth_cm) over++;
    lgar_merge_wetting_fronts(w.soil, w.ff, &w.head, w.sp);
    int n1 = nfronts(w.head);
    vf_close(signed_mass(w.cum, w.head), m0, 1e-9, "merging fronts conserves water");
    vf_assert(order_ok(w.head), "fronts are numbered 1, 2, ... from the top");
    if (over == 0) vf_assert(n1 == n0, "fronts in order are not merged");
    else { vf_assert(n1 < n0, "a front that passed the one below it is merged"); vf_reach("merged"); }
    c = L == 1 ? w.head : w.head->next;
    vf_close(c->theta, top, 1e-12, "a merged front keeps the upper front's water content");
    vf_le(0.0, c->depth_cm - w.cum[L - 1], 0, "a merged front lies inside its layer");
    vf_le(c->depth_cm, w.cum[L], 1e-9, "a merged front lies inside its layer");
    for (wetting_front *f = w.head; f->next; f = f->next) if (f->layer_num == f->next->layer_num) vf_le(f->next->theta, f->theta, 0, "water content decreases downwards within a layer");
  } else if (cs == 2) {                // crossing into the next layer
    mkworld(w, 3, TH3, so);
    for (int l = 1; l <= 3; l++) w.ff[l] = sym("ff", l, 0.05, 1.0);
    int L = vf_choice("layer", 1, 2);
    wetting_front *t = NULL;
    double p0 = vf_double("p0", 1.0, 400.0), p1 = vf_double("p1", 1.0, 5000.0);
    vf_assume(p1 > p0 + 1.0);
    for (int l = 1; l < L; l++) t = push_front(w, t, w.cum[l], th(w, l, p0), p0, l, true);
    double d = sym("d", 0, w.cum[L], w.cum[L] + 30.0);
    if (vf_choice("deep", 0, 1)) vf_assume(d > w.cum[L]); else { d = sym("e", 0, w.cum[L - 1], w.cum[L]); vf_assume(d > w.cum[L - 1]); }
    t = push_front(w, t, d, th(w, L, p0), p0, L, false); t->dzdt_cm_per_h = vf_double("v", 0, 50);
    wetting_front *x = t;
    for (int l = L; l <= 3; l++) t = push_front(w, t, w.cum[l], th(w, l, p1), p1, l, true);
    double m0 = signed_mass(w.cum, w.head); int n0 = nfronts(w.head); double v0 = x->dzdt_cm_per_h;
    lgar_wetting_fronts_cross_layer_boundary(3, w.cum, w.soil, w.ff, &w.head, w.sp);
    vf_close(signed_mass(w.cum, w.head), m0, 1e-7, "crossing into the next layer conserves water");
    vf_assert(nfronts(w.head) == n0 && order_ok(w.head), "crossing keeps the number of fronts");
    if (d > w.cum[L]) {
      vf_reach("crossed");
      vf_assert(x->to_bottom && x->layer_num == L, "the part left behind closes the upper layer");
      vf_close(x->depth_cm, w.cum[L], 1e-9, "the part left behind closes the upper layer");
      wetting_front *y = x->next;
      vf_assert(y->layer_num == L + 1, "the crossing front moves on in the next layer");
      vf_close(y->psi_cm, x->psi_cm, 1e-6, "suction is continuous across the layer boundary");
      if (!y->to_bottom) vf_close(y->psi_cm, p0, 1e-6, "the crossing front keeps its suction");
      if (!y->to_bottom) vf_close(y->theta, th(w, L + 1, y->psi_cm), 1e-9, "the crossing front has the water content of its suction in the new soil");
      vf_le(w.cum[L], y->depth_cm, 0, "the crossing front lies below the boundary");
      if (!y->to_bottom) vf_close(y->dzdt_cm_per_h, v0, 0, "the crossing front keeps its speed");
      else { vf_reach("crossed twice"); vf_close(y->depth_cm, w.cum[L + 1], 1e-9, "a front that crosses twice leaves each layer filled"); }
      vf_close(x->dzdt_cm_per_h, 0.0, 0, "the part left behind is at rest");
      const soil_properties_ &q = w.sp[w.soil[L + 1]];
      vf_close(y->K_cm_per_h, calc_K_from_Se(calc_Se_from_theta(y->theta, q.theta_e, q.theta_r), q.Ksat_cm_per_h * w.ff[L + 1], q.vg_m), 1e-9, "the crossing front has the conductivity of its water content in the new soil");
    } else {
      vf_assert(!x->to_bottom && x->layer_num == L, "a front inside its layer does not cross");
      vf_close(x->depth_cm, d, 0, "a front inside its layer does not cross");
    }
  } else if (cs == 3) {                // leaving through the bottom
    mkworld(w, 2, TH3, so);
    wetting_front *t = NULL;
    double t0 = sym("th", 0, w.sp[w.soil[1]].theta_r + 0.001, w.sp[w.soil[1]].theta_e);
    t = push_front(w, t, w.cum[1], t0, 100, 1, true);
    double a = sym("th", 1, w.sp[w.soil[2]].theta_r + 0.001, w.sp[w.soil[2]].theta_e), b = sym("th", 2, w.sp[w.soil[2]].theta_r + 0.001, w.sp[w.soil[2]].theta_e);
    vf_assume(a > b + 1e-6);
    int nf = vf_choice("nf", 1, 2);
    double c = 0;
    if (nf == 2) {
      c = sym("th", 3, w.sp[w.soil[2]].theta_r + 0.001, w.sp[w.soil[2]].theta_e); vf_assume(c > a + 1e-6);
      double dc = sym("d", 3, w.cum[1], w.cum[2]); vf_assume(dc > w.cum[1]);
      t = push_front(w, t, dc, c, 50, 2, false);
    }
    double d = sym("d", 1, w.cum[1], w.cum[2] + 20.0); vf_assume(d > w.cum[1]);
    if (nf == 2) vf_assume(d > t->depth_cm);
    t = push_front(w, t, d, a, 80, 2, false);
    t = push_front(w, t, w.cum[2], b, 200, 2, true);
    double m0 = signed_mass(w.cum, w.head); int n0 = nfronts(w.head);
    double f = lgar_wetting_front_cross_domain_boundary(w.cum[2], w.soil, w.ff, &w.head, w.sp);
    vf_close(signed_mass(w.cum, w.head) + f, m0, 1e-9, "water leaving through the bottom is the water lost by the soil");
    vf_le(0.0, f, 0, "flow through the bottom is never negative");
    vf_assert(order_ok(w.head), "fronts are numbered 1, 2, ... from the top");
    wetting_front *last = w.head; while (last->next) last = last->next;
    vf_close(last->depth_cm, w.cum[2], 1e-9, "the deepest front stays at the bottom"); vf_assert(last->to_bottom && last->layer_num == 2, "the deepest front stays at the bottom");
    if (d > w.cum[2]) {
      vf_reach("left");
      vf_assert(nfronts(w.head) == n0 - 1, "a front that reached the bottom is absorbed");
      vf_close(last->theta, a, 1e-12, "the bottom takes the water content of the front that reached it");
    } else if (d < w.cum[2]) { vf_assert(nfronts(w.head) == n0, "a front above the bottom stays"); vf_close(f, 0.0, 0, "no water leaves before a front reaches the bottom"); }
  } else if (cs == 5 || cs == 6) {     // two fronts drier than the ones below them
    mkworld(w, 2, TH3, so);
    wetting_front *t = NULL; double p[5];
    int nf = cs == 5 ? 3 : 2;
    for (int i = 0; i <= nf; i++) p[i] = sym("h", i, 1.0, 5000.0);
    if (cs == 5) {                     // in one layer
      vf_assume(p[0] > p[1]); vf_assume(p[1] < p[2]); vf_assume(p[2] > p[3]);
      double prev = 0;
      for (int i = 0; i < 3; i++) { double d = sym("d", i, 0, w.cum[1]); vf_assume(d > prev); vf_assume(d < w.cum[1]); prev = d; t = push_front(w, t, d, th(w, 1, p[i]), p[i], 1, false); }
      t = push_front(w, t, w.cum[1], th(w, 1, p[3]), p[3], 1, true);
      t = push_front(w, t, w.cum[2], th(w, 2, p[3]), p[3], 2, true);
    } else {                           // in two layers
      vf_assume(p[0] > p[1]); vf_assume(p[1] > p[2]);
      double d = sym("d", 0, 0, w.cum[1]); vf_assume(d > 0); vf_assume(d < w.cum[1]);
      t = push_front(w, t, d, th(w, 1, p[0]), p[0], 1, false);
      t = push_front(w, t, w.cum[1], th(w, 1, p[1]), p[1], 1, true);
      double e = sym("d", 1, w.cum[1], w.cum[2]); vf_assume(e > w.cum[1]); vf_assume(e < w.cum[2]);
      t = push_front(w, t, e, th(w, 2, p[1]), p[1], 2, false);
      t = push_front(w, t, w.cum[2], th(w, 2, p[2]), p[2], 2, true);
    }
    int n0 = nfronts(w.head);
    double m0 = signed_mass(w.cum, w.head), mc = 0.0;
    lgar_fix_dry_over_wet_wetting_fronts(&mc, w.cum, w.soil, &w.head, w.sp);
    vf_assert(order_ok(w.head), "fronts are numbered 1, 2, ... from the top");
    vf_assert(nfronts(w.head) == n0 - 2, "exactly the dry fronts are removed");
    vf_close(signed_mass(w.cum, w.head) - m0, mc, 1e-9, "the water added by removing a dry front is accounted for");
    vf_reach("fixed");
  } else {                             // a front drier than the one below it
    mkworld(w, 2, TH3, so);
    int L = vf_choice("layer", 1, 2), nf = vf_choice("nf", 1, 2);
    wetting_front *t = NULL;
    double p[4];
    for (int i = 0; i <= nf; i++) p[i] = sym("h", i, 0.01, 5000.0);
    int dry = 0;         // evapotranspiration dries the uppermost free front
    for (int i = 0; i < nf; i++) { if (i == dry) vf_assume(p[i] > p[i + 1]); else vf_assume(p[i] < p[i + 1]); }
    if (L == 2) t = push_front(w, t, w.cum[1], th(w, 1, p[0]), p[0], 1, true);
    double prev = w.cum[L - 1];
    for (int i = 0; i < nf; i++) { double d = sym("d", i, w.cum[L - 1], w.cum[L]); vf_assume(d > prev); vf_assume(d < w.cum[L]); prev = d; t = push_front(w, t, d, th(w, L, p[i]), p[i], L, false); }
    t = push_front(w, t, w.cum[L], th(w, L, p[nf]), p[nf], L, true);
    if (L == 1) t = push_front(w, t, w.cum[2], th(w, 2, p[nf]), p[nf], 2, true);
    int n0 = nfronts(w.head);
    double m0 = signed_mass(w.cum, w.head), mc = 0.0;
    vf_assert(lgar_check_dry_over_wet_wetting_fronts(w.head), "a front drier than the one below it is noticed");
    lgar_fix_dry_over_wet_wetting_fronts(&mc, w.cum, w.soil, &w.head, w.sp);
    double m1 = signed_mass(w.cum, w.head);
    vf_assert(order_ok(w.head), "fronts are numbered 1, 2, ... from the top");
    vf_assert(nfronts(w.head) == n0 - 1, "exactly the dry front is removed");
    vf_close(m1 - m0, mc, 1e-9, "the water added by removing a dry front is accounted for");
    if (L == 2) {
      wetting_front *f1 = w.head->next;
      vf_close(w.head->psi_cm, f1->psi_cm, 1e-6, "suction is continuous across the layer boundary");
    }
    vf_reach("fixed");
  }
  if (g_phys && cs == 2) lgar_wetting_front_cross_domain_boundary(w.cum[3], w.soil, w.ff, &w.head, w.sp);   // follows crossing in every step
  if (g_phys) physical(w.cum, w.soil, w.ff, w.sp, w.head, cs == 2 || cs == 4, cs > 1);
  list_free(w.head);
  vf_reach("end");
}
