#include "lgar.h"
#include "movestub.h"
// moving the fronts depends on the arguments only: the same move before and after another model's, and with another verbosity; case = shape
static const int S[3][2] = {{1, 2}, {4, 1}, {2, 3}};
struct Res { double v[60]; int n; };
static Res A0, A1, B0, B1;
static void put(Res &r, double v) { if (r.n < 60) r.v[r.n++] = v; }
static void mv(char who, int nl, const int *so, const double *thick, const int *fr, Res &r) {
  World w; mkworld(w, nl, thick, so); std::string t(1, who);
  wetting_front *q = NULL; double prev = 0, pp = who == 'a' ? 3000 : 4000; int n = 0, tot = 0;
  for (int l = 1; l <= nl; l++) tot += fr[l] + 1;
  static double psi[8];
  for (int i = 0; i < tot; i++) psi[i] = who == 'b' ? 100.0 * (i + 1) : i == 0 ? vf_double("ah", 5, 150) : i == 1 && fr[1] > 1 ? 500.0 : pp;
  for (int l = 1; l <= nl; l++) for (int k = 0; k <= fr[l]; k++, n++) {
    bool bot = k == fr[l]; double p = bot ? pp : psi[n];
    double d = bot ? w.cum[l] : who == 'b' ? prev + 5.0 : k == 1 ? 20.0 : sym((t + "d").c_str(), n, 1.0, w.cum[1] - 1.0);
    if (!bot) { vf_assume(d > prev); prev = d; }
    q = push_front(w, q, d, th(w, l, p), p, l, bot); q->K_cm_per_h = 0.01;
    if (!bot) q->dzdt_cm_per_h = who == 'b' ? 2.0 + n : k == 1 ? 1.0 : sym((t + "v").c_str(), n, 0.1, 10.0);
  }
  double vol = who == 'b' ? 0.25 : vf_double("in", 0, 2), aet = who == 'b' ? 0.01 : vf_double("aet", 0, 0.05), m0 = signed_mass(w.cum, w.head);
  g_aet = &aet; g_in = vol; g_old = m0; g_has = false;
  wetting_front *pv = listCopy(w.head);
  lgar_move_wetting_fronts(0.5, &vol, wetting_front_free_drainage(w.head), m0, nl, &aet, w.cum, w.soil, w.ff, &w.head, pv, w.sp);
  put(r, vol); put(r, aet); put(r, nfronts(w.head));
  for (wetting_front *f = w.head; f; f = f->next) { put(r, f->depth_cm); put(r, f->theta); put(r, f->layer_num); put(r, f->to_bottom); put(r, f->dzdt_cm_per_h); put(r, f->K_cm_per_h); }
  list_free(pv); list_free(w.head);
}
extern "C" void harness(void) {
  int cs = vf_case();
  static const double TA[] = {40, 60}, TB[] = {25, 45};
  static const int FA[][3] = {{0, 1, 0}, {0, 2, 0}, {0, 1, 0}}, FB[][3] = {{0, 2, 0}, {0, 1, 0}, {0, 1, 0}};
  int na = cs == 2 ? 1 : 2, nb = cs == 1 ? 2 : 1;
  if (vf_iso_begin(&B0, sizeof B0)) { mv('b', nb, S[(cs + 1) % 3], TB, FB[cs], B0); vf_iso_end(); }
  unsigned long h0 = vf_heap();
  mv('a', na, S[cs], TA, FA[cs], A0);
  vf_assert(vf_heap() == h0, "no memory is lost");
  mv('b', nb, S[(cs + 1) % 3], TB, FB[cs], B1);
  verbosity = vf_choice("verbosity", 0, 1) ? "high" : "none";
  mv('a', na, S[cs], TA, FA[cs], A1);
  vf_assert(A0.n == A1.n && B0.n == B1.n, "results depend on the arguments only");
  for (int i = 0; i < A0.n; i++) vf_close(A1.v[i], A0.v[i], 1e-9, "results depend on the arguments only");
  for (int i = 0; i < B0.n; i++) vf_close(B1.v[i], B0.v[i], 1e-9, "results depend on the arguments only");
  vf_reach("end");
}
