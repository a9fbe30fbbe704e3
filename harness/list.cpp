#include "lgar.h"
// operations on the list of wetting fronts
struct Snap { int n; double d[12], t[12], p[12], v[12], K[12]; int l[12]; bool b[12]; };
static void snap(wetting_front *h, Snap &s) {
  s.n = 0;
  for (; h; h = h->next) { vf_assert(s.n < 12, "the list of fronts ends"); int i = s.n; s.d[i] = h->depth_cm; s.t[i] = h->theta; s.p[i] = h->psi_cm; s.l[i] = h->layer_num; s.b[i] = h->to_bottom; s.v[i] = h->dzdt_cm_per_h; s.K[i] = h->K_cm_per_h; s.n++; }
}
static void same(const Snap &a, int i, const Snap &b, int j, const char *msg) {
  vf_close(a.d[i], b.d[j], 0, msg); vf_close(a.t[i], b.t[j], 0, msg); vf_close(a.p[i], b.p[j], 0, msg); vf_close(a.v[i], b.v[j], 0, msg); vf_close(a.K[i], b.K[j], 0, msg);
  vf_assert(a.l[i] == b.l[j] && a.b[i] == b.b[j], msg);
}
static void numbered(wetting_front *h) { int k = 0; for (; h; h = h->next) vf_assert(h->front_num == ++k, "fronts are numbered 1, 2, ... from the top"); }
extern "C" void harness(void) {
  static const double TH[] = {40.0, 60.0, 100.0}; static const int SO[] = {1, 2, 3};
  World w; mkworld(w, 3, TH, SO);
  unsigned long h0 = vf_heap();
  int op = vf_case(); bool big = op >= 10; op %= 10;     // 10+: a long list
  int n = big ? 9 : vf_choice("n", op == 5 ? 2 : 1, 4);
  wetting_front *t = NULL;
  int layer = 1;
  for (int i = 0; i < n; i++) {
    bool b = big ? i % 4 == 3 : vf_choice(nm("b", i).c_str(), 0, 1) == 1;
    t = push_front(w, t, sym("d", i, 0.0, 200.0), sym("t", i, 0.0, 1.0), sym("p", i, 0.0, 1e4), layer, b);
    t->dzdt_cm_per_h = sym("v", i, 0.0, 1e4); t->K_cm_per_h = sym("k", i, 0.0, 100.0);
    if (b && layer < 3) layer++;
  }
  Snap a, b; snap(w.head, a);
  vf_assert(listLength(w.head) == n, "the length is the number of fronts");
  if (op == 0) {
    int k = vf_choice("k", 1, n);
    wetting_front *r = listDeleteFront(k, &w.head);
    snap(w.head, b);
    vf_assert(b.n == n - 1, "deleting removes exactly one front");
    for (int i = 0; i < n - 1; i++) same(b, i, a, i < k - 1 ? i : i + 1, "deleting keeps the other fronts in order and unchanged");
    numbered(w.head);
    wetting_front *x = w.head; for (int i = 1; i < k; i++) x = x->next;
    vf_assert(r == x, "deleting returns the front that was below");
  } else if (op == 1) {
    double d = vf_double("nd", 0.0, 200.0), q = vf_double("nt", 0.0, 1.0); int nb = vf_choice("nb", 0, 1);
    listInsertFirst(d, q, 1, 1, nb == 1, &w.head);
    snap(w.head, b);
    vf_assert(b.n == n + 1, "inserting at the surface adds exactly one front");
    vf_close(b.d[0], d, 0, "a new front has the given depth"); vf_close(b.t[0], q, 0, "a new front has the given water content");
    vf_assert(b.l[0] == 1 && b.b[0] == (nb == 1), "a new front has the given layer and bottom flag");
    for (int i = 0; i < n; i++) same(b, i + 1, a, i, "inserting keeps the other fronts in order and unchanged");
    numbered(w.head);
  } else if (op == 2) {
    wetting_front *c = listCopy(w.head);
    snap(c, b);
    vf_assert(b.n == n, "a copy has the same number of fronts");
    for (int i = 0; i < n; i++) same(b, i, a, i, "a copy has the same fronts");
    numbered(c);
    for (wetting_front *x = c, *y = w.head; x && y; x = x->next, y = y->next) vf_assert(x != y, "a copy shares no front with the original");
    for (wetting_front *x = c; x; x = x->next) { x->depth_cm = -1; x->theta = -1; x->psi_cm = -1; x->layer_num = 9; x->to_bottom = !x->to_bottom; }
    snap(w.head, b);
    for (int i = 0; i < n; i++) same(b, i, a, i, "changing a copy leaves the original alone");
    listDelete(c);
  } else if (op == 3) {
    int k = vf_choice("k", -1, n == 9 ? 10 : 5);
    wetting_front *f = listFindFront(k, w.head, NULL);
    if (k > n || k < 1) vf_assert(f == NULL, "looking up a missing front finds nothing");
    else { vf_assert(f != NULL && f->front_num == k, "looking up a front finds it"); vf_close(f->depth_cm, a.d[k - 1], 0, "looking up a front finds it"); }
    // in an earlier list, which may have other fronts
    wetting_front *o = NULL; int on = vf_choice("on", 1, 3);
    for (int i = 0; i < on; i++) { wetting_front *g = listInsertFront(sym("od", i, 0.0, 200.0), sym("ot", i, 0.0, 1.0), i + 1, 1, false, &o); g->psi_cm = 1; g->K_cm_per_h = 1; }
    f = listFindFront(k, w.head, o);
    if (k > on || k < 1) vf_assert(f == NULL, "looking up a missing front of an earlier list finds nothing");
    else { int j = 1; wetting_front *g = o; for (; j < k; j++) g = g->next; vf_assert(f == g, "looking up a front of an earlier list finds it there"); }
    listDelete(o);
    snap(w.head, b);
    vf_assert(b.n == n, "looking up changes nothing");
    for (int i = 0; i < n; i++) same(b, i, a, i, "looking up changes nothing");
  } else if (op == 5) {                  // by depth, between two fronts
    vf_assume(n >= 2); for (int i = 1; i < n; i++) vf_assume(a.d[i] > a.d[i - 1]);
    double d = vf_double("nd", 0.0, 200.0), q = vf_double("nt", 0.0, 1.0); vf_assume(d > a.d[0] && d <= a.d[n - 1] && d > 0);
    wetting_front *f = listInsertFrontAtDepth(3, w.cum, d, q, w.head);
    vf_assert(f != NULL, "inserting returns the new front");
    f->psi_cm = 1; f->K_cm_per_h = 1;
    snap(w.head, b);
    vf_assert(b.n == n + 1, "inserting adds one front");
    int k = 1; while (a.d[k] < d) k++;
    for (int i = 0; i < n; i++) same(b, i < k ? i : i + 1, a, i, "inserting keeps the other fronts in order and unchanged");
    vf_close(b.d[k], d, 0, "the new front is at its position"); vf_close(b.t[k], q, 0, "a new front has the given water content");
    vf_assert(b.l[k] == (d <= w.cum[1] ? 1 : d <= w.cum[2] ? 2 : 3), "a new front is in the layer of its depth");
    numbered(w.head);
  } else {
    wetting_front *h = NULL;
    for (int i = 0; i < n; i++) {
      wetting_front *f = listInsertFront(a.d[i], a.t[i], i + 1, a.l[i], a.b[i], &h);
      vf_assert(f != NULL, "appending returns the new front");
      f->psi_cm = a.p[i]; f->K_cm_per_h = a.K[i]; f->dzdt_cm_per_h = a.v[i];
    }
    snap(h, b);
    vf_assert(b.n == n, "appending adds one front each");
    for (int i = 0; i < n; i++) same(b, i, a, i, "appending keeps order and values");
    numbered(h);
    int k = vf_choice("k", 2, n + 1);
    wetting_front *f = listInsertFront(7.0, 0.3, k, 2, false, &h);
    vf_assert(f != NULL, "inserting returns the new front");
    f->psi_cm = 1; f->K_cm_per_h = 1;
    Snap c; snap(h, c);
    vf_assert(c.n == n + 1, "inserting adds one front");
    for (int i = 0; i < n; i++) same(c, i < k - 1 ? i : i + 1, a, i, "inserting keeps the other fronts in order and unchanged");
    vf_close(c.d[k - 1], 7.0, 0, "the new front is at its position");
    numbered(h);
    listDelete(h);
  }
  listDelete(w.head);
  vf_assert(vf_heap() == h0, "every front is released");
  vf_reach("end");
}
