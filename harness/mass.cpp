#include "lgar.h"
static const int SO[] = {1, 2, 3, 4, 5};
// storage computed by the model = integral of water content over depth
extern "C" void harness(void) {
  World w; int nl = vf_case();
  double thick[5]; for (int i = 0; i < nl; i++) thick[i] = sym("L", i, 1.0, 200.0);
  mkworld(w, nl, thick, SO);
  int fr[6] = {0}; static const char *FN[] = {"", "f1", "f2", "f3", "f4", "f5"};
  for (int l = 1; l <= nl; l++) fr[l] = vf_choice(FN[l], 0, nl >= 3 ? 1 : 2);
  // the depths are offsets into symbolic layers
  double theta[12]; wetting_front *t = NULL; int n = 0; double want = 0;
  for (int l = 1; l <= nl; l++) {
    double z = w.cum[l - 1];
    for (int k = 0; k <= fr[l]; k++) {
      theta[n] = sym("th", n, 0.01, 0.6);
      double d;
      if (k == fr[l]) d = w.cum[l];
      else { d = z + sym("dz", n, 0.0, 200.0); vf_assume(d <= w.cum[l]); }
      t = push_front(w, t, d, theta[n], 100.0, l, k == fr[l]);
      want += theta[n] * (d - z); z = d; n++;
    }
  }
  double got = lgar_calc_mass_bal(w.cum, w.head);
  vf_close(got, want, 1e-9, "storage is the integral of water content over depth");
  vf_assert(nfronts(w.head) == n, "computing storage leaves the profile alone");
  vf_reach("end");
  list_free(w.head);
}
