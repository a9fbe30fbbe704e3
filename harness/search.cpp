#include "lgar.h"
// the suction that balances a front's water.  case = 10*soils + kind
extern "C" void harness(void) {
  int cs = vf_case();
  static const int S[4][3] = {{1, 5, 6}, {5, 1, 6}, {4, 1, 5}, {2, 1, 4}};
  double thick[] = {40.0, 60.0, 100.0};
  const int *so = S[cs / 10]; cs %= 10;
  World w; mkworld(w, 3, thick, so);
  int L = cs == 9 ? 1 + so[0] % 2 : cs % 3 + 1; int far = cs / 3;             // far: 0 water content near, 1 saturates, 2 dries out, 3 long searches between given suctions
  double dth[5] = {0}, dz[5] = {0};
  for (int k = 1; k < L; k++) dz[k] = thick[k - 1];
  dz[L] = vf_double("z", 0.5, 60);
  double pb = far == 3 ? 2000 : vf_double("below", 1000, 5000);
  int bottom = vf_choice("bottom", 0, 1);           // the water below the front is subtracted (0) or not (1)
  if (!bottom) for (int k = 1; k <= L; k++) dth[k] = th(w, k, pb);
  static const double PS[] = {1.0, 7.5, 60.0, 99.0}, PW[] = {0.001, 0.004, 0.02, 0.5}, PD[] = {9.93e6, 9.95e6, 9.99e6, 9.999e6}, PL[] = {0.05, 8.0, 130.0, 1500.0}, TL[] = {0.003, 0.31, 7.4371, 8.7303, 129.137, 130.77, 1490.3, 1512.7};   // suctions are symbolic in one layer, chosen from these otherwise
  int ps = far || L > 1 ? vf_choice("start", 0, 3) : 0;
  double psi = far == 1 ? PW[ps] : far == 2 ? PD[ps] : far == 3 ? PL[ps] : L == 1 ? vf_double("psi", 1, 90) : PS[ps];
  double now = 0; for (int k = 1; k <= L; k++) now += dz[k] * (th(w, k, psi) - dth[k]);
  double aet = vf_double("aet", 0.001, 0.1), aet0 = aet, prior, target = psi;
  if (far == 3) {
    target = TL[2 * ps + vf_choice("to", 0, 1)];
    prior = 0; for (int k = 1; k <= L; k++) prior += dz[k] * (th(w, k, target) - dth[k]);
  } else if (far == 0) {
    static const double OFF[] = {0, 0.1, 0.2, 0.5, -0.01, -0.02, -0.05, 0.09, 0.08, 0.17};
    target = psi + OFF[vf_choice("steps", 0, 9)];
    prior = 0; for (int k = 1; k <= L; k++) prior += dz[k] * (th(w, k, target) - dth[k]);
  } else if (far == 1) prior = now + vf_double("more", 0.1, 20);
  else { prior = 0; for (int k = 1; k <= L; k++) prior += dz[k] * (w.sp[w.soil[k]].theta_r - dth[k]); double less = vf_double("less", 1e-5, 0.1); vf_assume(less <= aet); prior -= less; }   // not even dry soil has that little
  if (far == 1) { double full = 0; for (int k = 1; k <= L; k++) full += dz[k] * (w.sp[w.soil[k]].theta_e - dth[k]); vf_assume(prior > full); }
  double t = lgar_theta_mass_balance(L, w.soil[L], psi, now, prior, &aet, dth, dz, w.soil, w.sp);
  const soil_properties_ &p = w.sp[w.soil[L]];
  vf_le(p.theta_r, t, 1e-12, "the balanced water content is at least residual"); vf_le(t, p.theta_e, 1e-12, "the balanced water content is at most saturated");
  if (far == 0 || far == 3) {
    vf_close(t, th(w, L, target), 1e-9, "the balanced water content is the one whose suction holds the given water");
    vf_close(aet, aet0, 1e-9, "evapotranspiration is unchanged when the water balances"); vf_reach("balanced");
  } else if (far == 2) {
    double held = dz[L] * (t - dth[L]);                 // the suction of the deepest layer applies to all layers
    double dry = calc_h_from_Se(calc_Se_from_theta(t, p.theta_e, p.theta_r), p.vg_alpha_per_cm, p.vg_m, p.vg_n);
    for (int k = 1; k < L; k++) held += dz[k] * (th(w, k, dry) - dth[k]);
    vf_close(aet0 - aet, held - prior, 1e-6, "water that the soil cannot give up is taken off the evapotranspiration"); vf_reach("dry");
  } else {
    vf_close(t, p.theta_e, 1e-9, "a front with more water than it can hold saturates");
    vf_assert(aet == 0 || fabs(aet - aet0) < 1e-12, "saturation leaves evapotranspiration unchanged or ends it"); vf_reach("saturated");
  }
  vf_reach("end");
}
