#include "lgar.h"
// actual evapotranspiration: bounded by the potential, non-increasing in suction, half at the midpoint suction
extern "C" void harness(void) {
  int cs = vf_case();
  World w; double thick[] = {40, 60}; int so[] = {1 + cs % 4, 1 + (cs + 1) % 4};
  mkworld(w, 2, thick, so);
  double pet = vf_double("pet", 0, 5), dt = vf_double("dt", 0.01, 24), fc = vf_double("fc", 10, 1000), wp = vf_double("wp", 1000, 20000);
  double p1 = vf_double("p1", 0, 20000), p2 = vf_double("p2", 0, 20000), q = vf_double("q", 1, 20000);
  vf_assume(wp > fc + 1); vf_assume(dt >= 0.01);
  const soil_properties_ &sp = w.sp[w.soil[1]];
  wetting_front *t = push_front(w, NULL, 40, th(w, 1, p1), p1, 1, true);
  push_front(w, t, 100, th(w, 2, q), q, 2, true);
  double a1 = calc_aet(pet, dt, wp, fc, w.soil, 0.85, 1.0, w.head, w.sp);
  vf_le(0.0, a1, 0, "evapotranspiration is never negative");
  vf_le(a1, pet * dt, 1e-12, "evapotranspiration never exceeds the potential");
  wetting_front *h = w.head;
  h->psi_cm = p2; h->theta = th(w, 1, p2); h->next->psi_cm = 50.0; h->next->theta = 0.2;
  double a2 = calc_aet(pet, dt, wp, fc, w.soil, 0.85, 1.0, w.head, w.sp);
  if (p2 >= p1) vf_le(a2, a1, 1e-12, "evapotranspiration does not increase with suction at the surface");
  // midpoint between field capacity and wilting point water contents
  double mid = 0.5 * (th(w, 1, fc) + th(w, 1, wp));
  double h50 = 1.0 / sp.vg_alpha_per_cm * pow(pow((mid - sp.theta_r) / (sp.theta_e - sp.theta_r), -1.0 / sp.vg_m) - 1.0, 1.0 / sp.vg_n);
  h->psi_cm = h50; h->theta = mid;
  double a3 = calc_aet(pet, dt, wp, fc, w.soil, 0.85, 1.0, w.head, w.sp);
  vf_close(a3, 0.5 * pet * dt, 1e-9, "half the potential at the midpoint water content");
  double r = p1 / h50;
  vf_close(a1 * (1.0 + r * r * r), pet * dt, 1e-6, "the S-shaped reduction in suction");
  h->psi_cm = 0;
  double a4 = calc_aet(pet, dt, wp, fc, w.soil, 0.85, 1.0, w.head, w.sp);
  vf_close(a4, pet * dt, 1e-12, "the full potential at saturation");
  vf_reach("end");
  list_free(w.head);
}
