#include "phys.h"
// moving the fronts conserves water.  case = 100*kind + 10*soils + shape
// Symbolic runs replace the two numeric searches by their contracts (native runs use the real code):
//  - the suction search finds the suction whose profile holds the given water, or saturates, or dries out (decided by C23);
//  - the depth search for a saturated front ends with the depth that closes the balance.
#include "movestub.h"
extern "C" void harness(void) {
  int cs = pcase(), kind = cs / 100; cs %= 100;
  static const int S[5][4] = {{1, 2, 3, 4}, {2, 1, 4, 3}, {4, 3, 1, 2}, {1, 5, 6, 2}, {6, 1, 5, 4}};
  static const int NL[] = {1, 1, 2, 2, 2, 3, 1, 2, 3, 3}, FR[][4] = {{0,0}, {0,1}, {0,1,0}, {0,0,0}, {0,0,1}, {0,0,0,1}, {0,2}, {0,1,1}, {0,0,1,0}, {0,0,0,0}};
  static const int NL2[] = {2, 3, 2, 1, 3, 3, 4, 4}, FR2[][5] = {{0,0,2}, {0,0,0,2}, {0,2,0}, {0,3}, {0,1,0,1}, {0,0,1,1}, {0,0,0,0,1}, {0,0,0,0,0}};    // kinds 2, 3
  double thick[] = {40.0, 60.0, 100.0, 50.0};
  int sh = cs % 10; const int *so = S[cs / 10];
  const int *fr = kind >= 2 ? FR2[sh] : FR[sh];
  World w; mkworld(w, kind >= 2 ? NL2[sh] : NL[sh], thick, so);
  g_fixdepth = kind == 3; g_nodry = kind == 3 && w.nl > 1;
  profile(w, fr, true, 5000.0, w.nl > 1);
  static const double DT[] = {1.0 / 12, 1.0};
  double dt = kind == 3 ? 1.0 : DT[vf_choice("dt", 0, 1)];
  if (g_cond) for (int l = 1; l <= w.nl; l++) w.ff[l] = sym("ff", l, 0.05, 1.0);
  int i = 0;
  for (wetting_front *f = w.head; f; f = f->next, i++) {
    const soil_properties_ &p = w.sp[w.soil[f->layer_num]];
    f->K_cm_per_h = calc_K_from_Se(calc_Se_from_theta(f->theta, p.theta_e, p.theta_r), p.Ksat_cm_per_h * w.ff[f->layer_num], p.vg_m);
    if (!f->to_bottom) f->dzdt_cm_per_h = kind == 3 ? 1.25 + 0.5 * i : sym("v", i, 1e-6, kind == 1 ? 400.0 : 20.0);
  }
  double want[12]; bool alone = true; i = 0;           // fronts that meet no other front and no boundary
  for (wetting_front *f = w.head; f; f = f->next, i++) {
    want[i] = f->depth_cm + (f->to_bottom ? 0.0 : f->dzdt_cm_per_h * dt);
    if (!f->to_bottom && (g_disp || kind == 3)) { if (want[i] > w.cum[f->layer_num] - 1e-6) alone = false; if (i > 0 && want[i - 1] > want[i] - 1e-6) alone = false; }
  }
  if (kind == 3) vf_assume(alone);
  double in0 = vf_double("in", 0, 20), aet = vf_double("aet", 0, kind == 3 && w.nl > 1 ? 0.0 : 0.1), m0 = signed_mass(w.cum, w.head), vol = in0;
  double full = 0; for (int l = 1; l <= w.nl; l++) full += w.sp[w.soil[l]].theta_e * (w.cum[l] - w.cum[l - 1]);
  vf_assume(m0 + in0 <= full);
  g_aet = &aet; g_in = in0; g_old = m0;
  double aet0 = aet; int n0 = nfronts(w.head);
  wetting_front *prev = listCopy(w.head);
  int fd = wetting_front_free_drainage(w.head);
  lgar_move_wetting_fronts(dt, &vol, fd, m0, w.nl, &aet, w.cum, w.soil, w.ff, &w.head, prev, w.sp);
  double m1 = signed_mass(w.cum, w.head);
  vf_close(m1, m0 + in0 - aet - vol, 1e-6, "soil water changes by infiltration, evapotranspiration and percolation");
  vf_le(0.0, vol, 1e-9, "percolation is never negative");
  check_list(w.head, w.cum, w.nl, "after moving");
  vf_assert(nfronts(w.head) <= n0, "moving fronts never creates one");
  if (g_phys) physical(w.cum, w.soil, w.ff, w.sp, w.head, true);
  if (g_cond) for (wetting_front *f = w.head; f->next; f = f->next) if (f->psi_cm > 1.5) {
    const soil_properties_ &p = w.sp[w.soil[f->layer_num]];
    (vf_close)(f->K_cm_per_h, calc_K_from_Se(calc_Se_from_theta(f->theta, p.theta_e, p.theta_r), p.Ksat_cm_per_h * w.ff[f->layer_num], p.vg_m), 1e-9, "conductivity follows the water content and the layer's own factor"); vf_reach("conductivity");
  }
  if (g_disp && alone && nfronts(w.head) == n0) {
    i = 0; bool sat = false;
    for (wetting_front *f = w.head; f; f = f->next) if (f->theta >= w.sp[w.soil[f->layer_num]].theta_e - 1e-9) sat = true;      // a saturated front makes room for its water
    if (!sat) { for (wetting_front *f = w.head; f; f = f->next, i++) (vf_close)(f->depth_cm, want[i], 1e-9, "a front advances by its speed"); vf_reach("advanced"); }
  }
  list_free(prev);
  vf_reach("end");
}
