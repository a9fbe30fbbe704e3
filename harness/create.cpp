#include "geff.h"
#include "phys.h"
// a new surficial front; case = 10*soils + shape, 100+: integrated capillary drive, 200+: the same with a thin first layer, 300+: closed form with a thin first layer
extern "C" void harness(void) {
  int cs = pcase();
  static const int S[4][3] = {{1, 2, 3}, {2, 1, 4}, {4, 3, 1}, {3, 4, 2}};
  static const int NL[] = {1, 1, 2, 2, 2, 3, 1}, FR[][4] = {{0,0}, {0,1}, {0,1,0}, {0,0,0}, {0,0,1}, {0,0,0,1}, {0,2}};
  double thick[] = {cs < 200 ? 40.0 : 4.0, 60.0, 100.0};
  int sh = cs % 10; const int *so = S[cs / 10 % 10]; bool cf = cs < 100 || cs >= 300;
  World w; mkworld(w, NL[sh], thick, so);
  for (int l = 1; l <= w.nl; l++) w.ff[l] = sym("ff", l, 0.05, 1.0);
  profile(w, FR[sh], false);
  int n0 = nfronts(w.head);
  wetting_front *top = w.head; const soil_properties_ &p = w.sp[w.soil[1]];
  double td = top->depth_cm; bool tb = top->to_bottom;
  double th1 = top->theta, room = p.theta_e - th1; vf_assume(room > 1e-6);
  static const double DT[] = {1.0 / 12, 0.25, 1.0};
  double dt = DT[vf_choice("dt", 0, 2)], dth = -1;
  double K = p.Ksat_cm_per_h * w.ff[1];
  double G = calc_Geff(cf, th1, p.theta_e, p.theta_e, p.theta_r, p.vg_alpha_per_cm, p.vg_n, p.vg_m, p.h_min_cm, K, cf ? 120 : 6, p.bc_lambda, p.bc_psib_cm);
  double dd = lgar_calc_dry_depth(cf, cf ? 120 : 6, dt, &dth, w.soil, w.cum, w.ff, w.head, w.sp);
  double tau = dt * K / room;
  vf_close(dth, room, 0, "the storage per depth of a new front is what saturation leaves free");
  vf_le(dd, w.cum[1], 1e-9, "a new front never reaches below the first layer"); vf_assert(dd > 0, "a new front has a depth");
  double q = dd * dd - tau * dd - tau * G, sc = 1 + tau * tau + tau * G;
  if (dd < w.cum[1] - 1e-9) { vf_reach("dry depth"); vf_close(q, 0.0, vf_native() ? 1e-9 * sc : 1e-7, "the depth of a new front is the dry depth"); }
  else { vf_reach("layer"); vf_le(q, 0.0, vf_native() ? 1e-6 * sc : 1e-7, "a new front is limited to the first layer only when its dry depth exceeds it"); }
  double P0 = vf_double("pond", 1e-9, 10), pond = P0, in = -1, m0 = signed_mass(w.cum, w.head);
  lgar_create_surficial_front(w.nl, &pond, &in, dd, th1, w.soil, w.cum, w.ff, &w.head, w.sp);
  vf_close(in + pond, P0, 1e-9, "a new front takes its water from the surface"); vf_le(0.0, pond, 1e-12, "ponding is never negative"); vf_le(0.0, in, 0, "infiltration is never negative");
  vf_close(signed_mass(w.cum, w.head) - m0, in, 1e-9, "the soil gains the water the surface loses");
  int n1 = nfronts(w.head), k = 0;
  for (wetting_front *f = w.head; f; f = f->next) vf_assert(f->front_num == ++k, "fronts are numbered 1, 2, ... from the top");
  double want = P0 < dd * room ? P0 : dd * room;
  vf_close(in, want, 1e-9, "a new front takes all water that fits above its depth");
  wetting_front *f = w.head;
  vf_le(th1, f->theta, 0, "a new front is wetter than the soil below"); vf_le(f->theta, p.theta_e, 0, "a new front is at most saturated");
  vf_close(f->theta, th1 + want / dd, 1e-9, "a new front holds its water evenly over its depth");
  vf_assert(f->layer_num == 1, "a new front lies in the first layer");
  double se = calc_Se_from_theta(f->theta, p.theta_e, p.theta_r);
  vf_close(f->psi_cm, calc_h_from_Se(se, p.vg_alpha_per_cm, p.vg_m, p.vg_n), vf_native() ? 1e-6 * (1 + f->psi_cm) : 1e-9, "a new front has the suction of its water content");
  vf_close(f->K_cm_per_h, calc_K_from_Se(se, K, p.vg_m), 1e-9, "a new front has the conductivity of its water content");
  if (tb || dd <= td) {
    vf_assert(n1 == n0 + 1 && f->next == top, "a new front lies on top of the others"); vf_close(f->depth_cm, dd, 0, "a new front reaches its depth"); vf_assert(!f->to_bottom, "a new front can move"); vf_reach("added");
    vf_close(f->dzdt_cm_per_h, 0.0, 0, "a new front starts at rest"); vf_close(top->theta, th1, 0, "other fronts are unchanged");
  } else vf_reach("merged");
  if (g_phys) physical(w.cum, w.soil, w.ff, w.sp, w.head, false, false, true);
  vf_reach("end");
}
