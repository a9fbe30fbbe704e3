#include "geff.h"
// speed of the wetting fronts; case = 100*integrated + 10*soils + shape
extern "C" void harness(void) {
  int cs = vf_case(); bool cf = cs < 100; cs %= 100;
  static const int S[4][4] = {{1, 2, 3, 4}, {2, 1, 4, 3}, {4, 3, 1, 2}, {3, 4, 2, 1}};
  static const int NL[] = {1, 1, 2, 2, 3, 3, 3, 1, 2, 4}, FR[][5] = {{0,0}, {0,1}, {0,1,0}, {0,0,1}, {0,0,0,1}, {0,0,1,0}, {0,1,1,1}, {0,2}, {0,1,2}, {0,0,0,0,1}};
  double thick[] = {40.0, 60.0, 100.0, 50.0};
  int sh = cs % 10; const int *so = S[cs / 10];
  World w; mkworld(w, NL[sh], thick, so);
  for (int l = 1; l <= w.nl; l++) w.ff[l] = sym("ff", l, 0.05, 1.0);
  profile(w, FR[sh], false);
  if ((sh == 1 || sh == 3) && vf_choice("equal", 0, 1)) for (wetting_front *f = w.head; f->next; f = f->next) if (!f->to_bottom) { f->next->theta = f->theta; f->next->psi_cm = f->psi_cm; }      // no contrast to what is below
  int i = 0;
  double dep[12], th0[12], psi[12];
  for (wetting_front *f = w.head; f; f = f->next, i++) {
    f->K_cm_per_h = sym("K", i, 1e-9, 20); vf_assume(f->K_cm_per_h <= w.sp[w.soil[f->layer_num]].Ksat_cm_per_h * w.ff[f->layer_num]);
    dep[i] = f->depth_cm; th0[i] = f->theta; psi[i] = f->psi_cm; f->dzdt_cm_per_h = sym("v", i, 0, 1);
    if (f->to_bottom) f->dzdt_cm_per_h = 0;
  }
  double hp = vf_double("hp", 0, 5);
  lgar_dzdt_calc(cf, cf ? 120 : 6, hp, w.soil, w.cum, w.ff, w.head, w.sp);
  i = 0;
  for (wetting_front *f = w.head; f; f = f->next, i++) {
    vf_close(f->depth_cm, dep[i], 0, "computing speeds moves no front"); vf_close(f->theta, th0[i], 0, "computing speeds changes no water content"); vf_close(f->psi_cm, psi[i], 0, "computing speeds changes no suction");
    double v = f->dzdt_cm_per_h;
    if (f->to_bottom) { vf_close(v, 0.0, 0, "a front at the bottom of its layer is at rest"); continue; }
    int L = f->layer_num; const soil_properties_ &p = w.sp[w.soil[L]]; double Ks = p.Ksat_cm_per_h * w.ff[L], dth = f->theta - f->next->theta;
    double G = calc_Geff(cf, f->next->theta, f->theta, p.theta_e, p.theta_r, p.vg_alpha_per_cm, p.vg_n, p.vg_m, p.h_min_cm, Ks, cf ? 120 : 6, p.bc_lambda, p.bc_psib_cm);
    double flux;
    if (L == 1) flux = f->K_cm_per_h + Ks * (G + hp) / f->depth_cm;
    else {
      double r = (f->depth_cm - w.cum[L - 1]) / f->K_cm_per_h;
      for (int l = L - 1; l >= 1; l--) {
        const soil_properties_ &q = w.sp[w.soil[l]];
        double t = calc_theta_from_h(f->psi_cm, q.vg_alpha_per_cm, q.vg_m, q.vg_n, q.theta_e, q.theta_r), se = calc_Se_from_theta(t, q.theta_e, q.theta_r);
        r += (w.cum[l] - w.cum[l - 1]) / calc_K_from_Se(se, q.Ksat_cm_per_h * w.ff[l], q.vg_m);
      }
      flux = f->depth_cm / r + Ks * (G + hp) / f->depth_cm;
    }
    vf_le(0.0, v, 0, "fronts never move up"); vf_assert(v > 0, "a front inside its layer keeps moving");
    vf_le(v, 1e4, 1e-6, "speed is limited");
    if (dth <= 0) { vf_reach("no contrast"); continue; }
    if (flux > 1e4 * dth) { vf_close(v, 1e4, 1e-6, "speed is limited"); vf_reach("limited"); }
    else { vf_reach("moving"); vf_close(v * dth, flux, 1e-8 + (vf_native() ? 1e-7 * flux : 0), "a front moves with the flux behind it divided by the water it displaces"); }
  }
  vf_reach("end");
}
