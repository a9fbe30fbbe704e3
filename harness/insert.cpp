#include "geff.h"
// surface water partition by the infiltration capacity; case = 10*soils + shape (100+: also saturated profiles, partition only; 200+: integrated G)
extern "C" void harness(void) {
  int cs = vf_case(); int mode = cs / 100; cs %= 100;
  static const int S[4][4] = {{1, 2, 3, 4}, {2, 1, 4, 3}, {4, 3, 1, 2}, {3, 4, 2, 1}};
  static const int NL[] = {1, 1, 2, 2, 3, 2, 3, 1, 3, 4}, FR[][5] = {{0,0}, {0,1}, {0,1,0}, {0,0,1}, {0,0,0,1}, {0,0,0}, {0,0,1,1}, {0,2}, {0,0,0,0}, {0,0,0,0,1}};
  double thick[] = {40.0, 60.0, 100.0, 50.0};
  int sh = cs % 10; const int *so = S[cs / 10];
  World w; mkworld(w, NL[sh], thick, so);
  int nl = w.nl;
  for (int l = 1; l <= nl; l++) w.ff[l] = sym("ff", l, 0.05, 1.0);
  profile(w, FR[sh], false);
  bool sat = false;
  for (wetting_front *f = w.head; f; f = f->next) {
    double e = w.sp[w.soil[f->layer_num]].theta_e;
    if (mode == 1) { if (vf_choice(nm("sat", f->front_num).c_str(), 0, 1)) { vf_assume(f->theta == e); f->psi_cm = 0.0; sat = true; } else vf_assume(f->theta < e); }
    else vf_assume(f->theta < e);
  }
  static const double DT[] = {1.0 / 12, 0.25, 1.0};
  double dt = DT[vf_choice("dt", 0, 2)];
  double P = vf_double("P", 0, 20), old = vf_double("old", 0, 5), aet = vf_double("aet", 0, 0.1), pmax = vf_choice("ponding", 0, 1) ? vf_double("pmax", 0.001, 5) : 0.0;
  vf_assume(old <= pmax);
  double pond0 = P * dt + old;
  vf_assume(pond0 > 0);
  double pond = pond0, in = -1, h = old;
  double m0 = signed_mass(w.cum, w.head);
  int fd = wetting_front_free_drainage(w.head);
  wetting_front *f = w.head; int k = 1; while (f->next && f->to_bottom) { f = f->next; k++; }
  vf_assert(fd == k, "the front that receives infiltration is the uppermost one that does not reach its layer's bottom");
  double run = lgar_insert_water(mode != 2, mode == 2 ? 6 : 120, dt, aet, &pond, &in, P, fd, nl, pmax, w.soil, w.cum, w.ff, w.head, w.sp);
  vf_close(in + pond + run, pond0, 1e-9, "surface water is infiltrated, ponded or runs off");
  vf_le(0.0, in, 1e-12, "infiltration is never negative"); vf_le(0.0, run, 1e-12, "runoff is never negative"); vf_le(0.0, pond, 1e-12, "ponding is never negative");
  vf_le(pond, pmax, 1e-12, "ponding never exceeds its maximum");
  if (run > 1e-9) { vf_close(pond, pmax, 1e-9, "water runs off only when ponding has reached its maximum"); vf_reach("runoff"); }
  double room = 0; for (int l = 1; l <= nl; l++) room += w.sp[w.soil[l]].theta_e * (w.cum[l] - w.cum[l - 1]);
  room -= m0;
  vf_le(in, room, 1e-9, "infiltration never exceeds the free storage of the soil");
  vf_close(signed_mass(w.cum, w.head), m0, 0, "the partition leaves the soil unchanged");
  if (!sat) {
    int L = f->layer_num; const soil_properties_ &p = w.sp[w.soil[L]];
    double K = p.Ksat_cm_per_h * w.ff[L], d = f->depth_cm, G = 0, cap;
    if (f->next) G = calc_Geff(mode != 2, f->next->theta, p.theta_e, p.theta_e, p.theta_r, p.vg_alpha_per_cm, p.vg_n, p.vg_m, p.h_min_cm, K, mode == 2 ? 6 : 120, p.bc_lambda, p.bc_psib_cm);
    if (L == 1) cap = K * (1 + (G + h) / d);
    else {
      double r = (d - w.cum[L - 1]) / K;
      for (int l = L - 1; l >= 1; l--) r += (w.cum[l] - w.cum[l - 1]) / (w.sp[w.soil[l]].Ksat_cm_per_h * w.ff[l]);
      cap = d / r + (G + h) * K / d;
    }
    double want = pond0;
    if (want > cap * dt) { want = cap * dt; vf_reach("capacity"); }
    if (want > room) { want = room; vf_reach("full"); }
    vf_close(in, want, 1e-9, "water infiltrates at the infiltration capacity while there is water and room for it");
  }
  vf_reach("end");
}
