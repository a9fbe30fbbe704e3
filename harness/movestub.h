// contracts of the two searches inside lgar_move_wetting_fronts (see move.cpp)
#pragma once
#include "lgar.h"
static double *g_aet = 0; static double g_in = 0, g_old = 0;
static int g_srch = 0; static bool g_nodry = false;      // no front dries out
double stub_lgar_theta_mass_balance(int layer, int soil, double psi, double new_mass, double prior, double *aet, double *dth, double *dz, int *st, soil_properties_ *sp) {
  int out = vf_choice(nm("search", g_srch++).c_str(), 0, g_nodry ? 1 : 2);
  double p = out == 0 ? vf_fresh("psi", 1e-3, 9e6) : out == 1 ? 0.0 : 1e7;
  double th = 0, mass = 0;
  for (int k = layer; k >= 1; k--) {
    const soil_properties_ &s = sp[k == layer ? soil : st[k]];
    double t = calc_theta_from_h(p, s.vg_alpha_per_cm, s.vg_m, s.vg_n, s.theta_e, s.theta_r);
    if (k == layer) th = t;
    mass += dz[k] * (t - dth[k]);
  }
  if (out == 0) vf_assume(mass == prior);
  else if (out == 1) { vf_assume(prior > mass); if (vf_choice("aet0", 0, 1)) *aet = 0; }
  else { vf_assume(prior < mass); *aet = *aet - (mass - prior); }
  return th;
}
struct Snap { int n; double d[12], t[12]; };
static Snap g_snap; static bool g_has = false;
double stub_lgar_calc_mass_bal(double *cum, wetting_front *h) {
  Snap s; s.n = 0; double m = signed_mass(cum, h);
  for (wetting_front *f = h; f && s.n < 12; f = f->next, s.n++) { s.d[s.n] = f->depth_cm; s.t[s.n] = f->theta; }
  int diff = -1, nd = 0; bool same = g_has && s.n == g_snap.n;
  for (int i = 0; i < s.n && same; i++) { if (s.t[i] != g_snap.t[i]) same = false; if (s.d[i] != g_snap.d[i]) { diff = i; nd++; } }
  if (same && nd == 1) {               // the depth search
    wetting_front *f = h; for (int i = 0; i < diff; i++) f = f->next;
    double slope = f->theta - (f->next && f->next->layer_num == f->layer_num ? f->next->theta : 0.0);
    double target = g_old + g_in - *g_aet;
    f->depth_cm = f->depth_cm + (target - m) / slope; s.d[diff] = f->depth_cm; m = target; vf_reach("depth search");
  }
  g_snap = s; g_has = true;
  return m;
}
