#pragma once
#include "lgar.h"
// symbolic runs: every soil and surface process may have any outcome its contract allows, the same one for the same call of the same model
static std::string g_who = "a"; static int g_n = 0; static int g_cnt[8]; static int g_slot = 0;
static bool g_runoff = false;
static bool g_plain = false;            // one fixed outcome
static double pick(const char *n, double lo, double hi) { if (g_who == "b" || g_plain) return 0.0; std::string s = g_who; s += n; return sym(s.c_str(), g_cnt[g_slot]++, lo, hi); }
void stub_lgar_move_wetting_fronts(double timestep_h, double *volin, int fd, double old_mass, int nl, double *aet, double *cum, int *soil, double *ff,
                              wetting_front **head, wetting_front *prev, soil_properties_ *sp) {
  double in = *volin, a = pick("aet", 0, 10), q = pick("flux", 0, 50);
  vf_assume(a <= *aet);
  wetting_front *f = *head; double top = 0; while (f->next) { top = f->depth_cm; f = f->next; }
  double t = f->theta + (in - a - q) / (f->depth_cm - top);
  vf_assume(t > sp[soil[nl]].theta_r); vf_assume(t <= sp[soil[nl]].theta_e);
  f->theta = t; *aet = a; *volin = q;
}
double stub_lgar_insert_water(bool cf, int nint, double dt, double aet, double *pond, double *volin, double precip, int fd, int nl, double pmax, int *soil,
                         double *cum, double *ff, wetting_front *head, soil_properties_ *sp) {
  double v = g_plain ? *pond * 0.75 : pick("inf", 0, 50); vf_assume(v <= *pond);
  if (g_runoff) { double r = sym("run", g_cnt[g_slot]++, 0, 50); vf_assume(r <= *pond); *volin = *pond - r; *pond = 0; return r; }     // any runoff, no ponding
  double rest = *pond - v, run = 0.0; if (rest > pmax) { run = rest - pmax; rest = pmax; }
  *volin = v; *pond = rest; return run;
}
void stub_lgar_create_surficial_front(int nl, double *pond, double *volin, double dry, double theta1, int *soil, double *cum, double *ff, wetting_front **head, soil_properties_ *sp) {
  double v = *pond * 0.5;
  listInsertFirst(3.0, theta1 + v / 3.0, 1, 1, false, head); (*head)->psi_cm = 50; (*head)->K_cm_per_h = 0.1; (*head)->dzdt_cm_per_h = 0;
  *volin = v; *pond = *pond - v;
}
double stub_lgar_calc_dry_depth(bool cf, int nint, double dt, double *deltheta, int *soil, double *cum, double *ff, wetting_front *head, soil_properties_ *sp) { *deltheta = 0.2; return 3.0; }
void stub_lgar_dzdt_calc(bool cf, int nint, double hp, int *soil, double *cum, double *ff, wetting_front *head, soil_properties_ *sp) { }
double stub_calc_aet(double pet, double dt, double wp, double fc, int *soil, double th, double ex, wetting_front *head, soil_properties_ *sp) { return pet * dt * 0.5; }
