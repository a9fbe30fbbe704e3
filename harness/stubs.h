// Contract stubs (symbolic runs only; native replays run the real functions).  Each one allows every outcome that the
// contract of the real function allows; the contracts themselves are decided by the harnesses named here.
#pragma once
#include "lgar.h"
static int g_created = 0;
static bool g_idle = false;           // the soil processes do nothing
static bool g_fronts = false;         // fronts are added, and vanish when fronts move
static int g_moves = 0;
static double g_eps = 0;              // water balance error of moving the fronts, bounded
static double bottom_thick(double *cum, int nl, wetting_front *f) { return f->depth_cm - cum[f->layer_num - 1]; }
// C04: soil water changes by infiltration - evapotranspiration - flow through the bottom
void stub_lgar_move_wetting_fronts(double timestep_h, double *volin, int fd, double old_mass, int nl, double *aet, double *cum, int *soil, double *ff,
                              wetting_front **head, wetting_front *prev, soil_properties_ *sp) {
  if (g_idle) { *volin = 0.0; *aet = 0.0; return; }
  double in = *volin;
  double a = vf_fresh("aet", 0, 10), q = vf_fresh("flux", 0, 50), e = g_eps > 0 ? vf_fresh("eps", -g_eps, g_eps) : 0.0;
  vf_assume(a <= *aet);
  wetting_front *f = *head; while (f->next) f = f->next;
  double t = f->theta + (in - a - q + e) / bottom_thick(cum, nl, f);
  vf_assume(t > sp[soil[nl]].theta_r); vf_assume(t <= sp[soil[nl]].theta_e);
  f->theta = t; *aet = a; *volin = q;
  if (g_fronts && (*head)->to_bottom == FALSE && vf_choice(nm("vanish", g_moves++).c_str(), 0, 1)) {
    wetting_front *d = *head; double w = (d->theta - d->next->theta) * d->depth_cm;      // the topmost front's excess water goes to the bottom
    listDeleteFront(d->front_num, head); f = *head; while (f->next) f = f->next;
    t = f->theta + w / bottom_thick(cum, nl, f); vf_assume(t <= sp[soil[nl]].theta_e); f->theta = t;
  }
}
// C01: surface water is split into infiltration, ponding up to the maximum, and runoff of the rest
double stub_lgar_insert_water(bool cf, int nint, double dt, double aet, double *pond, double *volin, double precip, int fd, int nl, double pmax, int *soil,
                         double *cum, double *ff, wetting_front *head, soil_properties_ *sp) {
  double v = vf_fresh("inf", 0, 50);
  vf_assume(v <= *pond);
  double rest = *pond - v, run = 0.0;
  if (rest > pmax) { run = rest - pmax; rest = pmax; }
  *volin = v; *pond = rest;
  return run;
}
// C09: a new front takes its water from the surface
void stub_lgar_create_surficial_front(int nl, double *pond, double *volin, double dry, double theta1, int *soil, double *cum, double *ff, wetting_front **head, soil_properties_ *sp) {
  double v = vf_fresh("newfront", 0, 50);
  vf_assume(v <= *pond);
  wetting_front *f = *head; while (f->next) f = f->next;
  double t = f->theta + v / bottom_thick(cum, nl, f);
  vf_assume(t <= sp[soil[nl]].theta_e);
  if (g_fronts) {
    double z = vf_fresh("newdepth", 1, 5); vf_assume(theta1 + v / z <= sp[soil[1]].theta_e);
    listInsertFirst(z, theta1 + v / z, 1, 1, false, head); (*head)->psi_cm = 50; (*head)->K_cm_per_h = 0.1; (*head)->dzdt_cm_per_h = 0;
  } else f->theta = t;
  *volin = v; *pond = *pond - v; g_created++;
}
double stub_lgar_calc_dry_depth(bool cf, int nint, double dt, double *deltheta, int *soil, double *cum, double *ff, wetting_front *head, soil_properties_ *sp) {
  *deltheta = vf_fresh("delth", 0, 0.5); return vf_fresh("dry", 0, 100);
}
void stub_lgar_dzdt_calc(bool cf, int nint, double hp, int *soil, double *cum, double *ff, wetting_front *head, soil_properties_ *sp) { }
// C10
double stub_calc_aet(double pet, double dt, double wp, double fc, int *soil, double th, double ex, wetting_front *head, soil_properties_ *sp) {
  double a = vf_fresh("demand", 0, 100); vf_assume(a <= pet * dt); return a;
}
