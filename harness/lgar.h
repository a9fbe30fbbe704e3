// Shared harness helpers: soil sets, a virtual configuration, symbolic wetting-front profiles.
#pragma once
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include "bmi_lgar.hxx"
#include "all.hxx"

struct Soil { double tr, te, al, n, K; };
static const Soil SOILS[] = {
  {0.05, 0.38, 0.04,  2.0,   2.0},      // 1: n = 2, m = 1/2
  {0.07, 0.44, 0.01,  1.5,   0.75},     // 2: n = 3/2, m = 1/3
  {0.10, 0.46, 0.02,  1.25,  0.5},      // 3: n = 5/4, m = 1/5
  {0.04, 0.40, 0.03,  4.0,   12.0},     // 4: n = 4, m = 3/4
  {0.08, 0.45, 0.015, 2.0,   0.8},      // 5: n = 2
  {0.03, 0.36, 0.06,  2.0,   6.0},      // 6: n = 2
};
static const int NSOILS = 6;
static const char *DIG[] = {"0","1","2","3","4","5","6","7","8","9","10","11","12","13","14","15","16","17","18","19","20","21","22","23","24","25","26","27","28","29","30","31","32","33","34","35","36","37","38","39"};

static inline std::string nm(const char *p, int i) { std::string s(p); s += DIG[i]; return s; }
static inline double sym(const char *p, int i, double lo, double hi) { std::string s = nm(p, i); return vf_double(s.c_str(), lo, hi); }

static inline void write_soils(const char *fn, int count) {
  vf_file_begin(fn);
  vf_puts("\"Texture\"  theta_r theta_e alpha n Ks\n");
  for (int i = 0; i < count; i++) {
    const Soil &s = SOILS[i % NSOILS];
    vf_puts("\"Soil"); vf_puti(i + 1); vf_puts("\" ");
    vf_putd(s.tr); vf_puts(" "); vf_putd(s.te); vf_puts(" "); vf_putd(s.al); vf_puts(" "); vf_putd(s.n); vf_puts(" "); vf_putd(s.K); vf_puts("\n");
  }
  vf_file_end();
}

struct Conf {
  int nlay = 3; double thick[4] = {40.0, 60.0, 100.0, 50.0}; int soil[4] = {1, 2, 3, 4};
  double psi = 2000.0, wp = 15495.0, fc = 340.9, pond = 2.0;
  double dt = 300.0, end = 360000.0, res = 3600.0;
  int ngiuh = 3; double giuh[6] = {0.25, 0.5, 0.25, 0, 0, 0};
  int nsoils = 4; int maxsoil = 4; bool closed = true; int adaptive = 0; int calib = 0; int sft = 0; int nz = 0; double z[8];
  const char *extra = ""; const char *file = "cfg.txt"; const char *soils = "soils.dat";
};

static inline void write_conf(const Conf &c) {
  write_soils(c.soils, c.nsoils);
  vf_file_begin(c.file);
  vf_puts("verbosity=none\nsoil_params_file="); vf_puts(c.soils); vf_puts("\nlayer_thickness=");
  for (int i = 0; i < c.nlay; i++) { if (i) vf_puts(","); vf_putd(c.thick[i]); }
  vf_puts("[cm]\ninitial_psi="); vf_putd(c.psi);
  vf_puts("[cm]\ntimestep="); vf_putd(c.dt); vf_puts("[sec]\nendtime="); vf_putd(c.end); vf_puts("[sec]\nforcing_resolution="); vf_putd(c.res);
  vf_puts("[sec]\nponded_depth_max="); vf_putd(c.pond); vf_puts("[cm]\nuse_closed_form_G="); vf_puts(c.closed ? "true" : "false");
  vf_puts("\nlayer_soil_type=");
  for (int i = 0; i < c.nlay; i++) { if (i) vf_puts(","); vf_puti(c.soil[i]); }
  vf_puts("\nmax_valid_soil_types="); vf_puti(c.maxsoil);
  vf_puts("\nwilting_point_psi="); vf_putd(c.wp); vf_puts("[cm]\nfield_capacity_psi="); vf_putd(c.fc);
  vf_puts("[cm]\ngiuh_ordinates=");
  for (int i = 0; i < c.ngiuh; i++) { if (i) vf_puts(","); vf_putd(c.giuh[i]); }
  vf_puts("\nadaptive_timestep="); vf_puts(c.adaptive ? "true" : "false");
  vf_puts("\n");
  if (c.calib) vf_puts("calib_params=true\n");
  if (c.sft) vf_puts("sft_coupled=true\n");
  if (c.nz) { vf_puts("soil_z="); for (int i = 0; i < c.nz; i++) { if (i) vf_puts(","); vf_putd(c.z[i]); } vf_puts("\n"); }
  vf_puts(c.extra);
  vf_file_end();
}

// ---------------------------------------------------------------- function-level world
struct World {
  int nl; int soil[6]; double cum[6]; double ff[6]; soil_properties_ sp[NSOILS + 1]; wetting_front *head;
};
static inline void fill_soil(soil_properties_ &p, const Soil &s) {
  p.theta_r = s.tr; p.theta_e = s.te; p.vg_alpha_per_cm = s.al; p.vg_n = s.n; p.vg_m = 1.0 - 1.0 / s.n; p.Ksat_cm_per_h = s.K;
  double q = 1.0 + 2.0 / p.vg_m;
  p.bc_lambda = 2.0 / (q - 3.0);
  p.bc_psib_cm = (q + 3.0) * (147.8 + 8.1 * q + 0.092 * q * q) / (2.0 * s.al * q * (q - 1.0) * (55.6 + 7.4 * q + q * q));
  p.h_min_cm = p.bc_psib_cm * (2.0 + 3.0 / p.bc_lambda) / (1.0 + 3.0 / p.bc_lambda);
  p.theta_wp = s.tr;
}
static inline double th(const World &w, int layer, double psi) {
  const soil_properties_ &p = w.sp[w.soil[layer]];
  return calc_theta_from_h(psi, p.vg_alpha_per_cm, p.vg_m, p.vg_n, p.theta_e, p.theta_r);
}
// nl layers with fixed thicknesses; soils given by index
static inline void mkworld(World &w, int nl, const double *thick, const int *soil) {
  w.nl = nl; w.head = NULL; w.cum[0] = 0.0; w.ff[0] = 1.0; w.soil[0] = 0;
  for (int i = 0; i < NSOILS; i++) fill_soil(w.sp[i + 1], SOILS[i]);
  for (int k = 1; k <= nl; k++) { w.cum[k] = w.cum[k-1] + thick[k-1]; w.soil[k] = soil[k-1]; w.ff[k] = 1.0; }
}
static inline wetting_front *push_front(World &w, wetting_front *tail, double depth, double theta, double psi, int layer, bool bottom) {
  wetting_front *f = (wetting_front *) malloc(sizeof(wetting_front));
  f->depth_cm = depth; f->theta = theta; f->psi_cm = psi; f->layer_num = layer; f->to_bottom = bottom; f->dzdt_cm_per_h = 0.0;
  f->K_cm_per_h = 0.0; f->next = NULL; f->front_num = tail ? tail->front_num + 1 : 1;
  if (tail) tail->next = f; else w.head = f;
  return f;
}
static inline int nfronts(wetting_front *h) { int n = 0; for (; h; h = h->next) n++; return n; }
// storage of a list of fronts, independently of lgar_calc_mass_bal: the integral of theta over depth
static inline double integral(const double *cum, wetting_front *h) {
  double s = 0; int layer = 0; double top = 0;
  for (; h; h = h->next) {
    if (h->layer_num != layer) { layer = h->layer_num; top = cum[layer - 1]; }
    s += h->theta * (h->depth_cm - top); top = h->depth_cm;
  }
  return s;
}
static inline double signed_mass(const double *cum, wetting_front *h) {   // the same integral with fronts that may pass each other
  double s = 0;
  for (; h; h = h->next) {
    double below = h->next && h->next->layer_num == h->layer_num ? h->next->theta : 0.0;
    s += (h->depth_cm - cum[h->layer_num - 1]) * (h->theta - below);
  }
  return s;
}
// profile with fr[l] free fronts (l = 1..nl) above the bottom front of each layer.
// top: the free fronts of the first layer have symbolic water contents, and a suction that is not used
// psi mode: suctions are symbolic and theta follows from them; theta mode: water contents are symbolic.
static bool g_fixdepth = false;         // fronts at fixed depths: everything is then linear in the water contents
static inline void profile(World &w, const int *fr, bool bypsi, double pmax = 5000.0, bool top = false) {
  double psi[12], theta[12], depth[12]; int lay[12]; bool bot[12]; int n = 0;
  for (int l = 1; l <= w.nl; l++) for (int k = 0; k <= fr[l]; k++) { lay[n] = l; bot[n] = k == fr[l]; n++; }
  for (int i = n - 1; i >= 0; i--) {
    if (bot[i] && i < n - 1) psi[i] = psi[i + 1];
    else { psi[i] = sym("h", i, 1.0, pmax); if (i < n - 1) vf_assume(psi[i] < psi[i + 1]); }
    const soil_properties_ &p = w.sp[w.soil[lay[i]]];
    if (bypsi && !(top && lay[i] == 1 && !bot[i])) theta[i] = th(w, lay[i], psi[i]);
    else {
      theta[i] = sym("th", i, p.theta_r, p.theta_e);
      vf_assume(theta[i] > p.theta_r);
      if (i < n - 1 && lay[i] == lay[i + 1]) vf_assume(theta[i] > theta[i + 1]);
    }
  }
  wetting_front *t = NULL;
  for (int i = 0; i < n; i++) {
    if (bot[i]) depth[i] = w.cum[lay[i]];
    else if (g_fixdepth) { int f = i; while (f > 0 && lay[f - 1] == lay[i]) f--; depth[i] = w.cum[lay[i] - 1] + (w.cum[lay[i]] - w.cum[lay[i] - 1]) * (0.21 + 0.23 * (i - f)); }
    else {
      depth[i] = sym("d", i, w.cum[lay[i] - 1], w.cum[lay[i]]);
      double top = i > 0 && lay[i - 1] == lay[i] ? depth[i - 1] : w.cum[lay[i] - 1];
      vf_assume(depth[i] > top); vf_assume(depth[i] < w.cum[lay[i]]);
    }
    t = push_front(w, t, depth[i], theta[i], psi[i], lay[i], bot[i]);
  }
}
// what every reader of a list of fronts relies on; msg-prefixed assertions
static inline void check_list(wetting_front *h, const double *cum, int nl, const char *where) {
  int k = 0, layer = 1; double prev = 0;
  bool seen = false;
  for (wetting_front *f = h; f; f = f->next) {
    k++;
    vf_assert(k < 40, "the list of fronts ends");
    vf_assert(f->front_num == k, "fronts are numbered 1, 2, ... from the top");
    if (seen) { layer++; seen = false; }
    vf_assert(f->layer_num == layer, "fronts are ordered by layer, one bottom front closing each");
    vf_le(prev, f->depth_cm, 1e-9, "front depths do not decrease downwards");
    if (f->to_bottom) {
      seen = true;
      vf_close(f->depth_cm, cum[f->layer_num], 1e-9, "a bottom front lies at its layer's bottom");
    }
    prev = f->depth_cm;
  }
  vf_assert(layer == nl && seen, "the deepest front closes the deepest layer");
}
static inline void list_free(wetting_front *h) { while (h) { wetting_front *n = h->next; free(h); h = n; } }
static inline void setc(BmiLGAR &m, const char *n, double v) { m.SetValue(n, &v); }
static inline double getc(BmiLGAR &m, const char *n) { double v = 0; m.GetValue(n, &v); return v; }
