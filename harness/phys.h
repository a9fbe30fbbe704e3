// C07: cases of 1000 and more check, in place of the harness' own assertions, that the resulting profile is physical
#pragma once
#include "lgar.h"
// cases of 2000 and more (move): that the fronts advance by their speed
// cases of 3000 and more (move): that conductivities follow the water contents, with each layer's own frozen factor
static bool g_phys = false, g_disp = false, g_cond = false;
static inline int pcase() { g_phys = vf_case() / 1000 == 1; g_disp = vf_case() / 1000 == 2; g_cond = vf_case() / 1000 == 3; return vf_case() % 1000; }
static inline void physical(const double *cum, const int *soil, const double *ff, const soil_properties_ *sp, wetting_front *h, bool cont, bool order = true, bool kup = false) {
  for (wetting_front *f = h; f; f = f->next) {
    int l = f->layer_num; const soil_properties_ &p = sp[soil[l]];
    vf_le(p.theta_r, f->theta, 1e-9, "water content is at least residual"); vf_le(f->theta, p.theta_e, 1e-9, "water content is at most saturated");
    vf_le(0.0, f->psi_cm, 0, "suction is not negative"); if (vf_native()) vf_le(f->psi_cm, 1e12, 0, "suction is finite");
    vf_le(0.0, f->K_cm_per_h, 0, "conductivity is not negative"); if (vf_native() || kup) vf_le(f->K_cm_per_h, p.Ksat_cm_per_h * ff[l], 1e-9, "conductivity is at most that of saturated soil");
    vf_le(cum[l - 1], f->depth_cm, 1e-9, "every front lies inside its layer"); vf_le(f->depth_cm, cum[l], 1e-9, "every front lies inside its layer");
    if (f->next) {
      if (order) vf_le(f->depth_cm, f->next->depth_cm, 1e-9, "fronts are ordered by depth");
      if (f->next->layer_num == l) vf_le(f->next->theta, f->theta, 1e-9, "water content does not increase downwards within a layer");
      else if (cont) vf_close(f->psi_cm, f->next->psi_cm, 1e-6 + (vf_native() ? 1e-4 * f->psi_cm : 0), "suction is continuous across layer boundaries");
    }
  }
  vf_reach("physical");
}
#define vf_assert(...) do { if (!g_phys && !g_disp && !g_cond) (vf_assert)(__VA_ARGS__); } while (0)
#define vf_close(...) do { if (!g_phys && !g_disp && !g_cond) (vf_close)(__VA_ARGS__); } while (0)
#define vf_le(...) do { if (!g_phys && !g_disp && !g_cond) (vf_le)(__VA_ARGS__); } while (0)
