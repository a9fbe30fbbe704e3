#include "phys.h"
// the initial profile is physical.  case = layers-1 + 10*soils
extern "C" void harness(void) {
  int cs = pcase(); static const int S[4][4] = {{1, 2, 3, 4}, {2, 1, 4, 3}, {4, 3, 1, 2}, {3, 4, 2, 1}};
  Conf c; c.nlay = cs % 10 + 1; for (int i = 0; i < c.nlay; i++) { c.soil[i] = S[cs / 10][i]; c.thick[i] = sym("thick", i, 1, 200); }
  c.psi = vf_double("psi", 0, 100000); c.dt = 3600;
  write_conf(c);
  BmiLGAR m; m.Initialize("cfg.txt"); model_state *s = m.get_model(); lgar_bmi_parameters &p = s->lgar_bmi_params;
  physical(p.cum_layer_thickness_cm, p.layer_soil_type, p.frozen_factor, s->soil_properties, s->head, true, true, true);
  int n = 0; double t[4], d[4]; m.GetValue("soil_num_wetting_fronts", &n); (vf_assert)(n == c.nlay, "one front per layer at the start");
  m.GetValue("soil_moisture_wetting_fronts", t); m.GetValue("soil_depth_wetting_fronts", d); double z = 0;
  for (int i = 0; i < n; i++) {
    const soil_properties_ &q = s->soil_properties[c.soil[i]];
    (vf_le)(q.theta_r, t[i], 1e-9, "water content is at least residual"); (vf_le)(t[i], q.theta_e, 1e-9, "water content is at most saturated"); (vf_le)(z, d[i], 1e-12, "fronts are ordered by depth"); z = d[i];
    (vf_le)(q.theta_r, q.theta_wp, 1e-9, "the wilting point lies between residual and saturated water content"); (vf_le)(q.theta_wp, q.theta_e, 1e-9, "the wilting point lies between residual and saturated water content");
  }
  vf_reach("end");
}
