#include "lgar.h"
// frozen soil: factor per layer from the mean temperature of its cells; applied to conductivity
extern "C" void harness(void) {
  int cs = vf_case();
  static const double Z[3][6] = {{10, 40, 70, 100, 150, 200}, {5, 45, 110, 0, 0, 0}, {40, 90, 130, 199, 250, 300}};
  static const int NZ[3] = {6, 3, 6};
  int nz = NZ[cs % 3];
  if (cs >= 6) {                        // a profile that ends above the last layer: nothing beyond it is read; the model may stop
    double thick[] = {40, 60, 100}; int so[] = {1, 2, 3}; World w; mkworld(w, 3, thick, so);
    lgar_bmi_parameters p; memset(&p, 0, sizeof p);
    nz = cs == 6 ? 3 : 2;
    double *T = new double[nz], *z = new double[nz];
    for (int i = 0; i < nz; i++) { T[i] = sym("T", i, 250, 300); z[i] = 10 + 35 * i; }
    p.num_layers = 3; p.num_cells_temp = nz; p.cum_layer_thickness_cm = w.cum; p.soil_temperature = T; p.soil_temperature_z = z; p.frozen_factor = w.ff;
    vf_reach("short");
    vf_expect_stop(true);
    frozen_factor_hydraulic_conductivity(p);
    vf_expect_stop(false);
    vf_reach("end"); return;
  }
  if (cs < 3) {
    double thick[] = {40, 60, 100}; int so[] = {1, 2, 3}; World w; mkworld(w, 3, thick, so);
    lgar_bmi_parameters p; memset(&p, 0, sizeof p);
    double T[6], z[6];
    for (int i = 0; i < nz; i++) { T[i] = sym("T", i, 250, 300); z[i] = Z[cs][i]; }
    p.num_layers = 3; p.num_cells_temp = nz; p.cum_layer_thickness_cm = w.cum; p.soil_temperature = T; p.soil_temperature_z = z; p.frozen_factor = w.ff;
    frozen_factor_hydraulic_conductivity(p);
    int c = 0;
    for (int l = 1; l <= 3; l++) {
      double s = 0; int n = 0;
      for (; c < nz && z[c] <= w.cum[l]; c++) { s += T[c]; n++; }
      double mean = s / n, f = w.ff[l];
      vf_le(0.05, f, 0, "the frozen factor is at least 0.05"); vf_le(f, 1.0, 0, "the frozen factor is at most 1");
      if (mean >= 273.15) { vf_close(f, 1.0, 1e-12, "soil at or above freezing is not impeded"); vf_reach("warm"); }
      else if (mean < 272.8) { vf_close(f, 0.05, 1e-12, "soil well below freezing is impeded to the minimum"); vf_reach("cold"); }   // exp(-10*0.35) < 0.05
      else { vf_reach("mid"); double e = exp(-10 * (273.15 - mean)); vf_close(f, e < 0.05 ? 0.05 : e, 1e-9, "the factor falls exponentially below freezing"); }
    }
  } else {                              // through the model interface: factors follow the temperatures of the current step
    Conf c; c.nlay = 3; c.sft = 1; c.nz = nz; for (int i = 0; i < nz; i++) c.z[i] = Z[cs % 3][i];
    c.dt = 3600;
    write_conf(c);
    BmiLGAR m; m.Initialize("cfg.txt");
    model_state *s = m.get_model();
    for (int l = 1; l <= 3; l++) vf_close(s->lgar_bmi_params.frozen_factor[l], 1.0, 0, "soil is not frozen initially");
    for (int t = 0; t < 2; t++) {
      double T[6]; for (int i = 0; i < nz; i++) T[i] = t == 0 ? sym("T", i, 250, 300) : 285.0;
      if (t == 0) for (int i = 1; i < nz; i++) vf_assume(T[i] >= T[i - 1]);
      m.SetValue("soil_temperature_profile", T);
      setc(m, "precipitation_rate", 0.0); setc(m, "potential_evapotranspiration_rate", 0.0);
      m.Update();
      int k = 0;
      for (int l = 1; l <= 3; l++) {
        double q = 0; int n = 0;
        for (; k < nz && c.z[k] <= s->lgar_bmi_params.cum_layer_thickness_cm[l]; k++) { q += T[k]; n++; }
        double mean = q / n, f = s->lgar_bmi_params.frozen_factor[l];
        vf_le(0.05, f, 0, "the frozen factor is at least 0.05"); vf_le(f, 1.0, 0, "the frozen factor is at most 1");
        if (mean >= 273.15) vf_close(f, 1.0, 1e-12, "soil at or above freezing is not impeded"); else if (mean < 272.8) vf_close(f, 0.05, 1e-12, "soil well below freezing is impeded to the minimum");
      }
    }
  }
  vf_reach("end");
}
