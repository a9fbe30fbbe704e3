#include "lgar.h"
// whole-model runs: vf_case() selects the property group (hundreds) and the scenario (rest)
static double P(int i) { return sym("P", i, 0.0, 60.0); }
extern "C" void harness(void) {
  int g = vf_case() / 100, sc = vf_case() % 100;
  Conf c; c.nlay = 2; c.dt = 3600; c.res = 3600; c.thick[0] = 40; c.thick[1] = 60;
  int steps = 2;
  write_conf(c);
  BmiLGAR m;
  m.Initialize("cfg.txt");
  model_state *s = m.get_model();
  double *cum = s->lgar_bmi_params.cum_layer_thickness_cm;
  double pond = 0;
  for (int t = 0; t < steps; t++) {
    double before = integral(cum, s->head);
    double p = P(t);
    setc(m, "precipitation_rate", p); setc(m, "potential_evapotranspiration_rate", 0.0);
    m.Update();
    double after = integral(cum, s->head);
    double ro = getc(m, "surface_runoff"), aet = getc(m, "actual_evapotranspiration"), pe = getc(m, "percolation"), pond1 = s->lgar_mass_balance.volon_timestep_cm;
    vf_close(before + pond + p * 0.1 * c.res / 3600, after + pond1 + 100 * (ro + aet + pe), 1e-6, "water balance of the step");
    vf_close(getc(m, "soil_storage") * 100, after, 1e-9, "storage");
    pond = pond1;
  }
  vf_reach("end");
}
