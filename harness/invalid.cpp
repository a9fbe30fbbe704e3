#include "lgar.h"
// layers with a soil type outside the modelled range: rain leaves as runoff
extern "C" void harness(void) {
  int cs = vf_case();
  static const double RES[] = {3600, 900, 7200};
  Conf c; c.nlay = 2; c.res = RES[cs]; c.dt = 300; c.nsoils = 4; c.maxsoil = 2; c.soil[0] = 1; c.soil[1] = 2;
  int bad = vf_choice("layer", 0, 1), type = vf_choice("type", 3, 5);
  c.soil[bad] = type;
  write_conf(c);
  BmiLGAR m; m.Initialize("cfg.txt");
  double h = c.res / 3600, tot = 0;
  for (int t = 0; t < 3; t++) {
    double P = sym("P", t, 0, 200), E = sym("E", t, 0, 5);
    setc(m, "precipitation_rate", P); setc(m, "potential_evapotranspiration_rate", E);
    m.Update();
    tot += P * 0.1 * h;
    vf_close(getc(m, "precipitation"), P * h / 1000, 1e-12, "precipitation of the interval");
    vf_close(getc(m, "surface_runoff"), P * h / 1000, 1e-12, "all rain becomes runoff");
    vf_close(getc(m, "total_discharge"), P * h / 1000, 1e-12, "all rain becomes discharge");
    vf_close(getc(m, "infiltration"), 0, 0, "no infiltration"); vf_close(getc(m, "actual_evapotranspiration"), 0, 0, "no evapotranspiration");
    vf_close(getc(m, "percolation"), 0, 0, "no percolation"); vf_close(getc(m, "mass_balance"), 0, 0, "no balance error");
    vf_close(m.get_model()->lgar_mass_balance.volprecip_cm, tot, 1e-9, "total precipitation"); vf_close(m.get_model()->lgar_mass_balance.volrunoff_cm, tot, 1e-9, "total runoff");
    vf_close(m.get_model()->lgar_mass_balance.volQ_cm, tot, 1e-9, "total discharge");
    vf_close(m.GetCurrentTime(), (t + 1) * c.res, 1e-6, "time advances by the forcing interval");
  }
  vf_out_reset();
  m.Finalize();
  vf_close(vf_printed("Total precipitation"), tot, 1e-8, "summary: precipitation"); vf_close(vf_printed("Surface runoff"), tot, 1e-8, "summary: runoff");
  vf_close(vf_printed("Total discharge (Q)"), tot, 1e-8, "summary: discharge"); vf_close(vf_printed("Global balance"), 0.0, 1e-8, "summary: balance");
  vf_reach("end");
}
