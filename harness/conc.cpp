#include "lgar.h"
extern "C" void harness(void) {
  Conf c; c.closed = vf_case() == 0; c.adaptive = vf_case() == 2;
  write_conf(c);
  BmiLGAR m;
  m.Initialize("cfg.txt");
  double pet = 0.1;
  for (int t = 0; t < 8; t++) {
    double p = t % 4 == 0 ? 0.0 : 12.0 * t;
    m.SetValue("precipitation_rate", &p);
    m.SetValue("potential_evapotranspiration_rate", &pet);
    m.Update();
  }
  double st; m.GetValue("soil_storage", &st);
  vf_trace("storage",st);
  double ru; m.GetValue("surface_runoff", &ru);
  vf_trace("runoff",ru);
  m.Finalize();
  vf_reach("end");
}
