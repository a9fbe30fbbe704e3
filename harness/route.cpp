#include "pick.h"
// runoff routing through the model interface: ordinates per hour, spread over the forcing interval (case = 100*(steps per interval - 1) + 10*resolution + ordinates)
extern "C" void harness(void) {
  static const double RES[] = {3600, 1800, 900, 7200, 1200, 600};
  int k = vf_case() / 10 % 10, n = vf_case() % 10;
  Conf c; c.nlay = 1; c.res = RES[k]; c.dt = RES[k] / (vf_case() / 100 + 1); c.pond = 0.5; c.ngiuh = n; c.end = 1e7;
  double o[8], s = 0;
  for (int i = 0; i < n; i++) { o[i] = c.giuh[i] = sym("o", i, 0, 1); s += o[i]; }
  write_conf(c);
  g_runoff = true;
  BmiLGAR m; m.Initialize("cfg.txt");
  int f = RES[k] >= 3600 ? 1 : (int) (3600 / RES[k] + 0.5), N = n * f, T = N + 2;
  double ro[64], in = 0, out = 0;
  for (int t = 0; t < T; t++) {
    g_runoff = t < 3; g_plain = t >= 3;                  // afterwards dry, with a fixed outcome
    double P = t < 3 ? sym("P", t, 0.1, 100) : 0.0;
    if (vf_native() && t < 3) P = P * 3;                // make runoff likely with the real soil processes
    setc(m, "precipitation_rate", P); setc(m, "potential_evapotranspiration_rate", 0.0);
    m.Update();
    ro[t] = 100 * getc(m, "surface_runoff");
    double g = 100 * getc(m, "giuh_runoff"), want = 0, queue = 0;
    for (int i = 0; i <= t && i < N; i++) want += o[i / f] / f * ro[t - i];
    vf_close(g, want, 1e-7, "the routed runoff is the convolution of the runoff with the ordinates");
    vf_close(100 * getc(m, "total_discharge"), g, 1e-9, "the discharge is the routed runoff");
    in += ro[t]; out += g;
    if (ro[t] > 0.1 && t == 1) vf_reach("runoff");
  }
  vf_close(out + 0.0, s * in - 0.0, 1e-6, "all runoff has been routed in the end");
  m.Finalize();
  vf_reach("end");
}
