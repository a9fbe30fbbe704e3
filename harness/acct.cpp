#include "stubs.h"
// accounting of a whole model step, for every outcome of the soil and surface processes that their contracts allow
// case = 100*group + configuration
struct Cfg { double dt, res, end; int adaptive, nlay; double pond; int steps; };
static const Cfg CF[] = {
  {3600, 3600, 1e7, 0, 1, 2.0, 2}, {1800, 3600, 1e7, 0, 2, 0.0, 2}, {1200, 3600, 1e7, 0, 1, 1.0, 1}, {300, 900, 1e7, 0, 2, 0.5, 1},
  {1800, 3600, 1e7, 1, 1, 2.0, 2}, {1200, 3600, 1e7, 1, 1, 0.0, 2}, {3600, 7200, 1e7, 0, 1, 2.0, 2}, {1800, 1800, 1e7, 1, 2, 1.0, 2},
  {1800, 3600, 5400, 0, 1, 2.0, 2}, {3600, 1800, 1e7, 1, 1, 2.0, 2}, {3600, 3600, 1e7, 0, 2, 2.0, 0}, {3600, 3600, 1e7, 0, 2, 2.0, 3},
};
static double tolm(double x) { return vf_native() ? 1e-6 + x : 1e-9; }
extern "C" void harness(void) {
  int grp = vf_case() / 100; const Cfg &k = CF[vf_case() % 100];
  Conf c; c.nlay = k.nlay; c.dt = k.dt; c.res = k.res; c.end = k.end; c.adaptive = k.adaptive; c.pond = k.pond; c.ngiuh = 2; c.giuh[0] = 0.75; c.giuh[1] = 0.25;
  if (k.res > 3600) c.ngiuh = 1, c.giuh[0] = 1.0;
  write_conf(c);
  BmiLGAR m; m.Initialize("cfg.txt");
  model_state *s = m.get_model(); lgar_mass_balance_variables &mb = s->lgar_mass_balance;
  double *cum = s->lgar_bmi_params.cum_layer_thickness_cm;
  double h = k.res / 3600.0, pond = 0, t0 = 0, S0 = integral(cum, s->head), T[12] = {0}, start = S0;
  int cyc = (int) (k.res / (k.adaptive && k.dt > k.res ? k.res : k.dt) + 0.5);
  double tols = 1e-4 * cyc;
  if (grp == 1 || grp == 3) vf_close(mb.volstart_cm, S0, 1e-9, "the run starts with the initial storage");
  if (grp == 4) g_eps = 9e-5;
  if (grp == 7) { g_fronts = true; grp = 1; }
  int nst = vf_native() && k.steps ? k.steps + 6 : k.steps;
  double Plast = 0;
  if (grp == 6) {                                      // C15: updating until a time
    double P = sym("P", 0, 0, 40), E = sym("E", 0, 0.001, 1), now = 0;
    setc(m, "precipitation_rate", P); setc(m, "potential_evapotranspiration_rate", E);
    for (int t = 0; t < 2; t++) {
      int half = vf_choice(nm("half", t).c_str(), 1, 3);      // time in half forcing intervals from here
      double T = now + 0.5 * half * k.res, want = now + ((half + 1) / 2) * k.res;
      m.UpdateUntil(T);
      vf_le(T, m.GetCurrentTime(), 1e-6, "updating until a time reaches that time"); vf_close(m.GetCurrentTime(), want, 1e-6, "updating until a time stops with the update that reaches it");
      vf_close(mb.volprecip_cm, P * 0.1 * want / 3600, 1e-9, "updating until a time receives the precipitation of that time");
      now = want;
    }
    vf_reach("rain"); vf_reach("end"); return;
  }
  for (int t = 0; t < nst; t++) {
    double P, E;
    if (t < k.steps && g_fronts) { static const double PP[] = {20, 0, 15, 0}; P = PP[t]; E = t % 2 ? 0 : 0.1; }
    else if (t < k.steps) { P = sym("P", t, 0, 100); E = sym("E", t, vf_case() % 100 == 0 ? 0.0 : 0.001, 2); }
    else { static const double PP[] = {80, 40, 0, 3, 0, 120}; P = PP[t - k.steps]; E = t % 2 ? 0.3 : 0; }
    setc(m, "precipitation_rate", P); setc(m, "potential_evapotranspiration_rate", E);
    bool stop = k.end < 1e6;
    double hh = h;
    if (stop && t0 + k.res > k.end) { hh = (k.end - t0) / 3600.0; if (hh < 0) hh = 0; }
    double nf0 = nfronts(s->head); int cr = g_created; double cumP = mb.volprecip_cm;
    m.Update();
    double S1 = integral(cum, s->head), pond1 = mb.volon_timestep_cm;
    double pr = 100 * getc(m, "precipitation"), pet = 100 * getc(m, "potential_evapotranspiration"), aet = 100 * getc(m, "actual_evapotranspiration"),
      ro = 100 * getc(m, "surface_runoff"), gi = 100 * getc(m, "giuh_runoff"), st = 100 * getc(m, "soil_storage"), Q = 100 * getc(m, "total_discharge"),
      in = 100 * getc(m, "infiltration"), pe = 100 * getc(m, "percolation"), gw = 100 * getc(m, "groundwater_to_stream_recharge"), er = 100 * getc(m, "mass_balance");
    if (grp == 0 || grp == 4) {                        // C02
      double res = S0 + pond + P * 0.1 * hh - (S1 + pond1 + ro + aet + pe);
      vf_close(res, 0.0, grp == 4 ? 9.1e-5 * cyc : tolm(tols), "rain and stored water equal storage, ponding, runoff, evapotranspiration and percolation");
      vf_close(P * 0.1 * hh + pond, in + ro + pond1, 1e-9, "surface water is infiltrated, ponded or runs off");
      vf_close(S1 - S0, in - aet - pe, grp == 4 ? 9.1e-5 * cyc : tolm(tols), "soil storage changes by infiltration, evapotranspiration and percolation");
      if (cyc == 1) vf_close(er, res, 1e-9, "the reported mass balance error is the actual one");
      vf_le(0.0, ro, 0, "runoff is never negative"); vf_le(0.0, in, 0, "infiltration is never negative"); vf_le(0.0, pond1, 0, "ponding is never negative");
      vf_le(pond1, k.pond, 1e-9, "ponding never exceeds its maximum");
      vf_le(aet, pet, vf_native() ? 1e-4 : 1e-9, "evapotranspiration never exceeds the potential");
    }
    T[0] += pr; T[1] += pet; T[2] += aet; T[3] += ro; T[4] += gi; T[5] += in; T[6] += pe; T[7] += Q; T[8] += gw;
    if (grp == 1 || grp == 3) {                        // C03
      vf_close(st, S1, 1e-9, "reported storage is the water in the soil");
      vf_close(Q, gi, 1e-12, "discharge is the routed runoff"); vf_close(gw, 0.0, 0, "no groundwater contribution");
      vf_close(T[0], mb.volprecip_cm, 1e-9, "total precipitation is the sum over steps"); vf_close(T[1], mb.volPET_cm, 1e-9, "total potential evapotranspiration is the sum over steps");
      vf_close(T[2], mb.volAET_cm, 1e-9, "total evapotranspiration is the sum over steps"); vf_close(T[3], mb.volrunoff_cm, 1e-9, "total runoff is the sum over steps");
      vf_close(T[4], mb.volrunoff_giuh_cm, 1e-9, "total routed runoff is the sum over steps"); vf_close(T[5], mb.volin_cm, 1e-9, "total infiltration is the sum over steps");
      vf_close(T[6], mb.volrech_cm, 1e-9, "total percolation is the sum over steps"); vf_close(T[7], mb.volQ_cm, 1e-9, "total discharge is the sum over steps");
      vf_close(mb.volon_cm, pond1, 0, "ponded water is the current ponding"); vf_close(mb.volend_cm, S1, 1e-9, "final storage is the current storage");
      vf_close(T[8], mb.volQ_gw_cm, 1e-9, "total groundwater discharge is the sum over steps");
      vf_close(mb.volchange_calib_cm, 0.0, 0, "no calibration change");
      int n = 0; m.GetValue("soil_num_wetting_fronts", &n);
      vf_assert(n == nfronts(s->head), "the reported number of fronts is the number of fronts");
      double th[16], dp[16]; if (n < 16) { m.GetValue("soil_moisture_wetting_fronts", th); m.GetValue("soil_depth_wetting_fronts", dp); }
      int i = 0; for (wetting_front *f = s->head; f && i < 16; f = f->next, i++) { vf_close(th[i], f->theta, 0, "reported water contents are those of the fronts"); vf_close(dp[i] * 100, f->depth_cm, 1e-9, "reported depths are those of the fronts"); }
    }
    if (grp == 2) {                                    // C15
      vf_close(m.GetCurrentTime(), t0 + hh * 3600, 1e-6, "a step advances the time by the forcing interval");
      vf_close(pr, P * 0.1 * hh, 1e-9, "a step receives the precipitation of the forcing interval");
      vf_close(pet, E * 0.1 * hh, 1e-9, "a step receives the potential evapotranspiration of the forcing interval");
      vf_close(mb.volprecip_cm - cumP, P * 0.1 * hh, 1e-9, "a step receives the precipitation of the forcing interval");
      double sub = s->lgar_bmi_params.timestep_h * 3600;
      if (k.adaptive) {
        bool fits = fabs(k.res / (2 * k.dt) - floor(k.res / (2 * k.dt) + 0.5)) < 1e-9;
        double want = P > 10 || pond > 0 ? k.dt : P > 0 ? (fits ? 2 * k.dt : k.dt) : k.res;
        if (want > k.res) want = k.res;
        vf_close(sub, want, 1e-6, "the step size follows rain and ponding");
      } else vf_close(sub, k.dt, 1e-6, "the configured step size is used");
    }
    if (grp == 5 && t < k.steps) {                     // C09: when is a new surficial front created (one subcycle per step)
      const soil_properties_ &sp = s->soil_properties[s->lgar_bmi_params.layer_soil_type[1]]; (void) sp;
      bool want = P > 0 && Plast == 0 && pond <= 1e-12;
      if (!vf_native()) vf_assert((g_created - cr) == (want ? 1 : 0), "a new front forms exactly when rain starts on an unsaturated, unponded soil");
      else if (want && nf0 == k.nlay) vf_assert(nfronts(s->head) > nf0, "a new front forms exactly when rain starts on an unsaturated, unponded soil");
      else if (!want) vf_assert(nfronts(s->head) <= nf0, "a new front forms exactly when rain starts on an unsaturated, unponded soil");
      if (want) vf_reach("created");
    }
    if (grp == 5 && t >= k.steps) break;
    Plast = P; pond = pond1; S0 = S1; t0 += hh * 3600;
    if (P > 0) vf_reach("rain");
    if (stop && t0 >= k.end - 1e-6) break;
  }
  if (grp == 3) {                                      // C03: the printed summary
    double volon = mb.volon_cm, vend = mb.volend_cm;
    double queue = 0; for (int i = 0; i <= m.num_giuh_ordinates; i++) queue += m.giuh_runoff_queue[i];
    vf_out_reset();
    m.Finalize();
    vf_close(vf_printed("Initial water in soil"), start, 1e-8, "summary: initial water"); vf_close(vf_printed("Total precipitation"), T[0], 1e-8, "summary: precipitation");
    vf_close(vf_printed("Total infiltration"), T[5], 1e-8, "summary: infiltration"); vf_close(vf_printed("Final water in soil"), S0, 1e-8, "summary: final water");
    vf_close(vf_printed("Surface ponded water"), pond, 1e-8, "summary: ponded water"); vf_close(vf_printed("Surface runoff"), T[3], 1e-8, "summary: runoff");
    vf_close(vf_printed("GIUH runoff"), T[4], 1e-8, "summary: routed runoff"); vf_close(vf_printed("GIUH water (in array)"), T[3] - T[4], 1e-8, "summary: runoff still being routed");
    vf_close(vf_printed("Total percolation"), T[6], 1e-8, "summary: percolation"); vf_close(vf_printed("Total AET"), T[2], 1e-8, "summary: evapotranspiration");
    vf_close(vf_printed("Total PET"), T[1], 1e-8, "summary: potential evapotranspiration"); vf_close(vf_printed("Total discharge (Q)"), T[7], 1e-8, "summary: discharge");
    vf_close(vf_printed("Vol change (calibration)"), 0.0, 1e-8, "summary: calibration change");
    vf_close(vf_printed("Global balance"), start + T[0] - T[3] - T[2] - pond - T[6] - S0, 1e-8, "summary: balance");
    (void) volon; (void) vend; (void) queue;
  }
  vf_reach("end");
}
