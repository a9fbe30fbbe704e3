#include "stubs.h"
// calibratable parameters.  case = 10*mode + layers-1 ; mode 0: calibration on, profile of bottom fronts; 1: with a free front (water contents of a soil with symbolic suction); 2: calibration off
static const double NS[] = {1.25, 1.5, 2.0, 4.0};
extern "C" void harness(void) {
  int mode = vf_case() / 10, nl = vf_case() % 10 + 1;
  Conf c; c.nlay = nl; c.calib = mode != 2; c.dt = 3600; c.ngiuh = 1; c.giuh[0] = 1.0; c.psi = mode == 1 ? 2000 : vf_double("psi0", 10, 10000);
  c.soil[0] = 1; c.soil[1] = 4; c.soil[2] = 2;
  write_conf(c);
  BmiLGAR m; m.Initialize("cfg.txt");
  model_state *s = m.get_model(); double *cum = s->lgar_bmi_params.cum_layer_thickness_cm;
  double start = integral(cum, s->head);
  if (mode == 1) {                                    // a front inside the first layer, wetter than the one below
    double psi = vf_double("psif", 20, 1000);
    const Soil &q = SOILS[c.soil[0] - 1];
    listInsertFirst(15.0, calc_theta_from_h(psi, q.al, 1 - 1 / q.n, q.n, q.te, q.tr), 1, 1, false, &s->head);
    s->head->psi_cm = psi; s->head->dzdt_cm_per_h = 0.0; s->head->K_cm_per_h = 0.001;
    s->lgar_bmi_params.num_wetting_fronts = nl + 1; m.realloc_soil();
    start = integral(cum, s->head); s->lgar_mass_balance.volstart_cm = start;
  }
  double te[3], tr[3], n[3], al[3], K[3];
  int pick = vf_choice("n", 0, 3);
  for (int i = 0; i < nl; i++) { te[i] = sym("te", i, 0.35, 0.6); tr[i] = sym("tr", i, 0.0, 0.15); n[i] = NS[(pick + i) % 4]; al[i] = sym("al", i, 0.005, 0.1); K[i] = sym("K", i, 0.01, 20); }
  double fc = vf_double("fc", 50, 1000), pm = vf_double("pm", 0, 5);
  m.SetValue("smcmax", te); m.SetValue("smcmin", tr); m.SetValue("van_genuchten_n", n); m.SetValue("van_genuchten_alpha", al); m.SetValue("hydraulic_conductivity", K);
  setc(m, "field_capacity", fc); setc(m, "ponded_depth_max", pm);
  double psi[8]; int nf = 0; for (wetting_front *f = s->head; f; f = f->next) psi[nf++] = f->psi_cm;
  setc(m, "precipitation_rate", 0.0); setc(m, "potential_evapotranspiration_rate", 0.0);
  g_idle = true;                                      // no water arrives and none is asked for: the soil processes are left out of the symbolic run
  m.Update();
  bool exact = !(vf_native() && mode == 1);           // natively a free front moves on
  for (int i = 0; i < nl; i++) {
    const soil_properties_ &p = s->soil_properties[c.soil[i]]; const Soil &o = SOILS[c.soil[i] - 1];
    bool on = mode != 2;
    double N = on ? n[i] : o.n, A = on ? al[i] : o.al;
    vf_close(p.theta_e, on ? te[i] : o.te, 0, "saturated water content of each layer"); vf_close(p.theta_r, on ? tr[i] : o.tr, 0, "residual water content of each layer");
    vf_close(p.vg_n, N, 0, "n of each layer"); vf_close(p.vg_alpha_per_cm, A, 0, "alpha of each layer"); vf_close(p.Ksat_cm_per_h, on ? K[i] : o.K, 0, "conductivity of each layer");
    double M = 1 - 1 / N, P = 1 + 2 / M, L = 2 / (P - 3);
    vf_close(p.vg_m, M, 1e-12, "m follows n"); vf_close(p.bc_lambda, L, 1e-9, "Brooks-Corey pore size index follows n");
    double pb = (P + 3) * (147.8 + 8.1 * P + 0.092 * P * P) / (2 * P * (P - 1) * (55.6 + 7.4 * P + P * P));
    vf_close(p.bc_psib_cm * A, pb, 1e-9, "Brooks-Corey bubbling pressure follows n and alpha"); vf_close(p.h_min_cm * A, pb * (2 + 3 / L) / (1 + 3 / L), 1e-9, "minimum capillary drive follows n and alpha");
  }
  vf_close(s->lgar_bmi_params.field_capacity_psi_cm, mode == 2 ? c.fc : fc, 0, "field capacity"); vf_close(s->lgar_bmi_params.ponded_depth_max_cm, mode == 2 ? c.pond : pm, 0, "maximum ponding");
  double end = integral(cum, s->head), change = s->lgar_mass_balance.volchange_calib_cm;
  if (exact) {
    int i = 0;
    for (wetting_front *f = s->head; f && i < nf; f = f->next, i++) {
      const soil_properties_ &p = s->soil_properties[s->lgar_bmi_params.layer_soil_type[f->layer_num]];
      vf_close(f->psi_cm, psi[i], vf_native() ? 1e-4 * psi[i] : 0, "fronts keep their suction");
      vf_close(f->theta, calc_theta_from_h(psi[i], p.vg_alpha_per_cm, p.vg_m, p.vg_n, p.theta_e, p.theta_r), vf_native() ? 1e-6 : 1e-9, "water contents follow the new parameters");
    }
    vf_assert(i == nf, "calibration keeps the fronts");
    vf_close(change, end - start, vf_native() ? 1e-4 : 1e-9, "the change in soil water is counted");
  }
  if (mode == 2) vf_close(change, 0.0, 0, "without calibration nothing changes");
  vf_close(getc(m, "soil_storage") * 100, end, 1e-9, "reported storage is the water in the soil");
  double per = s->lgar_mass_balance.volrech_cm, aet = s->lgar_mass_balance.volAET_cm;
  vf_close(start + change, end + per + aet, vf_native() ? 1e-4 : 1e-9, "the balance closes with the change");
  vf_out_reset();
  double ch = change;
  double te2[3], K2[3]; for (int i = 0; i < nl; i++) { te2[i] = 0.7; K2[i] = 0.5; }
  m.SetValue("smcmax", te2); m.SetValue("hydraulic_conductivity", K2); setc(m, "field_capacity", 2000.0);       // only the first update takes parameters over
  setc(m, "precipitation_rate", 0.0); m.Update();
  for (int i = 0; i < nl; i++) {
    const soil_properties_ &p = s->soil_properties[c.soil[i]]; const Soil &o = SOILS[c.soil[i] - 1]; bool on = mode != 2;
    vf_close(p.theta_e, on ? te[i] : o.te, 0, "later updates keep the parameters"); vf_close(p.Ksat_cm_per_h, on ? K[i] : o.K, 0, "later updates keep the parameters");
  }
  vf_close(s->lgar_bmi_params.field_capacity_psi_cm, mode == 2 ? c.fc : fc, 0, "later updates keep the parameters");
  vf_close(s->lgar_mass_balance.volchange_calib_cm, ch, 0, "the change is counted once");
  m.Finalize();
  vf_close(vf_printed("Vol change (calibration)"), ch, 1e-8, "summary: calibration change"); vf_close(vf_printed("Global balance"), 0.0, vf_native() ? 2e-4 : 1e-8, "summary: balance");
  vf_reach("end");
}
