#include "lgar.h"
// a model update against the composition of its processes written down here: every process gets the configured parameters, the substep and the current profile.
// case = 100*group + configuration.  Symbolic runs: the processes have any outcome (the same in both), and their arguments are compared; native runs: the real processes, and results are compared.
// group 0: surface water, 1: moving the fronts, 2: evapotranspiration, 3: speeds, 4: new fronts
static int G; static double LOG[2][600]; static int NL[2], WHO = 0, CNT = 0;
static void lg(int g, double v) { if (g == G && NL[WHO] < 600) LOG[WHO][NL[WHO]++] = v; }
static void lglist(int g, wetting_front *h) { for (; h; h = h->next) { lg(g, h->depth_cm); lg(g, h->theta); lg(g, h->psi_cm); lg(g, h->dzdt_cm_per_h); lg(g, h->layer_num); lg(g, h->front_num); } lg(g, -1); }
static void lgsoil(int g, int nl, int *soil, double *cum, double *ff, soil_properties_ *sp) { for (int l = 1; l <= nl; l++) { lg(g, soil[l]); lg(g, cum[l]); if (ff) lg(g, ff[l]); lg(g, sp[soil[l]].Ksat_cm_per_h); lg(g, sp[soil[l]].theta_e); } }
static int g_nl = 1;
static double pick(const char *n, double lo, double hi) { std::string s(n); return sym(s.c_str(), CNT++, lo, hi); }
void stub_lgar_move_wetting_fronts(double timestep_h, double *volin, int fd, double old_mass, int nl, double *aet, double *cum, int *soil, double *ff,
                              wetting_front **head, wetting_front *prev, soil_properties_ *sp) {
  lg(1, timestep_h); lg(1, *volin); lg(1, fd); lg(1, old_mass); lg(1, nl); lg(1, *aet); lgsoil(1, nl, soil, cum, ff, sp); lglist(1, *head); lglist(1, prev);
  double in = *volin, a = *aet * 0.5, q = pick("flux", 0, 50);
  wetting_front *f = *head; double top = 0; while (f->next) { top = f->depth_cm; f = f->next; }
  double t = f->theta + (in - a - q) / (f->depth_cm - top);
  vf_assume(t > sp[soil[nl]].theta_r); vf_assume(t <= sp[soil[nl]].theta_e);
  f->theta = t; *aet = a; *volin = q;
}
double stub_lgar_insert_water(bool cf, int nint, double dt, double aet, double *pond, double *volin, double precip, int fd, int nl, double pmax, int *soil,
                         double *cum, double *ff, wetting_front *head, soil_properties_ *sp) {
  lg(0, cf); lg(0, nint); lg(0, dt); lg(0, *pond); lg(0, precip); lg(0, fd); lg(0, nl); lg(0, pmax); lgsoil(0, nl, soil, cum, ff, sp); lglist(0, head);
  double v = pick("inf", 0, 50); vf_assume(v <= *pond);
  double rest = *pond - v, run = 0.0; if (rest > pmax) { run = rest - pmax; rest = pmax; }
  *volin = v; *pond = rest; return run;
}
void stub_lgar_create_surficial_front(int nl, double *pond, double *volin, double dry, double theta1, int *soil, double *cum, double *ff, wetting_front **head, soil_properties_ *sp) {
  lg(4, nl); lg(4, *pond); lg(4, dry); lg(4, theta1); lgsoil(4, nl, soil, cum, ff, sp); lglist(4, *head);
  double v = *pond * 0.5;
  listInsertFirst(3.0, theta1 + v / 3.0, 1, 1, false, head); (*head)->psi_cm = 50; (*head)->K_cm_per_h = 0.1; (*head)->dzdt_cm_per_h = 0;
  *volin = v; *pond = *pond - v;
}
double stub_lgar_calc_dry_depth(bool cf, int nint, double dt, double *deltheta, int *soil, double *cum, double *ff, wetting_front *head, soil_properties_ *sp) {
  lg(4, cf); lg(4, nint); lg(4, dt); lgsoil(4, g_nl, soil, cum, ff, sp); lglist(4, head);
  *deltheta = 0.2; return pick("dry", 1, 5);
}
void stub_lgar_dzdt_calc(bool cf, int nint, double hp, int *soil, double *cum, double *ff, wetting_front *head, soil_properties_ *sp) {
  lg(3, cf); lg(3, nint); lg(3, hp); lgsoil(3, g_nl, soil, cum, ff, sp); lglist(3, head);
  for (; head; head = head->next) if (!head->to_bottom) head->dzdt_cm_per_h = 1.5;
}
double stub_calc_aet(double pet, double dt, double wp, double fc, int *soil, double th, double ex, wetting_front *head, soil_properties_ *sp) {
  lg(2, pet); lg(2, dt); lg(2, wp); lg(2, fc); lg(2, soil[1]); lg(2, sp[soil[1]].theta_e); lg(2, sp[soil[1]].vg_alpha_per_cm); lglist(2, head);
  return pet * dt * 0.5;
}

struct Ref { wetting_front *head; double pond, rain, aet, in, run, perc, dt; int created; };     // rain: of the previous substep
static void ref_update(Ref &r, const Conf &c, model_state *s, double P, double E, double end) {
  lgar_bmi_parameters &p = s->lgar_bmi_params; soil_properties_ *sp = s->soil_properties; int *soil = p.layer_soil_type; double *cum = p.cum_layer_thickness_cm, *ff = p.frozen_factor;
  double res = c.res / 3600, dt = c.dt / 3600; int nint = 120;
  if (c.adaptive) { dt = P > 10 || r.pond > 0 ? c.dt / 3600 : P > 0 ? 2 * c.dt / 3600 : res; if (dt > res) dt = res; }
  r.aet = r.in = r.run = r.perc = 0; r.created = 0;
  int n = (int) (res / dt + 0.5);
  for (int k = 0; k < n && end > 1e-6; k++, end -= dt * 3600) {
    wetting_front *prev = listCopy(r.head);
    double mass = integral(cum, r.head), water = P * 0.1 * dt + r.pond, aet = 0, in = 0, run = 0, q = 0, hp;
    if (E > 0) aet = calc_aet(E * 0.1, dt, c.wp, c.fc, soil, 0.85, 1.0, r.head, sp);
    int fd = 1; for (wetting_front *f = r.head; f->next && f->to_bottom; f = f->next) fd++;
    bool fresh = P > 0 && r.rain == 0 && r.pond <= 1e-12 && r.head->theta + 1e-12 < sp[soil[1]].theta_e;
    if (fresh) {                                     // the profile moves without new water, then the rain forms a new front
      lgar_move_wetting_fronts(dt, &q, fd, mass, c.nlay, &aet, cum, soil, ff, &r.head, prev, sp);
      double d, dry = lgar_calc_dry_depth(c.closed, nint, dt, &d, soil, cum, ff, r.head, sp);
      lgar_create_surficial_front(c.nlay, &water, &in, dry, r.head->theta, soil, cum, ff, &r.head, sp);
      if (water >= c.pond) { run = water - c.pond; water = c.pond; hp = water; } else hp = 0;
      r.created++;
    } else {
      if (water > 0) run = lgar_insert_water(c.closed, nint, dt, aet, &water, &in, P * 0.1, fd, c.nlay, c.pond, soil, cum, ff, r.head, sp);
      hp = water; q = in;
      lgar_move_wetting_fronts(dt, &q, fd, mass, c.nlay, &aet, cum, soil, ff, &r.head, prev, sp);
    }
    lgar_dzdt_calc(c.closed, nint, hp, soil, cum, ff, r.head, sp);
    list_free(prev);
    r.pond = water; r.rain = P * 0.1 * dt; r.aet += aet; r.in += in; r.run += run; r.perc += q; r.dt = dt;
  }
}
struct Cfg { double dt, res, end; int adaptive, nlay; double pond; int soils, sft, steps; bool closed; };
static const Cfg CF[] = {
  {3600, 3600, 1e7, 0, 1, 2.0, 0, 0, 3, true}, {1800, 3600, 1e7, 0, 2, 0.0, 1, 0, 2, true}, {1800, 1800, 1e7, 0, 3, 0.5, 2, 1, 2, true}, {900, 900, 1e7, 0, 2, 1.0, 2, 0, 2, false},
  {1800, 3600, 1e7, 1, 2, 1.0, 0, 0, 2, true}, {300, 900, 1e7, 0, 3, 0.25, 1, 1, 1, false}, {1800, 3600, 5400, 0, 2, 1.0, 0, 0, 2, true},
  {3600, 3600, 1e7, 0, 1, 2.0, 0, 0, 1, true}, {300, 300, 1e7, 0, 2, 0.0, 1, 0, 1, true}, {900, 900, 1e7, 0, 1, 1.0, 2, 0, 1, true},     // 7..: from any ponding, earlier rain and wetness
};
extern "C" void harness(void) {
  static const int S[3][3] = {{1, 2, 3}, {4, 3, 1}, {2, 4, 3}};
  static const double PP[] = {0, 35, 80, 0, 12, 0, 0, 4, 150, 60, 0, 0, 8, 0}, EE[] = {0.2, 0, 0.1, 0.5, 0, 0.3, 0.6, 0.1, 0, 0.2, 0, 0.8, 0.3, 0.4};
  G = vf_case() / 100; const Cfg &k = CF[vf_case() % 100];
  Conf c; c.nlay = k.nlay; c.dt = k.dt; c.res = k.res; c.end = k.end; c.adaptive = k.adaptive; c.pond = k.pond; c.closed = k.closed; c.ngiuh = 1; c.giuh[0] = 1.0; c.wp = 14000; c.fc = 333; c.psi = 1500;
  for (int i = 0; i < 3; i++) c.soil[i] = S[k.soils][i];
  if (k.sft) { c.sft = 1; c.nz = 4; c.z[0] = 15; c.z[1] = 35; c.z[2] = 80; c.z[3] = 190; }
  bool any = vf_case() % 100 >= 7; if (any) c.psi = vf_double("psi0", 0, 200);
  write_conf(c); g_nl = c.nlay;
  BmiLGAR m; m.Initialize("cfg.txt");
  model_state *s = m.get_model();
  Ref r; r.head = listCopy(s->head); r.pond = 0; r.rain = 0;
  if (any) {
    if (k.pond > 0) r.pond = vf_choice("pond?", 0, 1) ? vf_double("pond0", 1e-6, k.pond) : 0; r.rain = vf_choice("rain?", 0, 1) ? vf_double("rain0", 1e-6, 5) : 0;
    double te = s->soil_properties[c.soil[0]].theta_e, th = r.head->theta; vf_assume(th >= te || th <= te - 1e-9);     // saturated or not: not within rounding
    s->lgar_mass_balance.volon_timestep_cm = r.pond; s->lgar_bmi_params.precip_previous_timestep_cm = r.rain;
  }
  double now = 0; int nst = vf_native() ? k.steps + 14 : k.steps;
  for (int t = 0; t < nst; t++) {
    double P = t < k.steps ? sym("P", t, 0, 100) : PP[t - k.steps], E = t < k.steps ? sym("E", t, t ? 0.01 : 0, 2) : EE[t - k.steps];
    if (k.sft) { double T[4] = {272.9 + 0.3 * (t % 2), 272.95, 273.05, 280}; m.SetValue("soil_temperature_profile", T); }
    setc(m, "precipitation_rate", P); setc(m, "potential_evapotranspiration_rate", E);
    if (k.end - now < 1) break;
    int c0 = CNT; WHO = 0; NL[0] = NL[1] = 0;
    m.Update();
    WHO = 1; CNT = c0;
    int n0 = nfronts(r.head);
    ref_update(r, c, s, P, E, k.end - now);
    now = m.GetCurrentTime();
    if (!vf_native()) {
      vf_assert(NL[0] == NL[1], "args: every process runs once per substep");
      for (int i = 0; i < NL[0] && i < NL[1]; i++) vf_close(LOG[0][i], LOG[1][i], 1e-9, "args: every process gets the configured parameters and the current state");
    }
    double big = vf_native() ? 1e-6 : 1e-9; wetting_front *f = s->head, *q = r.head;
    if (G == 0) {
      vf_close(100 * getc(m, "infiltration"), r.in, big, "infiltration of a step is that of its substeps"); vf_close(100 * getc(m, "surface_runoff"), r.run, big, "runoff of a step is that of its substeps");
      vf_close(s->lgar_mass_balance.volon_timestep_cm, r.pond, big, "ponding after a step is that of its last substep");
    } else if (G == 1) {
      vf_close(100 * getc(m, "percolation"), r.perc, big, "percolation of a step is that of its substeps"); vf_assert(nfronts(f) == nfronts(q), "the fronts move as the substeps move them");
      for (; f && q; f = f->next, q = q->next) { vf_close(f->depth_cm, q->depth_cm, 100 * big, "the fronts move as the substeps move them"); vf_close(f->theta, q->theta, big, "the fronts move as the substeps move them"); }
    } else if (G == 2) vf_close(100 * getc(m, "actual_evapotranspiration"), r.aet, big, "evapotranspiration follows the demand of the current profile and the configured limits");
    else if (G == 3) { for (; f && q; f = f->next, q = q->next) vf_close(f->dzdt_cm_per_h, q->dzdt_cm_per_h, 1e-4 + 1e-5 * fabs(q->dzdt_cm_per_h), "speeds follow the current profile and ponding"); }
    else if (G == 4 && r.created) {
      vf_assert(nfronts(f) == nfronts(q), "a new front forms as the rain and the profile give it"); (void) n0;
      for (; f && q; f = f->next, q = q->next) { vf_close(f->depth_cm, q->depth_cm, 100 * big, "a new front forms as the rain and the profile give it"); vf_close(f->theta, q->theta, big, "a new front forms as the rain and the profile give it"); }
    }
    if (G == 4 && any && t == 0) vf_assert(nfronts(s->head) == nfronts(r.head), "a new front forms exactly when rain starts on an unponded soil whose top is not saturated");
    if (r.created) vf_reach("created"); if (r.run > 0) vf_reach("runoff"); if (r.pond > 0) vf_reach("ponded");
  }
  list_free(r.head);
  vf_reach("end");
}
