#include "pick.h"
// model instances.  case 3*configuration + order: a model gives the same results alone, again, and interleaved with another one; 10..12: whatever the verbosity;
// 20..: everything allocated is released
static const char *OUT[] = {"precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance"};
struct Res { double v[64]; int n; };
static Res R[3], B0, B1;
static void record(BmiLGAR &m, Res &r) {
  for (int i = 0; i < 11; i++) r.v[r.n++] = getc(m, OUT[i]);
  double th[16], d[16]; int n = 0; m.GetValue("soil_num_wetting_fronts", &n); r.v[r.n++] = n; m.GetValue("soil_moisture_wetting_fronts", th); m.GetValue("soil_depth_wetting_fronts", d);
  for (int i = 0; i < n && i < 5; i++) { r.v[r.n++] = th[i]; r.v[r.n++] = d[i]; }
  r.v[r.n++] = m.GetCurrentTime();
}
static const int NSTEP = 2;
static void step(BmiLGAR &m, const char *who, int slot, int t) {
  g_who = who; g_slot = slot; std::string s(who);
  setc(m, "precipitation_rate", s == "b" ? (t ? 0.0 : 25.0) : sym((s + "P").c_str(), t, t ? 0 : 1, 60)); setc(m, "potential_evapotranspiration_rate", s == "b" ? 0.25 : t ? 0.3 : vf_double("E", 0.01, 1));
  m.Update();
}
static Conf confA(int cs) { Conf c; c.nlay = 2; c.dt = 3600; c.ngiuh = 2; c.giuh[0] = 0.75; c.giuh[1] = 0.25; c.file = "a.txt"; c.pond = 1.0; if (cs == 1) { c.adaptive = 1; c.dt = 1800; } if (cs == 2) { c.soil[0] = 4; c.soil[1] = 3; c.sft = 1; c.nz = 3; c.z[0] = 10; c.z[1] = 30; c.z[2] = 80; } return c; }
static Conf confB() { Conf c; c.nlay = 3; c.dt = 1800; c.res = 1800; c.ngiuh = 1; c.giuh[0] = 1.0; c.soil[0] = 3; c.soil[1] = 1; c.soil[2] = 2; c.thick[0] = 20; c.thick[1] = 30; c.thick[2] = 25; c.psi = 800; c.file = "b.txt"; c.pond = 0.0; c.closed = false; c.calib = 1; return c; }
static void temps(BmiLGAR &m, const Conf &c) { if (c.sft) { double T[3] = {272.9, 280, 273}; m.SetValue("soil_temperature_profile", T); } }
static void fixedstep(BmiLGAR &m, int t) { g_who = "z"; g_slot = 5; setc(m, "precipitation_rate", t == 0 ? 30.0 : 0.0); setc(m, "potential_evapotranspiration_rate", 0.2); m.Update(); }
static void stepb(BmiLGAR &y, int t, Res &r) { step(y, "b", 1, t); record(y, r); }
static void alone(int order, Res &r) {                // the other model's steps in a process of its own
  BmiLGAR y; y.Initialize("b.txt");
  if (order == 2) stepb(y, 0, r);
  stepb(y, 0, r);
  if (order == 0) stepb(y, 1, r);
  y.Finalize();
}
extern "C" void harness(void) {
  int cs = vf_case();
  if (cs < 10) {
    Conf a = confA(cs / 3), b = confB(); write_conf(a); write_conf(b);
    if (vf_iso_begin(&B0, sizeof B0)) { alone(cs % 3, B0); vf_iso_end(); }
    for (int r = 0; r < 3; r++) {                     // alone, with another one, again alone
      for (int i = 0; i < 4; i++) g_cnt[i] = 0;
      if (r == 1) {
        int order = cs % 3;
        BmiLGAR x, y;
        if (order == 0) { x.Initialize("a.txt"); y.Initialize("b.txt"); } else { y.Initialize("b.txt"); if (order == 2) stepb(y, 0, B1); x.Initialize("a.txt"); }
        temps(x, a);
        for (int t = 0; t < NSTEP; t++) { step(x, "a", 0, t); if (t == 0) stepb(y, t, B1); if (order == 1 && t == 0) y.Finalize(); record(x, R[r]); }
        if (order == 0) { x.Finalize(); stepb(y, 1, B1); y.Finalize(); } else if (order == 2) { y.Finalize(); x.Finalize(); } else x.Finalize();
      } else {
        BmiLGAR x; x.Initialize("a.txt"); temps(x, a);
        for (int t = 0; t < NSTEP; t++) { step(x, "a", 0, t); record(x, R[r]); }
        x.Finalize();
      }
    }
    vf_assert(R[1].n == R[0].n && R[2].n == R[0].n, "another model changes nothing"); vf_assert(B0.n == B1.n, "another model changes nothing");
    for (int i = 0; i < B0.n; i++) vf_close(B1.v[i], B0.v[i], 1e-12, "another model changes nothing");
    for (int i = 0; i < R[0].n; i++) { vf_close(R[1].v[i], R[0].v[i], 1e-12, "another model changes nothing"); vf_close(R[2].v[i], R[0].v[i], 1e-12, "a second run gives the same results"); }
  } else if (cs < 20) {
    static const char *VB[] = {"none", "low", "medium", "high"};
    Conf a = confA(cs - 10);
    int v = vf_choice("verbosity", 1, 3);
    for (int r = 0; r < 2; r++) {
      std::string e("verbosity="); e += VB[r ? v : 0]; e += "\n"; a.extra = e.c_str(); write_conf(a);
      g_cnt[0] = 0; BmiLGAR x; x.Initialize("a.txt"); temps(x, a);
      for (int t = 0; t < NSTEP; t++) { step(x, "a", 0, t); record(x, R[r]); }
      x.Finalize();
    }
    vf_assert(R[1].n == R[0].n, "verbosity changes nothing");
    for (int i = 0; i < R[0].n; i++) vf_close(R[1].v[i], R[0].v[i], 1e-12, "verbosity changes nothing");
  } else {
    int k = cs - 20;
    Conf a = k % 4 == 3 ? confB() : confA(k % 4); if (k >= 4 && k < 8) { a.soil[0] = 9; a.maxsoil = 4; a.nsoils = 4; }      // 4..7: soil types outside the valid range
    if (k >= 4 && k < 8 && a.sft) a.sft = 0, a.nz = 0;
    const char *fn = a.file; write_conf(a);
    unsigned long h0 = 0;
    for (int r = 0; r < 3; r++) {                     // the first round also sets up what stays in the process
      if (r == 1) h0 = vf_heap();
      for (int i = 0; i < 4; i++) g_cnt[i] = 0;
      {
        BmiLGAR x; x.Initialize(fn); temps(x, a);
        for (int t = 0; t < (r == 2 ? NSTEP : 1); t++) step(x, "a", 0, t);
        x.Finalize();
      }
      if (r >= 1) vf_assert(vf_heap() == h0, "finalizing a model releases all memory it allocated");
    }
  }
  vf_reach("end");
}
