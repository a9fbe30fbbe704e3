#include "lgar.h"
#include <stdexcept>
#include <exception>
// the configuration file.  case 0..9: values, units, order; 10: required options; 11: yes/no options; 12: defaults; 13: vectors
static const int NK = 16;
static const char *KEY[] = {"verbosity", "soil_params_file", "layer_thickness", "initial_psi", "timestep", "endtime", "forcing_resolution", "ponded_depth_max", "use_closed_form_G",
  "layer_soil_type", "max_valid_soil_types", "wilting_point_psi", "field_capacity_psi", "giuh_ordinates", "adaptive_timestep", "calib_params"};
struct V { double thick[4], psi, dt, end, res, pond, wp, fc, g[4]; const char *udt, *uend, *ures; int n; bool cf, ad, cal; int soil[4]; };
static void put(int k, const V &v) {
  vf_puts(KEY[k]); vf_puts("=");
  switch (k) {
    case 0: vf_puts("none"); break; case 1: vf_puts("soils.dat"); break;
    case 2: for (int i = 0; i < v.n; i++) { if (i) vf_puts(","); vf_putd(v.thick[i]); } vf_puts("[cm]"); break;
    case 3: vf_putd(v.psi); vf_puts("[cm]"); break;
    case 4: vf_putd(v.dt); vf_puts(v.udt); break; case 5: vf_putd(v.end); vf_puts(v.uend); break; case 6: vf_putd(v.res); vf_puts(v.ures); break;
    case 7: vf_putd(v.pond); vf_puts("[cm]"); break; case 8: vf_puts(v.cf ? "true" : "false"); break;
    case 9: for (int i = 0; i < v.n; i++) { if (i) vf_puts(","); vf_puti(v.soil[i]); } break;
    case 10: vf_puti(4); break;
    case 11: vf_putd(v.wp); vf_puts("[cm]"); break; case 12: vf_putd(v.fc); vf_puts("[cm]"); break;
    case 13: for (int i = 0; i < v.n; i++) { if (i) vf_puts(","); vf_putd(v.g[i]); } break;
    case 14: vf_puts(v.ad ? "true" : "false"); break; case 15: vf_puts(v.cal ? "true" : "false"); break;
  }
  vf_puts("\n");
}
static V plain(int n) {
  V v; v.n = n; v.thick[0] = 40; v.thick[1] = 60; v.thick[2] = 100; v.thick[3] = 50; v.psi = 2000; v.dt = 300; v.end = 36000; v.res = 3600; v.pond = 2; v.wp = 15495; v.fc = 340.9;
  v.g[0] = 0.5; v.g[1] = 0.3; v.g[2] = 0.2; v.g[3] = 0.1; v.udt = v.uend = v.ures = "[sec]"; v.cf = true; v.ad = false; v.cal = false; v.soil[0] = 1; v.soil[1] = 4; v.soil[2] = 2; v.soil[3] = 3; return v;
}
static const double UF[] = {1, 1, 1, 60, 60, 3600, 3600, 86400, 86400};
static const char *UN[] = {"[s]", "[sec]", "", "[min]", "[minute]", "[h]", "[hr]", "[d]", "[day]"};
extern "C" void harness(void) {
  int cs = vf_case();
  write_soils("soils.dat", 4);
  if (cs < 10) {
    int n = cs == 6 ? 4 : 1 + cs % 3; V v = plain(n);
    int order = cs < 3 || cs > 5 ? vf_choice("order", 0, 3) : 0;
    if (cs < 3 || cs == 6) {
      for (int i = 0; i < n; i++) { v.thick[i] = sym("thick", i, 1, 200); v.g[i] = sym("g", i, 0, 1); }
      v.psi = vf_double("psi", 10, 20000); v.wp = vf_double("wp", 10000, 20000); v.fc = vf_double("fc", 100, 1000); v.pond = vf_double("pond", -5, 20); v.end = vf_double("end", 1, 1e7);
      v.cf = vf_choice("closed", 0, 1); v.ad = vf_choice("adaptive", 0, 1);
      if (n > 1) { v.soil[0] = 2; v.soil[1] = 1; }
    } else if (cs < 6) {                               // time units
      int w = cs - 3, a = w == 0 ? vf_choice("unit1", 0, 8) : 1; v.uend = UN[a]; v.end = vf_double("end", 0.5, 1000);
      int b = w == 1 ? vf_choice("unit2", 0, 6) : 1; v.udt = UN[b]; static const double DT[] = {300, 900, 3600, 720}; double dt = DT[w == 1 ? vf_choice("dt", 0, 3) : 0]; v.dt = dt / UF[b];
      int c = w == 2 ? vf_choice("unit3", 0, 6) : 1; v.ures = UN[c]; static const double RS[] = {3600, 1800, 900, 7200}; double rs = RS[w == 2 ? vf_choice("res", 0, 3) : 0]; v.res = rs / UF[c];
      if (w == 0 && vf_choice("comment", 0, 1)) { static std::string t; t = UN[a]; if (a != 2) t += " # stop here [h]"; v.uend = t.c_str(); }
      vf_file_begin("cfg.txt"); for (int i = 0; i < NK; i++) put(i, v); vf_file_end();
      BmiLGAR m; m.Initialize("cfg.txt");
      vf_close(m.GetEndTime(), v.end * UF[a], 1e-6, "the end time is read in its unit"); vf_close(m.GetTimeStep(), rs, 1e-6, "the forcing resolution is read in its unit");
      vf_close(m.get_model()->lgar_bmi_params.timestep_h * 3600, dt, 1e-6, "the time step is read in its unit"); vf_close(m.get_model()->lgar_bmi_params.minimum_timestep_h * 3600, dt, 1e-6, "the configured time step is the smallest of an adaptive run");
      vf_assert(m.get_model()->lgar_bmi_params.forcing_interval == (int) (rs / dt + 0.5), "time steps per forcing interval");
      vf_reach("end"); return;
    }
    // order of the options: as listed, reversed, interleaved, soil file first and thickness last
    vf_file_begin("cfg.txt");
    if (order == 0) for (int i = 0; i < NK; i++) put(i, v);
    else if (order == 1) for (int i = NK - 1; i >= 0; i--) put(i, v);
    else if (order == 2) for (int i = 0; i < NK; i++) { put((i * 7 + 3) % NK, v); if (i % 3 == 0) vf_puts("\n"); }
    else { for (int i = 0; i < NK; i++) if (i != 2 && i != 9) put(i, v); put(9, v); vf_puts("unknown_option=5\n"); put(2, v); }
    vf_file_end();
    BmiLGAR m; m.Initialize("cfg.txt");
    lgar_bmi_parameters &p = m.get_model()->lgar_bmi_params;
    vf_assert(p.num_layers == n, "the number of layers"); double cum = 0;
    double sd[4]; m.GetValue("soil_depth_layers", sd);
    double th[4], dep[4]; m.GetValue("soil_moisture_wetting_fronts", th); m.GetValue("soil_depth_wetting_fronts", dep);
    for (int i = 0; i < n; i++) {
      cum += v.thick[i];
      vf_close(p.layer_thickness_cm[i + 1], v.thick[i], 0, "layer thickness"); vf_close(p.cum_layer_thickness_cm[i + 1], cum, 1e-9, "depth of layer bottoms"); vf_close(sd[i] * 100, cum, 1e-9, "depth of layer bottoms");
      vf_close(dep[i] * 100, cum, 1e-9, "initial fronts lie at the layer bottoms");
      vf_assert(p.layer_soil_type[i + 1] == v.soil[i], "soil type of each layer");
      const Soil &s = SOILS[v.soil[i] - 1];
      vf_close(th[i], calc_theta_from_h(v.psi, s.al, 1 - 1 / s.n, s.n, s.te, s.tr), 1e-9, "the initial water content follows the initial suction");
    }
    vf_close(p.soil_depth_cm, cum, 1e-9, "depth of the domain"); vf_close(p.wilting_point_psi_cm, v.wp, 0, "wilting point"); vf_close(p.field_capacity_psi_cm, v.fc, 0, "field capacity");
    vf_close(p.ponded_depth_max_cm, v.pond > 0 ? v.pond : 0.0, 0, "maximum ponding"); vf_close(getc(m, "ponded_depth_max"), v.pond > 0 ? v.pond : 0.0, 0, "maximum ponding"); vf_close(getc(m, "field_capacity"), v.fc, 0, "field capacity");
    vf_assert(p.use_closed_form_G == v.cf && p.adaptive_timestep == v.ad && !p.sft_coupled && !p.calib_params_flag && !p.is_invalid_soil_type, "options are as configured");
    vf_close(m.GetEndTime(), v.end, 1e-6, "end time"); vf_close(m.GetTimeStep(), 3600, 1e-9, "forcing resolution"); vf_close(m.GetCurrentTime(), 0.0, 0, "the run starts at time zero");
    vf_assert(m.num_giuh_ordinates == n, "number of hydrograph ordinates");
    for (int i = 0; i < n; i++) vf_close(m.giuh_ordinates[i], v.g[i], 1e-12, "hydrograph ordinates");
    for (int i = 0; i <= n; i++) vf_close(m.giuh_runoff_queue[i], 0.0, 0, "nothing is being routed at the start");
    vf_reach("end");
  } else if (cs == 10) {                               // required options
    static const int REQ[] = {1, 2, 3, 4, 5, 6, 9, 11, 12, 13};
    int miss = REQ[vf_choice("missing", 0, 9)], how = vf_choice("how", 0, 1); V v = plain(2); v.psi = vf_double("psi", 10, 20000);
    vf_file_begin("cfg.txt"); for (int i = 0; i < NK; i++) { if (i != miss) put(i, v); else if (how) { vf_puts("#"); put(i, v); } } vf_file_end();
    int thrown = 0;
    try { BmiLGAR m; m.Initialize("cfg.txt"); } catch (std::exception &e) { thrown = 1; }
    vf_assert(thrown == 1, "a configuration without a required option is refused");
    vf_reach("end");
  } else if (cs == 11) {                               // soil temperatures
    V v = plain(2);
    vf_file_begin("cfg.txt"); for (int i = 0; i < NK; i++) put(i, v);
    int k = vf_choice("coupled", 0, 2);
    if (k == 0) vf_puts("sft_coupled=true\n"); else if (k == 1) vf_puts("sft_coupled=true\nsoil_z=10,30,70[cm]\n"); else vf_puts("soil_z=10,30,70[cm]\nsft_coupled=false\n");
    vf_file_end();
    int thrown = 0, cells = 0, flag = -1;
    try { BmiLGAR m; m.Initialize("cfg.txt"); cells = m.GetGridSize(4); flag = m.get_model()->lgar_bmi_params.sft_coupled;
      if (k == 1) for (int i = 0; i < 3; i++) vf_close(m.get_model()->lgar_bmi_params.soil_temperature_z[i], i == 0 ? 10 : i == 1 ? 30 : 70, 0, "depths of the temperature cells");
    } catch (std::exception &e) { thrown = 1; }
    vf_assert(thrown == (k == 0), "coupling without cell depths is refused");
    if (k) vf_assert(flag == (k == 1) && cells == (k == 1 ? 3 : 1), "coupling is as configured");
    vf_reach("end");
  } else if (cs == 12) {                               // options that may be left out
    V v = plain(2); int drop = vf_choice("drop", 0, 5); v.pond = vf_double("pond", 0, 5); v.cf = true; v.ad = true;
    static const int OPT[] = {0, 7, 8, 10, 14, 15};
    vf_file_begin("cfg.txt"); for (int i = 0; i < NK; i++) if (i != OPT[drop]) put(i, v); vf_file_end();
    BmiLGAR m; m.Initialize("cfg.txt"); lgar_bmi_parameters &p = m.get_model()->lgar_bmi_params;
    vf_close(p.ponded_depth_max_cm, drop == 1 ? 0.0 : v.pond, 0, "no ponding unless configured"); vf_assert(p.use_closed_form_G == (drop != 2), "the capillary drive is integrated unless configured");
    vf_assert(p.num_soil_types == (drop == 3 ? 15 : 4), "15 soil types are valid unless configured"); vf_assert(p.adaptive_timestep == (drop != 4), "time steps are fixed unless configured");
    vf_assert(!p.calib_params_flag && !p.sft_coupled, "no calibration or coupling unless configured"); vf_assert(verbosity == "none", "quiet unless configured");
    vf_reach("end");
  } else if (cs == 13) {                               // an unknown choice for a yes/no option is refused
    V v = plain(2); int k = vf_choice("option", 0, 3), b = vf_choice("value", 0, 3);
    static const char *O[] = {"use_closed_form_G=", "adaptive_timestep=", "sft_coupled=", "calib_params="}, *B[] = {"maybe", "True", "truefalse", "2"};
    vf_file_begin("cfg.txt"); for (int i = 0; i < 14; i++) if (i != 8) put(i, v); vf_puts(O[k]); vf_puts(B[b]); vf_puts("\n"); vf_file_end();
    vf_reach("refused");
    vf_expect_stop(true);
    int thrown = 0;
    try { BmiLGAR m; m.Initialize("cfg.txt"); } catch (std::exception &e) { thrown = 1; }
    vf_expect_stop(false);
    vf_assert(thrown == 1, "an unknown choice for a yes/no option is refused");
  } else if (cs == 14) {                               // lists of numbers
    int n = vf_choice("count", 1, 6); double x[6]; std::string t;
    vf_file_begin("v.txt"); for (int i = 0; i < n; i++) { x[i] = sym("x", i, -100, 1e6); if (i) vf_puts(","); vf_putd(x[i]); } vf_puts("\n"); vf_file_end();
    std::ifstream f("v.txt"); std::getline(f, t);
    std::vector<double> r = ReadVectorData(t);
    vf_assert((int) r.size() == n, "a list has as many values as it names");
    for (int i = 0; i < n; i++) vf_close(r[i], x[i], 1e-6, "a list has the values it names");
    vf_reach("end");
  }
}
