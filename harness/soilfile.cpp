#include "lgar.h"
// the soil parameter file.  case: 0..3 = first n of the soil with symbolic values; 10.. = through the model
static const double NS[] = {1.15, 1.25, 1.5, 2.0, 4.0};
extern "C" void harness(void) {
  int cs = vf_case();
  int nsoil = 4, k = cs % 10; double v[5][5];
  for (int i = 0; i < nsoil; i++) {
    const Soil &s = SOILS[i]; v[i][0] = s.tr; v[i][1] = s.te; v[i][2] = s.al; v[i][3] = s.n; v[i][4] = s.K;
  }
  if (k < nsoil) {
    v[k][0] = vf_double("tr", 0.0, 0.2); v[k][1] = vf_double("te", 0.3, 0.9); v[k][2] = vf_double("al", 0.001, 0.2); v[k][3] = NS[vf_choice("n", 0, 4)]; v[k][4] = vf_double("K", 0.001, 50);
  }
  const char *NAME[] = {"\"Sand\"", "Loamy_sand", "\"Sandy-clay-loam\"", "C"};
  std::string longname; int over = 0;
  if (k == 4) {                                     // a soil name of up to 200 characters
    static const int LEN[] = {20, MAX_SOIL_NAME_CHARS - 1, MAX_SOIL_NAME_CHARS, MAX_SOIL_NAME_CHARS + 1, 60, 200};
    int len = LEN[vf_choice("length", 0, 5)]; over = len >= MAX_SOIL_NAME_CHARS;
    for (int i = 0; i < len; i++) longname += (char) ('a' + i % 26);
    NAME[1] = longname.c_str();
  }
  vf_file_begin("soils.dat");
  vf_puts("header line with words\n");
  for (int i = 0; i < nsoil; i++) {
    vf_puts(NAME[i]);
    for (int j = 0; j < 5; j++) { vf_puts(j % 2 ? " " : "\t  "); vf_putd(v[i][j]); }
    vf_puts(i == nsoil - 1 && cs % 2 ? "" : "\n");
  }
  vf_file_end();
  double wp = vf_double("wp", 5000, 20000);
  if (cs < 10) {
    int lim = vf_choice("types", 1, 5);
    soil_properties_ *p = new soil_properties_[lim + 1]();
    if (over && lim > 1) vf_expect_stop(true);      // refused: the program stops
    int got = lgar_read_vG_param_file("soils.dat", lim, wp, p);
    int exp = lim < nsoil ? lim : nsoil;
    vf_assert(got == exp, "the number of soils read is the number of lines, up to the valid soil types");
    for (int i = 1; i <= exp; i++) {
      const soil_properties_ &q = p[i]; const double *x = v[i - 1];
      vf_assert(strcmp(q.soil_name, NAME[i - 1]) == 0, "soils carry the name of their line");
      vf_close(q.theta_r, x[0], 0, "residual water content of each soil"); vf_close(q.theta_e, x[1], 0, "saturated water content of each soil"); vf_close(q.vg_alpha_per_cm, x[2], 0, "alpha of each soil");
      vf_close(q.vg_n, x[3], 0, "n of each soil"); vf_close(q.Ksat_cm_per_h, x[4], 0, "conductivity of each soil");
      double m = 1 - 1 / x[3], P = 1 + 2 / m, L = 2 / (P - 3);
      vf_close(q.vg_m, m, 1e-12, "m = 1 - 1/n");
      vf_close(q.theta_wp, x[0] + (x[1] - x[0]) / pow(1 + pow(x[2] * wp, x[3]), m), 1e-9, "water content at the wilting point");
      vf_close(q.bc_lambda, L, 1e-9, "Brooks-Corey pore size index");
      double pb = (P + 3) * (147.8 + 8.1 * P + 0.092 * P * P) / (2 * x[2] * P * (P - 1) * (55.6 + 7.4 * P + P * P));
      vf_close(q.bc_psib_cm * x[2], pb * x[2], 1e-9, "Brooks-Corey bubbling pressure");
      vf_close(q.h_min_cm * x[2], pb * x[2] * (2 + 3 / L) / (1 + 3 / L), 1e-9, "minimum capillary drive");
    }
    for (int i = exp + 1; i <= lim; i++) vf_assert(p[i].soil_name[0] == 0 && p[i].theta_e == 0, "soils the file does not have stay empty");
    delete [] p;
  } else {
    Conf c; c.nlay = 3; c.nsoils = 4;
    int perm = vf_choice("layers", 0, 5);
    static const int PM[6][3] = {{1, 2, 3}, {3, 2, 1}, {4, 4, 1}, {2, 1, 4}, {1, 1, 1}, {4, 3, 2}};
    for (int i = 0; i < 3; i++) c.soil[i] = PM[perm][i];
    vf_file_begin("keep.txt"); vf_file_end();
    // same file, reached through the configuration
    std::string conf("soil_params_file=soils.dat\nverbosity=none\nlayer_thickness=40,60,100[cm]\ninitial_psi=2000[cm]\ntimestep=300[sec]\nendtime=360000[sec]\nforcing_resolution=3600[sec]\nuse_closed_form_G=true\nfield_capacity_psi=340.9[cm]\ngiuh_ordinates=0.5,0.5\nmax_valid_soil_types=4\n");
    vf_file_begin("cfg.txt"); vf_puts(conf.c_str()); vf_puts("wilting_point_psi="); vf_putd(wp); vf_puts("[cm]\nlayer_soil_type=");
    for (int i = 0; i < 3; i++) { if (i) vf_puts(","); vf_puti(c.soil[i]); } vf_puts("\n"); vf_file_end();
    BmiLGAR m; m.Initialize("cfg.txt");
    double te[3], tr[3], n[3], al[3], K[3], tw[3];
    m.GetValue("smcmax", te); m.GetValue("smcmin", tr); m.GetValue("van_genuchten_n", n); m.GetValue("van_genuchten_alpha", al); m.GetValue("hydraulic_conductivity", K); m.GetValue("soil_moisture_wetting_fronts", tw);
    for (int i = 0; i < 3; i++) {
      const double *x = v[c.soil[i] - 1];
      vf_close(te[i], x[1], 0, "layers use the soil they name"); vf_close(tr[i], x[0], 0, "layers use the soil they name"); vf_close(n[i], x[3], 0, "layers use the soil they name");
      vf_close(al[i], x[2], 0, "layers use the soil they name"); vf_close(K[i], x[4], 0, "layers use the soil they name");
      vf_close(tw[i], x[0] + (x[1] - x[0]) / pow(1 + pow(x[2] * 2000.0, x[3]), 1 - 1 / x[3]), 1e-9, "the initial water content of a layer follows its soil's retention curve");
    }
  }
  vf_reach("end");
}
