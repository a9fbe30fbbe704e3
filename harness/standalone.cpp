#include "pick.h"
// the standalone program.  case = 10*variant + configuration.  The reference is the same model stepped through its interface.
int lgar_driver_main(int argc, char **argv);
static const char *OUT[] = {"precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance"};
// variant 2: rows with the same time stamp, no demand at first, no newline after the last row
static const char *SAME[] = {"2016-11-06 01:00:00", "2016-11-06 01:00:00", "2016-11-06 01:00:00", "2016-11-06 01:00:00"};
static const char *STAMPS[] = {"2016-10-01 00:00:00", "2016-10-01 01:00:00", "step three", "4", "2016-10-05", "6"};
struct D { double res, dt, end; int rows, steps, nlay; bool extra; const char *opt; };
static const D DR[] = {{3600, 3600, 7200, 3, 2, 2, false, ""}, {1800, 1800, 5400, 3, 3, 2, true, ""}, {3600, 1800, 9000, 4, 2, 2, false, "verbosity=high\n"}, {7200, 3600, 7200, 2, 1, 3, true, "verbosity=low\n"}, {1860, 1860, 3720, 3, 2, 2, false, ""}};
extern "C" void harness(void) {
  int var = vf_case() / 10; const D &k = DR[vf_case() % 10];
  char prog[] = "lgar", cfg[] = "a.txt", more[] = "x"; char *av[] = {prog, cfg, more, NULL};
  if (var == 1) {                                     // called with too few or too many arguments: prints its usage, runs nothing
    int n = vf_choice("argc", 0, 1) ? 1 : 3;
    vf_assert(lgar_driver_main(n, av) == 0, "wrong arguments end with the usage"); vf_assert(vf_filecount("data_variables.csv") == 0, "wrong arguments run nothing");
    vf_reach("end"); return;
  }
  const char **STAMP = var == 2 ? SAME : STAMPS;
  g_plain = vf_case() == 1 || vf_case() == 2;
  Conf c; c.nlay = k.nlay; c.dt = k.dt; c.res = k.res; c.end = k.end; c.ngiuh = 1; c.giuh[0] = 1.0; c.file = "a.txt"; c.pond = 1.0;
  std::string ex(k.opt); ex += "forcing_file=forcing.csv\n"; c.extra = ex.c_str();
  write_conf(c);
  double P[6], E[6];
  vf_file_begin("forcing.csv"); vf_puts("Time,P(mm/h),PET(mm/h)\n");
  for (int i = 0; i < k.rows; i++) {
    P[i] = i < k.steps ? sym("P", i, i ? 0 : 1, 60) : 3.5; E[i] = i == 0 ? sym("E", i, 0.01, 1) : i == 1 ? 0.25 : 0.0;
    if (var == 2) { P[i] = i == 0 ? 2.0 : sym("P", i, 0, 60); E[i] = i == 1 ? sym("E", i, 0.01, 1) : 0.0; }
    vf_puts(STAMP[i]); vf_puts(","); vf_putd(P[i]); vf_puts(","); vf_putd(E[i]); if (k.extra) vf_puts(",99.5"); if (var != 2 || i < k.rows - 1) vf_puts("\n");
  }
  vf_file_end();
  double R[4][11], F[4][8][5]; int nf[4];
  {
    g_who = "a"; g_slot = 0; g_cnt[0] = 0;
    BmiLGAR m; m.Initialize("a.txt");
    for (int t = 0; t < k.steps; t++) {
      setc(m, "precipitation_rate", P[t]); setc(m, "potential_evapotranspiration_rate", E[t]); m.Update();
      for (int j = 0; j < 11; j++) R[t][j] = getc(m, OUT[j]);
      nf[t] = 0;
      for (wetting_front *f = m.get_model()->head; f && nf[t] < 8; f = f->next) { double *q = F[t][nf[t]++]; q[0] = f->depth_cm * 10; q[1] = f->theta; q[2] = f->layer_num; q[3] = f->front_num; q[4] = f->psi_cm * 10; }
    }
    vf_out_reset(); m.Finalize();
  }
  double gb = vf_printed("Global balance"); vf_out_reset();
  g_cnt[0] = 0;
  vf_assert(lgar_driver_main(2, av) == 0, "the program ends normally");
  const char *V = "data_variables.csv", *L = "data_layers.csv";
  vf_assert(vf_filecount(V) == k.steps + 1, "one output row per forcing interval, after the heading"); vf_assert(vf_filecount(L) == 2 * k.steps, "the fronts are written for every step");
  vf_assert(vf_linehas(V, 0, "Time,precipitation,potential_evapotranspiration,actual_evapotranspiration,surface_runoff,giuh_runoff,soil_storage,total_discharge,infiltration,percolation,groundwater_to_stream_recharge,mass_balance"), "the heading names the columns");
  for (int t = 0; t < k.steps; t++) {
    std::string st(STAMP[t]); st += ",";
    vf_assert(vf_linehas(V, t + 1, st.c_str()), "each row carries its own time stamp");
    for (int j = 0; j < 11; j++) vf_close(vf_filenum(V, t + 1, j + 1), R[t][j], 1e-12, "each row holds the outputs of its own step");
    vf_assert(vf_linehas(L, 2 * t, STAMP[t]), "the fronts of a step carry its time stamp"); vf_close(vf_linenum(L, 2 * t, 0), t, 0, "the fronts of a step carry its number");
    for (int i = 0; i < nf[t]; i++) for (int j = 0; j < 5; j++) vf_close(vf_linenum(L, 2 * t + 1, 5 * i + j), F[t][i][j], 2e-6, "the fronts are written as they are");
    double x = vf_linenum(L, 2 * t + 1, 5 * nf[t]); vf_assert(x != x, "every front is written once");
  }
  if (var == 0) vf_close(vf_printed("Global balance"), gb, 1e-9, "the run ends with the summary");
  vf_reach("end");
}
