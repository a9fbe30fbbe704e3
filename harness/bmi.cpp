#include "lgar.h"
#include <stdexcept>
#include <exception>
// BMI: values, metadata.  cases 0..: values; 10..: metadata
static const char *IN[] = {"precipitation_rate", "potential_evapotranspiration_rate", "soil_temperature_profile"};
static const char *OUTN[] = {"soil_moisture_wetting_fronts", "soil_depth_layers", "soil_depth_wetting_fronts", "soil_num_wetting_fronts", "precipitation",
  "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage", "total_discharge", "infiltration",
  "percolation", "groundwater_to_stream_recharge", "mass_balance"};
static const char *CAL[] = {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max"};
static const int NV = 25;
static const char *name(int i) { return i < 3 ? IN[i] : i < 18 ? OUTN[i - 3] : CAL[i - 18]; }
static int expected(int i, int nl, int nf, int nz) {      // number of values of variable i
  std::string n(name(i));
  if (n == "soil_temperature_profile") return nz;
  if (n == "soil_moisture_wetting_fronts" || n == "soil_depth_wetting_fronts") return nf;
  if (n == "soil_depth_layers" || n == "smcmax" || n == "smcmin" || n == "van_genuchten_n" || n == "van_genuchten_alpha" || n == "hydraulic_conductivity") return nl;
  return 1;
}
static const int ISNUM = 6;        // soil_num_wetting_fronts
static int layers(int cs) { return cs == 9 ? 4 : 1 + cs % 3; }
static void conf(int cs) {
  Conf c; c.nlay = layers(cs);
  if (cs >= 3) { c.sft = 1; c.nz = 4; c.z[0] = 10; c.z[1] = 60; c.z[2] = 150; c.z[3] = cs == 9 ? 210 : 190; }
  write_conf(c);
}
extern "C" void harness(void) {
  int cs = vf_case();
  if (cs < 10) {                       // what is set is what is read back, and nothing else changes
    conf(cs); int nl = layers(cs), nz = cs >= 3 ? 4 : 1;
    BmiLGAR m; m.Initialize("cfg.txt");
    if (cs >= 6) { double T[4] = {280, 280, 280, 280}; m.SetValue("soil_temperature_profile", T); setc(m, "precipitation_rate", 20.0); setc(m, "potential_evapotranspiration_rate", 0.0); m.Update(); }
    int nf = 0; m.GetValue("soil_num_wetting_fronts", &nf);
    vf_assert(nf == nfronts(m.get_model()->head), "the reported number of fronts is the number of fronts");
    double bot[4]; m.GetValue("soil_depth_layers", bot);
    for (int j = 0; j < nl; j++) vf_close(bot[j], m.get_model()->lgar_bmi_params.cum_layer_thickness_cm[j + 1] / 100.0, 1e-12, "the reported layer depths are the bottoms of the layers in meters");
    double before[NV][8], after[NV][8], src[8], back[8]; int ib = 0, ia = 0;
    for (int i = 0; i < NV; i++) { before[i][0] = 0; if (i == ISNUM) m.GetValue(name(i), &ib); else m.GetValue(name(i), before[i]); }
    int k = vf_choice("var", 0, NV - 1); if (k == ISNUM) k = 0;
    int cnt = expected(k, nl, nf, nz);
    for (int j = 0; j < cnt; j++) src[j] = sym("x", j, -1000.0, 1000.0);
    int mode = vf_choice("mode", 0, 3);
    if (mode == 0) m.SetValue(name(k), src);
    else if (mode == 1) { int ind[8]; for (int j = 0; j < cnt; j++) ind[j] = j; m.SetValueAtIndices(name(k), ind, cnt, src); }
    else if (mode == 2) { int ind[8]; double r[8]; for (int j = 0; j < cnt; j++) { ind[j] = cnt - 1 - j; r[j] = src[ind[j]]; } m.SetValueAtIndices(name(k), ind, cnt, r); }
    else { double *p = (double *) m.GetValuePtr(name(k)); for (int j = 0; j < cnt; j++) p[j] = src[j]; }
    for (int i = 0; i < NV; i++) { after[i][0] = 0; if (i == ISNUM) m.GetValue(name(i), &ia); else m.GetValue(name(i), after[i]); }
    for (int j = 0; j < cnt; j++) vf_close(after[k][j], src[j], 0, "a value that was set is read back");
    for (int i = 0; i < NV; i++) if (i != k && i != ISNUM) { int n = expected(i, nl, nf, nz); for (int j = 0; j < n; j++) vf_close(after[i][j], before[i][j], 0, "setting one variable changes no other"); }
    vf_assert(ia == ib, "setting one variable changes no other");
    int j = vf_choice("index", 0, cnt - 1);
    int two[2] = {j, 0};
    m.GetValueAtIndices(name(k), back, two, 2);
    vf_close(back[0], src[j], 0, "values at indices are those values"); vf_close(back[1], src[0], 0, "values at indices are those values");
    double z = vf_double("z", -5, 5);
    m.SetValueAtIndices(name(k), &j, 1, &z);
    m.GetValue(name(k), back);
    for (int q = 0; q < cnt; q++) vf_close(back[q], q == j ? z : src[q], 0, "setting one index changes only that index");
    m.GetValue(name(k), src);
    vf_close(back[0], src[0], 0, "reading does not change a value");
    vf_reach("end");
  } else if (cs < 20) {                // metadata of every variable agrees with the data
    conf(cs - 10); int nl = layers(cs - 10), nz = cs - 10 >= 3 ? 4 : 1;
    BmiLGAR m; m.Initialize("cfg.txt");
    if (cs >= 16) { double T[4] = {280, 280, 280, 280}; m.SetValue("soil_temperature_profile", T); setc(m, "precipitation_rate", 20.0); setc(m, "potential_evapotranspiration_rate", 0.0); m.Update(); }
    int nf = 0; m.GetValue("soil_num_wetting_fronts", &nf);
    vf_assert(nf == nfronts(m.get_model()->head) && (cs >= 16 ? nf == nl + 1 : nf == nl), "the reported number of fronts is the number of fronts");
    vf_assert(m.GetInputItemCount() == 3 && m.GetOutputItemCount() == 15, "the number of exchanged variables");
    std::vector<std::string> in = m.GetInputVarNames(), out = m.GetOutputVarNames();
    vf_assert(in.size() == 3 && out.size() == 15, "the number of exchanged variables");
    for (int i = 0; i < 3; i++) vf_assert(in[i] == IN[i], "the names of the input variables");
    for (int i = 0; i < 15; i++) vf_assert(out[i] == OUTN[i], "the names of the output variables");
    int k = vf_choice("var", 0, NV - 1);
    int cnt = expected(k, nl, nf, nz), g = m.GetVarGrid(name(k)), isz = k == ISNUM ? sizeof(int) : sizeof(double);
    vf_assert(m.GetGridSize(g) == cnt, "a grid's size is the number of values of its variables");
    vf_assert(m.GetVarItemsize(name(k)) == isz, "item sizes match the type");
    vf_assert(m.GetVarType(name(k)) == (k == ISNUM ? "int" : "double"), "types are reported");
    vf_assert(m.GetVarNbytes(name(k)) == cnt * isz, "the byte count is item size times number of values");
    vf_assert(m.GetGridRank(g) == 1, "grids are one-dimensional");
    int shape[3] = {-7, -7, -7}; m.GetGridShape(g, shape);
    vf_assert(shape[0] == cnt && shape[1] == -7, "a grid's shape is its size");
    if (m.GetGridType(g) == "uniform_rectilinear") {
      double sp[3] = {-7, -7, -7}, og[3] = {-7, -7, -7}; m.GetGridSpacing(g, sp); m.GetGridOrigin(g, og);
      vf_close(sp[0], 1.0, 0, "a uniform grid has a spacing"); vf_close(og[0], 0.0, 0, "a uniform grid has an origin"); vf_assert(sp[1] == -7 && og[1] == -7, "spacing and origin have one value per dimension"); vf_reach("uniform");
    } else vf_assert(m.GetGridType(g) == "", "the type of a grid");
    vf_assert(m.GetGridType(0) == "uniform_rectilinear" && m.GetGridType(-1) == "" && m.GetGridType(5) == "", "the type of a grid");
    vf_assert(m.GetValuePtr(name(k)) != NULL, "every variable has storage");
    std::string u = m.GetVarUnits(name(k)), loc = k < 18 ? m.GetVarLocation(name(k)) : std::string("node");
    if (k < 2) vf_assert(u == "mm h^-1", "units");
    else if (k == 2) vf_assert(u == "K", "units");
    else if (k == 3 || k == ISNUM) vf_assert(u == "none", "units");
    else if (k < 18) vf_assert(u == "m", "units");
    vf_assert(loc == "node", "location");
    vf_assert(m.GetStartTime() == 0.0 && m.GetTimeUnits() == "s" && m.GetTimeStep() == 3600.0 && m.GetEndTime() == 360000.0, "time metadata");
    vf_assert(m.GetVarGrid("no_such_variable") == -1 && m.GetGridSize(-1) == -1 && m.GetGridRank(-1) == -1 && m.GetVarItemsize("no_such_variable") == 0
       && m.GetVarType("no_such_variable") == "none" && m.GetVarLocation("no_such_variable") == "none", "unknown variables have no metadata");
    double d0[8]; for (int j = 0; j < 8; j++) d0[j] = -777.0;
    int i0 = -777;
    if (k == ISNUM) m.GetValue(name(k), &i0); else m.GetValue(name(k), d0);
    if (k == ISNUM) vf_assert(i0 == nf, "a value fills exactly its bytes"); else vf_assert(cnt < 8 ? d0[cnt] == -777.0 : true, "a value fills exactly its bytes");
    vf_reach("end");
  } else if (cs == 20) {               // unknown names and unsupported queries are refused
    conf(1); BmiLGAR m; m.Initialize("cfg.txt");
    const char *bad[] = {"no_such_variable", "", "precipitation_rat", "precipitation_rate_", "Soil_Storage", "soil_storage_model", "van_genuchten_m"};
    int k = vf_choice("name", 0, 6), op = vf_choice("op", 0, 4), thrown = 0; double x[4] = {0, 0, 0, 0}; int ind = 0;
    try {
      if (op == 0) m.GetValue(bad[k], x); else if (op == 1) m.SetValue(bad[k], x); else if (op == 2) m.GetValuePtr(bad[k]);
      else if (op == 3) m.GetValueAtIndices(bad[k], x, &ind, 1); else m.SetValueAtIndices(bad[k], &ind, 1, x);
    } catch (std::runtime_error &e) { thrown = 1; }
    vf_assert(thrown == 1, "an unknown variable is refused");
    int un = vf_choice("unsupported", 0, 9); thrown = 0; int iv[2] = {0, 0};
    try {
      switch (un) { case 0: m.GetGridX(0, x); break; case 1: m.GetGridY(0, x); break; case 2: m.GetGridZ(0, x); break; case 3: m.GetGridNodeCount(0); break; case 4: m.GetGridEdgeCount(0); break;
        case 5: m.GetGridFaceCount(0); break; case 6: m.GetGridEdgeNodes(0, iv); break; case 7: m.GetGridFaceEdges(0, iv); break; case 8: m.GetGridFaceNodes(0, iv); break; default: m.GetGridNodesPerFace(0, iv); }
    } catch (std::logic_error &e) { thrown = 1; }
    vf_assert(thrown == 1, "an unsupported query is refused");
    vf_reach("end");
  } else {                             // outputs before the first update; two instances do not interfere
    conf(0); BmiLGAR a; a.Initialize("cfg.txt");
    for (int i = 4; i < 18; i++) if (expected(i, 1, 1, 1) == 1 && i != ISNUM && i != 4 && i != 5 && i != 12) vf_close(getc(a, name(i)), 0.0, 0, "no flux before the first update");
    vf_close(getc(a, "soil_storage") * 100.0, integral(a.get_model()->lgar_bmi_params.cum_layer_thickness_cm, a.get_model()->head), 1e-9, "initial storage");
    vf_reach("end");
  }
}
