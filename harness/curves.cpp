#include "lgar.h"
// retention and conductivity curves, effective capillary drive
extern "C" void harness(void) {
  int so = vf_case() % 10, part = vf_case() / 10;
  soil_properties_ p; fill_soil(p, SOILS[so]);
  double a = p.vg_alpha_per_cm, m = p.vg_m, n = p.vg_n, te = p.theta_e, tr = p.theta_r, K = p.Ksat_cm_per_h;
  if (part == 0) {
    double h1 = vf_double("h1", 1e-3, 20000), h2 = vf_double("h2", 1e-3, 20000);
    vf_assume(h1 >= 1e-3); vf_assume(h2 >= 1e-3);
    double t1 = calc_theta_from_h(h1, a, m, n, te, tr), t2 = calc_theta_from_h(h2, a, m, n, te, tr);
    vf_le(tr, t1, 0, "water content stays above the residual"); vf_le(t1, te, 1e-12, "water content stays below saturation");
    if (h1 <= h2) vf_le(t2, t1, 1e-12, "water content does not increase with suction");
    double s1 = calc_Se_from_theta(t1, te, tr), s2 = calc_Se_from_h(h1, a, m, n);
    vf_close(s1, s2, 1e-9, "saturation from water content and from suction agree");
    vf_close(s1 * (te - tr) + tr, t1, 1e-12, "saturation is the scaled water content");
    double hb = calc_h_from_Se(s1, a, m, n);
    vf_close(hb, h1, 1e-6 * 20000, "suction and water content are inverse to each other");
    vf_le(0.0, s2, 0, "saturation lies in [0,1]"); vf_le(s2, 1.0, 1e-12, "saturation lies in [0,1]");
    vf_close(calc_theta_from_h(0.0, a, m, n, te, tr), te, 1e-12, "zero suction is saturation");
    vf_close(calc_Se_from_h(0.0, a, m, n), 1.0, 1e-12, "zero suction is saturation");
    vf_close(calc_h_from_Se(1.0, a, m, n), 0.0, 1e-9, "zero suction is saturation");
    double x = a * h1;
    vf_close(s2, pow(1.0 + pow(x, n), -m), 1e-9, "van Genuchten retention curve");
  } else if (part == 1) {
    double s1 = vf_double("s1", 0.01, 1), s2 = vf_double("s2", 0.01, 1), ks = vf_double("ks", 0.01, 100);
    vf_assume(s1 >= 0.01); vf_assume(s2 >= 0.01); vf_assume(ks >= 0.01);
    double k1 = calc_K_from_Se(s1, ks, m), k2 = calc_K_from_Se(s2, ks, m);
    vf_le(0.0, k1, 0, "conductivity is never negative"); vf_le(k1, ks, 1e-9, "conductivity never exceeds saturated conductivity");
    if (s1 <= s2) vf_le(k1, k2, 1e-9, "conductivity does not decrease with water content");
    vf_close(calc_K_from_Se(1.0, ks, m), ks, 1e-12, "saturated conductivity at saturation");
    double u = 1.0 - pow(1.0 - pow(s1, 1.0 / m), m);
    vf_close(k1, ks * sqrt(s1) * u * u, 1e-9, "van Genuchten-Mualem conductivity");
  } else if (part == 2) {          // closed form
    double t1 = vf_double("t1", tr, te), t2 = vf_double("t2", tr, te);       // below the front, in the front
    vf_assume(t1 > tr + 1e-3); vf_assume(t2 >= t1 + 1e-4);
    double Hc = p.bc_psib_cm * ((2 + 3 * p.bc_lambda) / (1 + 3 * p.bc_lambda));
    double g = calc_Geff(true, t1, t2, te, tr, a, n, m, p.h_min_cm, K, 120, p.bc_lambda, p.bc_psib_cm);
    double e = 3 + 1 / p.bc_lambda;
    double sf = (t1 - tr) / (te - tr), si = (t2 - tr) / (te - tr);
    double f = pow(sf, e), i = pow(si, e);
    vf_le(0.0, g, 1e-12, "capillary drive is never negative"); vf_le(g, Hc, 1e-9, "capillary drive never exceeds that of a saturated front");
    vf_close(g * (1 - f), Hc * (i - f), 1e-9, "closed-form capillary drive");
    vf_close(calc_Geff(true, t1, te, te, tr, a, n, m, p.h_min_cm, K, 120, p.bc_lambda, p.bc_psib_cm), Hc, 1e-9, "a saturated front has the full capillary drive");
    vf_close(calc_Geff(true, te, te, te, tr, a, n, m, p.h_min_cm, K, 120, p.bc_lambda, p.bc_psib_cm), Hc, 1e-9, "a saturated front over saturated soil has the full capillary drive");
  } else if (part == 4) {           // numerical integral over moderate contrasts, any saturated conductivity
    static const double F1[] = {0.25, 0.35, 0.45}, F2[] = {0.7, 0.8, 0.9};
    int i = vf_choice("i", 0, 2), j = vf_choice("j", 0, 2);
    double ks = vf_double("ks", 0.01, 100); vf_assume(ks >= 0.01);
    double g = calc_Geff(false, tr + F1[i] * (te - tr), tr + F2[j] * (te - tr), te, tr, a, n, m, p.h_min_cm, ks, 120, p.bc_lambda, p.bc_psib_cm);
    double hi = 1.0 / a * pow(pow(F1[i], -1.0 / m) - 1.0, 1.0 / n), h = 1.0 / a * pow(pow(F2[j], -1.0 / m) - 1.0, 1.0 / n);
    const int N = 200; double r = pow(hi / h, 1.0 / N), S = 0, k0 = 0;
    for (int k = 0; k <= N; k++) {
      double s = pow(1.0 + pow(a * h, n), -m), u = 1.0 - pow(1.0 - pow(s, 1.0 / m), m), kk = sqrt(s) * u * u;
      if (k) S += 0.5 * (k0 + kk) * (h - h / r);
      k0 = kk; h *= r;
    }
    vf_le(0.75 * S, g, 0, "numerically integrated capillary drive"); vf_le(g, 1.25 * S, 0, "numerically integrated capillary drive");
  } else {                          // numerical integral: non-negative, zero for equal contents
    double t1 = vf_double("t1", tr, te), d = vf_double("d", 0, 0.02);
    vf_assume(t1 > tr + 0.05); vf_assume(t1 + d <= te - 0.01); vf_assume(d >= 1e-4);
    double g = calc_Geff(false, t1, t1 + d, te, tr, a, n, m, p.h_min_cm, K, vf_native() ? 120 : 1, p.bc_lambda, p.bc_psib_cm);
    vf_le(0.0, g, 0, "capillary drive is never negative");
  }
  vf_reach("end");
}
