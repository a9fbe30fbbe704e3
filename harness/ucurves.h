// symbolic runs: the soil curves by their contract (C12) - any monotone curves with the right ranges
#pragma once
#include "vf.h"
extern "C" double vf_curve(int kind, double x, double a, double b, double c, double d, double e);
double stub_calc_theta_from_h(double h, double al, double m, double n, double te, double tr) { return vf_curve(0, h, al, m, n, te, tr); }
double stub_calc_h_from_Se(double Se, double al, double m, double n) { return vf_curve(1, Se, al, m, n, 0, 0); }
double stub_calc_K_from_Se(double Se, double Ks, double m) { return vf_curve(2, Se, Ks, m, 0, 0, 0); }
