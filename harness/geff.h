// C12: the capillary drive is a non-negative function of its arguments (symbolic runs only)
#pragma once
#include "lgar.h"
struct GCall { bool cf; double a[10]; int nint; double v; };
struct GMemo { int n; GCall c[32]; };
double stub_calc_Geff(bool cf, double t1, double t2, double te, double tr, double al, double n, double m, double hmin, double K, int nint, double lam, double psib) {
  double a[10] = {t1, t2, te, tr, al, n, m, hmin, lam, psib};
  GMemo &g = *(GMemo *) vf_shared();
  for (int i = 0; i < g.n; i++) {
    GCall &c = g.c[i]; bool same = c.cf == cf && (cf || c.nint == nint);
    for (int j = 0; j < 10 && same; j++) same = c.a[j] == a[j];
    if (same) return c.v;
  }
  double v = vf_fresh("G", 0, 10000);
  if (g.n < 32) { GCall &c = g.c[g.n++]; c.cf = cf; c.nint = nint; c.v = v; for (int j = 0; j < 10; j++) c.a[j] = a[j]; }
  return v;
}
