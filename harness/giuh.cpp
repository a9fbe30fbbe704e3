#include "vf.h"
extern "C" {
#include "giuh.h"
}
// case 0: one step from any queue; case 1..5: a runoff sequence through that many ordinates, compared with the convolution sum
static const char *ON[] = {"o0","o1","o2","o3","o4","o5"}, *QN[] = {"q0","q1","q2","q3","q4","q5"}, *RN[] = {"r0","r1","r2","r3","r4","r5","r6","r7","r8","r9"};
extern "C" void harness(void) {
  double ord[8], q[8], q0[8];
  if (vf_case() == 0) {
    int n = vf_choice("n", 1, 5);
    double s = 0, in0 = 0;
    for (int i = 0; i < n; i++) { ord[i] = vf_double(ON[i], 0, 1); s += ord[i]; }
    for (int i = 0; i <= n; i++) q[i] = q0[i] = i < n ? vf_double(QN[i], 0, 100) : 0.0;
    for (int i = 0; i < n; i++) in0 += q[i];
    double r = vf_double("r", 0, 100);
    double out = giuh_convolution_integral(r, n, ord, q);
    double in1 = 0;
    for (int i = 0; i < n; i++) in1 += q[i];
    vf_close(out + in1, in0 + r * s, 1e-9, "routed and queued water is the water that entered");
    vf_close(out, q0[0] + ord[0] * r, 1e-9, "the routed water is the head of the queue");
    for (int i = 0; i < n; i++) vf_close(q[i], i + 1 < n ? q0[i + 1] + ord[i + 1] * r : 0.0, 1e-9, "the queue moves up by one step");
    vf_le(0.0, out, 0, "routed water is not negative");
  } else {
    int n = vf_case() % 10, T = 2 * n + 1; if (T > 7) T = 7;
    double r[10], in = 0, got = 0, s = 0;
    for (int i = 0; i < n; i++) { ord[i] = vf_double(ON[i], 0, 1); s += ord[i]; }
    for (int i = 0; i <= n; i++) q[i] = 0.0;
    for (int t = 0; t < T; t++) {
      r[t] = t < n + 2 ? vf_double(RN[t], 0, 100) : 0.0;
      double out = giuh_convolution_integral(r[t], n, ord, q), want = 0, queue = 0;
      for (int i = 0; i < n && i <= t; i++) want += ord[i] * r[t - i];
      for (int i = 0; i < n; i++) queue += q[i];
      in += r[t] * s; got += out;
      vf_close(out, want, 1e-9, "the routed water is the convolution of runoff and ordinates");
      vf_close(got + queue, in, 1e-9, "routed and queued water is the water that entered");
    }
  }
  vf_reach("end");
}
