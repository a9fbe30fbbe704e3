// Harness interface: the same harness is executed symbolically (lsx) and natively (replay of a counterexample).
#pragma once
#include <cstddef>
extern "C" {
double vf_double(const char *name, double lo, double hi);      // any real in [lo,hi]
double vf_fresh(const char *name, double lo, double hi);       // contract stubs only: any real in [lo,hi], new at every call
int    vf_choice(const char *name, int lo, int hi);            // any integer in [lo,hi]
int    vf_case(void);                                          // instance number given by the runner
int    vf_native(void);
void   vf_assume(bool c);
void   vf_assert(bool c, const char *msg);
void   vf_close(double a, double b, double tol, const char *msg);   // |a-b| <= tol
void   vf_le(double a, double b, double tol, const char *msg);      // a <= b + tol
void   vf_reach(const char *tag);                                   // non-vacuity witness
void   vf_file_begin(const char *name);
void   vf_puts(const char *s);
void   vf_putd(double v);
void   vf_puti(int v);
void   vf_file_end(void);
unsigned long vf_heap(void);                                   // live heap bytes
void   vf_expect_stop(bool on);                                // abort/exit is the expected outcome from here on
double vf_printed(const char *key);                            // number printed after key on stdout/stderr
void   vf_out_reset(void);
int    vf_filecount(const char *name);                         // lines the program wrote to a file
double vf_filenum(const char *name, int line, int field);      // comma-separated field of a line the program wrote
double vf_linenum(const char *name, int line, int k);          // k-th number in a line the program wrote
bool   vf_linehas(const char *name, int line, const char *s);  // a line the program wrote contains s
void   vf_trace(const char *name, double v);                    // value compared between the symbolic and the native run
int    vf_iso_begin(void *res, int bytes);                    // the block runs as if in a process of its own: only *res survives it
void   vf_iso_end(void);
void  *vf_shared(void);                                       // zeroed memory of the harness (16 kB) that survives such blocks
void   harness(void);
}
