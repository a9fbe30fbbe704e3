// Native runtime: replays one concrete assignment of the harness inputs against the real code.
//   argv: inputs-file scratch-dir
// exit 42 = property violated (VF-FAIL line), 43 = assignment outside the harness' assumptions, 44 = cannot run
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
static std::map<std::string, double> *in_;
static int case_ = 0;
static FILE *cur = nullptr;
static int rep_fd = 2;
static std::string *outfile;
static bool expect_stop = false;
static long out_from = 0;
static std::map<std::string,double> &in() { return *in_; }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void fin(int code) { _exit(code); }
static void say(const char *fmt, const char *m, double a, double b) {
  char buf[2048]; snprintf(buf, sizeof buf, fmt, m, a, b);
  ssize_t r = write(rep_fd, buf, strlen(buf)); (void) r;
}
extern "C" {
double vf_double(const char *name, double lo, double hi) {
  if (lo == hi) return lo;
  auto i = in().find(name);
  double v = i == in().end() ? lo : i->second;
  if (!(v >= lo)) v = lo;
  if (!(v <= hi)) v = hi;
  return v;
}
#ifdef VF_MODULAR      // contract stubs stand for their functions, with the outcomes the solver chose
static const double SLACK = 1e-8;
static bool skip(const char *m) { return !strncmp(m, "args:", 5); }
static int fresh_ = 0;
double vf_fresh(const char *name, double lo, double hi) { return vf_double((std::string(name) + "#" + std::to_string(fresh_++)).c_str(), lo, hi); }
int vf_native(void) { return 0; }
#else
static const double SLACK = 0;
static bool skip(const char *) { return false; }
double vf_fresh(const char *, double lo, double) { return lo; }
int vf_native(void) { return 1; }
#endif
static char *shm_ = nullptr; static void *iso_res; static int iso_n;
#ifndef VF_MODULAR
static int fresh_ = 0;
#endif
int vf_iso_begin(void *res, int n) {
  shm_ = (char *) mmap(nullptr, n + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shm_ == MAP_FAILED) fin(44);
  iso_res = res; iso_n = n;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) fin(44);
  if (p == 0) { alarm(20); return 1; }
  int st = 0; waitpid(p, &st, 0);
  if (!WIFEXITED(st)) { say("VF-FAIL crash: signal\n%s", "", 0, 0); fin(42); }
  if (WEXITSTATUS(st) != 77) fin(WEXITSTATUS(st) ? WEXITSTATUS(st) : 42);
  memcpy(res, shm_, n); memcpy(&fresh_, shm_ + n, sizeof fresh_); munmap(shm_, n + 16);
  return 0;
}
void vf_iso_end(void) { memcpy(shm_, iso_res, iso_n); memcpy(shm_ + iso_n, &fresh_, sizeof fresh_); fin(77); }
static void *shared_;
void *vf_shared(void) { return shared_; }
int vf_choice(const char *name, int lo, int hi) {
  auto i = in().find(name);
  int v = i == in().end() ? lo : (int) i->second;
  return v < lo ? lo : v > hi ? hi : v;
}
double vf_curve(int, double, double, double, double, double, double) { return NAN; }
int vf_case(void) { return case_; }
void vf_assume(bool c) { if (!c) { say("VF-ASSUME%s\n", "", 0, 0); fin(43); } }
void vf_assert(bool c, const char *msg) { if (!c && !skip(msg)) { say("VF-FAIL %s\n", msg, 0, 0); fin(42); } }
void vf_close(double a, double b, double tol, const char *msg) {
  if (std::isinf(a) && a == b) return;
  if (!skip(msg) && !(std::fabs(a - b) <= tol + SLACK + 1e-10 * (std::fabs(a) + std::fabs(b)))) { say("VF-FAIL %s (%.17g vs %.17g)\n", msg, a, b); fin(42); }
}
void vf_le(double a, double b, double tol, const char *msg) {
  if (!skip(msg) && !(a <= b + tol + SLACK + 1e-10 * (std::fabs(a) + std::fabs(b)))) { say("VF-FAIL %s (%.17g > %.17g)\n", msg, a, b); fin(42); }
}
void vf_reach(const char *tag) { say("VF-REACH %s\n", tag, 0, 0); }
void vf_trace(const char *n, double v) { say("VF-TRACE %s %.17g\n", n, v, 0); }
void vf_file_begin(const char *n) { cur = fopen(n, "w"); if (!cur) fin(44); }
void vf_puts(const char *s) { fputs(s, cur); }
void vf_putd(double v) { fprintf(cur, "%.17g", v); }
void vf_puti(int v) { fprintf(cur, "%d", v); }
void vf_file_end(void) { fclose(cur); cur = nullptr; }
unsigned long vf_heap(void) { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
void vf_expect_stop(bool on) { expect_stop = on; }
void vf_out_reset(void) {
  fflush(stdout); fflush(stderr);
  FILE *f = fopen(outfile->c_str(), "r"); if (!f) return;
  fseek(f, 0, SEEK_END); out_from = ftell(f); fclose(f);
}
double vf_printed(const char *key) {
  fflush(stdout); fflush(stderr);
  FILE *f = fopen(outfile->c_str(), "r"); if (!f) return NAN;
  fseek(f, out_from, SEEK_SET);
  std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
  size_t p = s.rfind(key); if (p == std::string::npos) return NAN;
  p += strlen(key);
  p = s.find_first_of("-+0123456789.n", p);
  while (p != std::string::npos) {
    char *e; double v = strtod(s.c_str() + p, &e);
    if (e != s.c_str() + p) return v;
    p = s.find_first_of("-+0123456789.n", p + 1);
  }
  return NAN;
}
static std::vector<std::string> lines(const char *name) {
  fflush(nullptr);
  std::vector<std::string> r; FILE *f = fopen(name, "r"); if (!f) return r;
  char b[8192]; while (fgets(b, sizeof b, f)) r.push_back(b);
  fclose(f); return r;
}
int vf_filecount(const char *name) { return (int) lines(name).size(); }
double vf_filenum(const char *name, int line, int field) {
  auto l = lines(name); if (line >= (int) l.size()) return NAN;
  const char *p = l[line].c_str();
  for (int k = 0; k < field; k++) { p = strchr(p, ','); if (!p) return NAN; p++; }
  char *e; double v = strtod(p, &e); return e == p ? NAN : v;
}
double vf_linenum(const char *name, int line, int n) {
  auto l = lines(name); if (line >= (int) l.size()) return NAN;
  const char *p = l[line].c_str();
  for (int k = 0; *p; ) {
    if (strchr("-+0123456789.", *p)) { char *e; double v = strtod(p, &e); if (e != p) { if (k++ == n) return v; p = e; continue; } }
    p++;
  }
  return NAN;
}
bool vf_linehas(const char *name, int line, const char *s) { auto l = lines(name); return line < (int) l.size() && l[line].find(s) != std::string::npos; }
}
static void onsig(int s) {
  if (expect_stop) fin(0);
  const char *m = s == SIGABRT ? "VF-FAIL crash: abort\n" : s == SIGFPE ? "VF-FAIL crash: SIGFPE\n" : s == SIGALRM ? "VF-FAIL hang: no termination\n" : "VF-FAIL crash: SIGSEGV\n";
  ssize_t r = write(rep_fd, m, strlen(m)); (void) r; fin(42);
}
static void onexit_() {
  if (expect_stop) fin(0);
  const char *m = "VF-FAIL crash: exit() called\n"; ssize_t r = write(rep_fd, m, strlen(m)); (void) r; fin(42);
}
int main(int argc, char **argv) {
  static std::map<std::string, double> m; in_ = &m;
  FILE *f = fopen(argv[1], "r"); if (!f) return 44;
  char nm[512]; char vb[128];
  while (fscanf(f, "%500s %100s", nm, vb) == 2) { if (!strcmp(nm, "case!")) case_ = atoi(vb); else m[nm] = strtod(vb, nullptr); }
  fclose(f);
  if (chdir(argv[2])) return 44;
  shared_ = mmap(nullptr, 1 << 14, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (shared_ == MAP_FAILED) return 44;
  rep_fd = dup(2);
  static std::string of = std::string(argv[2]) + "/stdout.txt"; outfile = &of;
  int fd = open(of.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
  fflush(stdout); dup2(fd, 1); 
  int keep2 = getenv("VF_KEEP_STDERR") != nullptr; if (!keep2) dup2(fd, 2);
  signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig);
  alarm(20);
  atexit(onexit_);
  bool ex = false;
  try { harness(); } catch (...) { ex = true; }
  if (ex) { say("VF-FAIL crash: uncaught C++ exception\n%s", "", 0, 0); fin(42); }
  say("VF-OK%s\n", "", 0, 0);
  fin(0);
}
