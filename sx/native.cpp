// Native runner: the same harness on the real code with plain double, inputs from an assignment file.
#include <malloc.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include "sx.h"
namespace sx {
struct EigenAssert { const char* expr; const char* file; int line; };
using std::string; using std::vector; using std::map;
static map<string, string> g_in; static map<string, string> g_params;
static FILE* g_out; static long g_fails = 0;
struct AssumeFailed {};
struct HReg { string name; void (*fn)(); };
static vector<HReg>& regs() { static vector<HReg> r; return r; }
Reg::Reg(const char* n, void (*f)()) { regs().push_back({n, f}); }
string param(const string& n, const string& d) { auto it = g_params.find(n); return it == g_params.end() ? d : it->second; }
bool thorough() { return param("tier", "quick") == "thorough"; }
static string g_tmp; string tmpdir() { return g_tmp; }
Real sym(const string& name, dbl lo, dbl hi, dbl, dbl) { return sym(name, lo, hi); }
Real sym(const string& name, dbl lo, dbl hi) { auto it = g_in.find(name); if (it == g_in.end()) return 0.5 * (lo + hi); return strtod(it->second.c_str(), 0); }
int choose(const string& name, int n) { auto it = g_in.find("choose:" + name); int v = it == g_in.end() ? 0 : atoi(it->second.c_str()); return v < n ? v : n - 1; }
void assume(Cond c) { if (!c) throw AssumeFailed(); }
void define_square(const Real&, const Real&) {}
static void report(const string& l) { g_fails++; fprintf(g_out, "FAIL\t%s\n", l.c_str()); fflush(g_out); }
void check(bool b, const string& label) { if (!b) report(label); }
void fail(const string& label) { report(label); }
void lemma_mode(bool) {}
void check_eq(const Real& a, const Real& b, const string& label, dbl tol) {
  fprintf(g_out, "CHK\t%s\t%.15g\t%.15g\n", label.c_str(), a, b);
  if (std::isinf(a) && a == b) return;
  if (!(std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))))) report(label);
}
Real nan_value() { return NAN; }
Real inf_value() { return INFINITY; }
bool is_nan_value(const Real& r) { return std::isnan(r); }
bool is_uninit(const Real& r) { unsigned long long u; memcpy(&u, &r, 8); return u == 0xFEFEFEFEFEFEFEFEull; }
void note(const string&) {}
void stop(const string& why) { throw Stop{why}; }
Real parse_real(const string& t) { return strtod(t.c_str(), 0); }
string show(const Real& r) { char b[64]; snprintf(b, 64, "%.17g", r); if (std::isnan(r)) return "nan"; return b; }
Real diff(const Real&, const Real&) { return NAN; }
vector<Real> jac(const std::function<vector<Real>(const Real&)>& f, const Real& x0) {
  const double h = 1e-5; vector<Real> a = f(x0 + h), b = f(x0 - h), a2 = f(x0 + 2 * h), b2 = f(x0 - 2 * h), r;
  for (size_t i = 0; i < a.size(); i++) r.push_back((8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * h));
  return r;
}
void models_path_start(); void models_path_end();
static sigjmp_buf g_jmp; static volatile int g_sig = 0;
static void onSig(int s) { g_sig = s; siglongjmp(g_jmp, 1); }
}  // namespace sx
using namespace sx;
int main(int argc, char** argv) {
  mallopt(M_PERTURB, 0x01);
  string harness, assign;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto val = [&] { return string(argv[++i]); };
    if (a == "--harness") harness = val(); else if (a == "--assign") assign = val();
    else if (a == "--param") { string v = val(); size_t e = v.find('='); g_params[v.substr(0, e)] = v.substr(e + 1); }
  }
  g_out = fdopen(dup(1), "w");
  { std::ofstream* nul = new std::ofstream("/dev/null"); std::cout.rdbuf(nul->rdbuf()); std::cerr.rdbuf(nul->rdbuf()); }
  { std::ifstream f(assign); string l; while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != string::npos) g_in[l.substr(0, t)] = l.substr(t + 1); } }
  char tmpl[] = "/tmp/sxXXXXXX"; g_tmp = mkdtemp(tmpl);
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
  int rc = 0; bool found = false;
  for (auto& r : regs()) if (r.name == harness) {
    found = true;
    models_path_start();
    if (sigsetjmp(g_jmp, 1) == 0) {
      try { r.fn(); models_path_end(); }
      catch (Stop& s) { }
      catch (AssumeFailed&) { fprintf(g_out, "ASSUME-FAILED\n"); rc = 2; }
      catch (EigenAssert& e) { report(string("Eigen assertion failed: ") + e.expr); }
      catch (std::exception& e) { report(string("uncaught exception: ") + e.what()); }
    } else report(string("crash: signal ") + std::to_string(g_sig));
  }
  if (!found) { fprintf(g_out, "NO-SUCH-HARNESS\n"); rc = 3; }
  fprintf(g_out, "DONE\t%ld\n", g_fails); fclose(g_out);
  if (g_tmp.rfind("/tmp/sx", 0) == 0) { int r = system(("rm -rf '" + g_tmp + "'").c_str()); (void)r; }
  _exit(rc ? rc : g_fails ? 1 : 0);
}
