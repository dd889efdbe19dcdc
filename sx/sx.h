// Symbolic scalar and harness API. "double" is still the builtin type in this header.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace sx {
typedef double dbl;

#ifndef SX_NATIVE
// id == 0: the constant c; id > 0: node of the expression table; anything else: uninitialised memory
struct Real {
  dbl c;
  int id;
  Real() = default;
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || (std::is_enum<T>::value && std::is_convertible<T, int>::value)>::type>
  constexpr Real(T v) : c((dbl)v), id(0) {}
  constexpr Real(dbl c_, int id_) : c(c_), id(id_) {}
#ifndef SX_IMPLICIT
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
  explicit operator T() const { return conv((T*)nullptr); }
#else   // second attempt for sources that convert floating values to integers implicitly
  template <class T, typename std::enable_if<std::is_floating_point<T>::value || std::is_same<T, bool>::value, int>::type = 0>
  explicit operator T() const { return conv((T*)nullptr); }
  template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
  operator T() const { return conv((T*)nullptr); }
#endif
  Real& operator+=(const Real& o);
  Real& operator-=(const Real& o);
  Real& operator*=(const Real& o);
  Real& operator/=(const Real& o);
  Real& operator++() { return *this += Real(1); }
  Real& operator--() { return *this -= Real(1); }
  Real operator++(int) { Real r = *this; *this += Real(1); return r; }
  Real operator--(int) { Real r = *this; *this -= Real(1); return r; }
 private:
  bool conv(bool*) const;
  template <class T> T conv(T*) const { if constexpr (std::is_integral<T>::value) return (T)whole(); else return (T)concrete(); }
  dbl concrete() const;
  long long whole() const;
};
Real rt_add(const Real&, const Real&);
inline constexpr Real operator+(const Real& a, const Real& b) { if (__builtin_is_constant_evaluated()) return Real(a.c + b.c, 0); return rt_add(a, b); }
Real rt_sub(const Real&, const Real&);
inline constexpr Real operator-(const Real& a, const Real& b) { if (__builtin_is_constant_evaluated()) return Real(a.c - b.c, 0); return rt_sub(a, b); }
Real rt_mul(const Real&, const Real&);
inline constexpr Real operator*(const Real& a, const Real& b) { if (__builtin_is_constant_evaluated()) return Real(a.c * b.c, 0); return rt_mul(a, b); }
Real rt_div(const Real&, const Real&);
inline constexpr Real operator/(const Real& a, const Real& b) { if (__builtin_is_constant_evaluated()) return Real(a.c / b.c, 0); return rt_div(a, b); }
Real rt_neg(const Real&);
inline constexpr Real operator-(const Real& a) { if (__builtin_is_constant_evaluated()) return Real(-a.c, 0); return rt_neg(a); }
inline Real operator+(const Real& a) { return a; }
bool operator<(const Real&, const Real&);
bool operator<=(const Real&, const Real&);
bool operator>(const Real&, const Real&);
bool operator>=(const Real&, const Real&);
bool operator==(const Real&, const Real&);
bool operator!=(const Real&, const Real&);
#ifdef SX_IMPLICIT
#define SX_MIX(R, O) template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline R operator O(const Real& a, T b) { return a O Real(b); } template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline R operator O(T a, const Real& b) { return Real(a) O b; }
SX_MIX(Real, +) SX_MIX(Real, -) SX_MIX(Real, *) SX_MIX(Real, /) SX_MIX(bool, <) SX_MIX(bool, <=) SX_MIX(bool, >) SX_MIX(bool, >=) SX_MIX(bool, ==) SX_MIX(bool, !=)
#undef SX_MIX
#endif
std::ostream& operator<<(std::ostream&, const Real&);
std::istream& operator>>(std::istream&, Real&);
Real sqrt(const Real&);
Real sin(const Real&);
Real cos(const Real&);
Real tan(const Real&);
Real asin(const Real&);
Real acos(const Real&);
Real atan(const Real&);
Real atan2(const Real&, const Real&);
Real exp(const Real&);
Real log(const Real&);
Real sinh(const Real&);
Real cosh(const Real&);
Real tanh(const Real&);
Real pow(const Real&, const Real&);
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
Real pow(const Real& a, T b) { return pow(a, Real(b)); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
Real pow(T a, const Real& b) { return pow(Real(a), b); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
Real atan2(const Real& a, T b) { return atan2(a, Real(b)); }
Real abs(const Real&);
inline Real fabs(const Real& a) { return abs(a); }
inline Real abs2(const Real& a) { return a * a; }
inline Real hypot(const Real& a, const Real& b) { return sqrt(a * a + b * b); }
inline Real hypot(const Real& a, const Real& b, const Real& c) { return sqrt(a * a + b * b + c * c); }
inline Real cbrt(const Real& a) { return pow(a, Real(1.0 / 3)); }
inline Real fma(const Real& a, const Real& b, const Real& c) { return a * b + c; }
Real floor(const Real&);
inline Real ceil(const Real& a) { return -floor(-a); }
inline Real round(const Real& a) { return floor(a + Real(0.5)); }
inline Real trunc(const Real& a) { return a < Real(0) ? ceil(a) : floor(a); }
inline Real fmin(const Real& a, const Real& b) { return b < a ? b : a; }
inline Real fmax(const Real& a, const Real& b) { return a < b ? b : a; }
inline Real copysign(const Real& a, const Real& b) { Real m = abs(a); return b < Real(0) ? -m : m; }
bool isnan(const Real&);
bool isinf(const Real&);
inline bool isfinite(const Real& a) { return !isnan(a) && !isinf(a); }
inline Real fmod(const Real& a, const Real& b) { Real q = a / b; return a - b * (q < Real(0) ? ceil(q) : floor(q)); }
inline bool signbit(const Real& a) { return a < Real(0); }
inline long lround(const Real& a) { return (long)round(a); }
inline long long llround(const Real& a) { return (long long)round(a); }
inline Real rint(const Real& a) { return round(a); }
inline Real nearbyint(const Real& a) { return round(a); }
Real f32(const Real&);                                          // rounded to single precision
// single precision numbers: every value that is stored in one is rounded
#ifdef SX_PLAINFLOAT
typedef Real F32;
#else
struct F32 {
  Real v;
  F32() = default;
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || (std::is_enum<T>::value && std::is_convertible<T, int>::value)>::type>
  constexpr F32(T x) : v((dbl)(float)x, 0) {}
  F32(const Real& r) : v(f32(r)) {}
  operator Real() const { return v; }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
  explicit operator T() const { return (T)v; }
  F32& operator+=(const Real& o) { return *this = F32(v + o); }
  F32& operator-=(const Real& o) { return *this = F32(v - o); }
  F32& operator*=(const Real& o) { return *this = F32(v * o); }
  F32& operator/=(const Real& o) { return *this = F32(v / o); }
  F32& operator++() { return *this += Real(1); }
  F32 operator++(int) { F32 r = *this; *this += Real(1); return r; }
};
inline std::istream& operator>>(std::istream& i, F32& f) { Real r; i >> r; f = F32(r); return i; }
#endif
// n x n matrix inverse (row major), by contract
std::vector<Real> matinv(const std::vector<Real>& m, int n);
Real matdet(const std::vector<Real>& m, int n);
// logarithm of a 4 x 4 rigid transform (row major), by contract: log_hint announces exp(l) = m
std::vector<Real> matlog(const std::vector<Real>& m);
void log_hint(const std::vector<Real>& m, const std::vector<Real>& l);
#else
typedef double Real;
inline void log_hint(const std::vector<Real>&, const std::vector<Real>&) {}
#endif

// ---- conditions that do not fork -------------------------------------------------------------
#ifndef SX_NATIVE
struct CondNode;
struct Cond { int id; };
Cond lt(const Real&, const Real&);
Cond le(const Real&, const Real&);
Cond eq(const Real&, const Real&);
Cond ne(const Real&, const Real&);
Cond And(Cond, Cond);
Cond Or(Cond, Cond);
Cond Not(Cond);
Cond C(bool);
#else
typedef bool Cond;
inline Cond lt(Real a, Real b) { return a < b; }
inline Cond le(Real a, Real b) { return a <= b; }
inline Cond eq(Real a, Real b) { return a == b; }
inline Cond ne(Real a, Real b) { return a != b; }
inline Cond And(Cond a, Cond b) { return a && b; }
inline Cond Or(Cond a, Cond b) { return a || b; }
inline Cond Not(Cond a) { return !a; }
inline Cond C(bool b) { return b; }
#endif
inline Cond gt(const Real& a, const Real& b) { return lt(b, a); }
inline Cond ge(const Real& a, const Real& b) { return le(b, a); }

// ---- harness API ----------------------------------------------------------------------------
// arbitrary real: sampled in [lo,hi], decided by the solver in [wlo,whi] (default: [-a,a] with a >= 1: 500 times wider;
// [0,a] with a >= 1 and [a,b] with b >= 5a > 0: 50 times wider; any other range: the same)
Real sym(const std::string& name, dbl lo = -3, dbl hi = 3);
Real sym(const std::string& name, dbl lo, dbl hi, dbl wlo, dbl whi);
int choose(const std::string& name, int n);                    // arbitrary integer in 0..n-1 (forks)
void assume(Cond);
void check(Cond, const std::string& label);
#ifndef SX_NATIVE
inline void assume(bool b) { assume(C(b)); }
void check(bool, const std::string& label);
#endif
void lemma_mode(bool on);                                       // obligations of every shard, used in later proofs
void check_eq(const Real& a, const Real& b, const std::string& label, dbl tol = 1e-6);
void fail(const std::string& label);
void define_square(const Real& s, const Real& value);          // symbol s satisfies s*s == value
Real nan_value();
Real inf_value();
bool is_nan_value(const Real&);                                // symbolic: the NaN node; native: isnan
bool is_uninit(const Real&);
Real diff(const Real& f, const Real& x);                       // symbolic only
std::string param(const std::string& name, const std::string& def);   // --param name=value
bool thorough();
std::string tmpdir();
Real parse_real(const std::string& token);                     // reads what operator<< printed
std::string show(const Real&);                                  // text form that parse_real reads back
void note(const std::string& s);                                // free-form sample text
struct Stop { std::string why; };                               // ends the path quietly
[[noreturn]] void stop(const std::string& why);
// d f / d x by symbolic differentiation, by central differences in the native build
std::vector<Real> jac(const std::function<std::vector<Real>(const Real&)>& f, const Real& x0);

struct Reg { Reg(const char* name, void (*fn)()); };
#define SX_HARNESS(name)                                   \
  static void sx_h_##name();                               \
  static ::sx::Reg sx_r_##name(#name, sx_h_##name);        \
  static void sx_h_##name()

// ---- lock / queue / thread models -------------------------------------------------------------
struct MutexState {
  int held = 0;
  MutexState();
  ~MutexState();
  void acquire();
  bool try_acquire();
  void release();
  int uid;
};
void queue_access(const void* q, const char* what);
void queue_underflow(const char* what);
void queue_born(const void* q);
struct ThreadScope { int saved; explicit ThreadScope(int t); ~ThreadScope(); };   // accesses in this scope are those of thread t
void guard(const void* q, const MutexState* m);       // accesses to q need m while Concurrent is active
struct Concurrent { Concurrent(); ~Concurrent(); };
struct Quiet { bool saved; Quiet(); ~Quiet(); };
int locks_held();
void set_env(std::function<void()> f);                // called at every lock operation (may be empty)
void reset_models();
void thread_event(const char* what);
// cooperative threads: threads started while a Coop exists run as coroutines, switched at lock operations; at most
// `preemptions` switches are chosen freely (all placements are explored), the others happen when a thread blocks or is idle
struct Coop { explicit Coop(int preemptions); ~Coop(); };
int coop_spawn(std::function<void()> f);
void coop_join(int id);
void coop_run();                                       // runs the other threads until they are idle
void coop_check();                                     // rethrows what ended another thread
bool coop_alive(int id);
void file_access(const void* f, const char* what);
void set_lock_budget(long n);                          // after n acquisitions: throws Stop
}  // namespace sx

#ifndef SX_NATIVE
namespace std {
using sx::sqrt; using sx::sin; using sx::cos; using sx::tan; using sx::asin; using sx::acos; using sx::atan;
using sx::atan2; using sx::exp; using sx::log; using sx::sinh; using sx::cosh; using sx::tanh; using sx::pow;
using sx::abs; using sx::fabs; using sx::hypot; using sx::cbrt; using sx::floor; using sx::ceil; using sx::round;
using sx::trunc; using sx::isnan; using sx::isinf; using sx::isfinite; using sx::signbit; using sx::fmin;
using sx::lround; using sx::llround; using sx::rint; using sx::nearbyint; using sx::fmax; using sx::copysign; using sx::fma; using sx::fmod;
inline sx::Real clamp(const sx::Real& v, sx::dbl lo, sx::dbl hi) { return v < sx::Real(lo) ? sx::Real(lo) : sx::Real(hi) < v ? sx::Real(hi) : v; }
inline sx::Real clamp(const sx::Real& v, const sx::Real& lo, sx::dbl hi) { return v < lo ? lo : sx::Real(hi) < v ? sx::Real(hi) : v; }
inline sx::Real clamp(const sx::Real& v, sx::dbl lo, const sx::Real& hi) { return v < sx::Real(lo) ? sx::Real(lo) : hi < v ? hi : v; }
namespace chrono { template <> struct treat_as_floating_point<sx::Real> : true_type {}; }
template <> struct common_type<sx::Real, long> { typedef sx::Real type; };
template <> struct common_type<long, sx::Real> { typedef sx::Real type; };
inline sx::Real max(const sx::Real& a, sx::dbl b) { return a < sx::Real(b) ? sx::Real(b) : a; }
inline sx::Real max(sx::dbl a, const sx::Real& b) { return sx::Real(a) < b ? b : sx::Real(a); }
inline sx::Real min(const sx::Real& a, sx::dbl b) { return sx::Real(b) < a ? sx::Real(b) : a; }
inline sx::Real min(sx::dbl a, const sx::Real& b) { return b < sx::Real(a) ? b : sx::Real(a); }
inline std::string to_string(const sx::Real& r) { return sx::show(r); }
template <class It> sx::Real accumulate(It b, It e, sx::dbl init) { sx::Real s = init; for (; b != e; ++b) s = s + *b; return s; }
template <> class numeric_limits<sx::Real> {
 public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false;
  static constexpr bool has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false;
  static constexpr bool is_bounded = true, is_modulo = false, traps = false, tinyness_before = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
  static constexpr int min_exponent = -1021, max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
  static constexpr float_denorm_style has_denorm = denorm_present;
  static constexpr bool has_denorm_loss = false;
  static constexpr float_round_style round_style = round_to_nearest;
  static constexpr sx::Real min() { return sx::Real(2.2250738585072014e-308, 0); }
  static constexpr sx::Real max() { return sx::Real(1.7976931348623157e308, 0); }
  static constexpr sx::Real lowest() { return sx::Real(-1.7976931348623157e308, 0); }
  static constexpr sx::Real epsilon() { return sx::Real(2.220446049250313e-16, 0); }
  static constexpr sx::Real round_error() { return sx::Real(0.5, 0); }
  static constexpr sx::Real infinity() { return sx::Real(__builtin_inf(), 0); }
  static constexpr sx::Real quiet_NaN() { return sx::Real(__builtin_nan(""), 0); }
  static constexpr sx::Real signaling_NaN() { return sx::Real(__builtin_nan(""), 0); }
  static constexpr sx::Real denorm_min() { return sx::Real(5e-324, 0); }
};
#ifndef SX_PLAINFLOAT
template <> class numeric_limits<sx::F32> : public numeric_limits<sx::Real> {
 public:
  static constexpr int digits = 24, digits10 = 6, max_digits10 = 9;
  static constexpr sx::F32 min() { return sx::F32(1.17549435e-38); }
  static constexpr sx::F32 max() { return sx::F32(3.40282347e38); }
  static constexpr sx::F32 lowest() { return sx::F32(-3.40282347e38); }
  static constexpr sx::F32 epsilon() { return sx::F32(1.1920929e-7); }
};
inline std::string to_string(const sx::F32& r) { return sx::show(r); }
#endif
}  // namespace std
#endif
