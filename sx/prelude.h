// Force-included before every source file of the repository and every harness.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <filesystem>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <ratio>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
namespace sx { struct EigenAssert { const char* expr; const char* file; int line; };
[[noreturn]] void eigen_assert_failed(const char* e, const char* f, int l); }
#define eigen_assert(x) do { if (!(x)) ::sx::eigen_assert_failed(#x, __FILE__, __LINE__); } while (0)
#include "sx.h"
#ifndef SX_NATIVE
#include <Eigen/Core>
namespace Eigen {
template <> struct NumTraits<sx::Real> : GenericNumTraits<sx::Real> {
  typedef sx::Real Real; typedef sx::Real NonInteger; typedef sx::Real Nested; typedef sx::Real Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 2, MulCost = 2 };
  static inline sx::Real epsilon() { return sx::Real(2.220446049250313e-16); }
  static inline sx::Real dummy_precision() { return sx::Real(1e-12); }
  static inline sx::Real highest() { return std::numeric_limits<sx::Real>::max(); }
  static inline sx::Real lowest() { return std::numeric_limits<sx::Real>::lowest(); }
  static inline sx::Real infinity() { return std::numeric_limits<sx::Real>::infinity(); }
  static inline sx::Real quiet_NaN() { return std::numeric_limits<sx::Real>::quiet_NaN(); }
  static inline int digits10() { return 15; }
};
#ifndef SX_PLAINFLOAT
template <> struct NumTraits<sx::F32> : GenericNumTraits<sx::F32> {
  typedef sx::F32 Real; typedef sx::F32 NonInteger; typedef sx::F32 Nested; typedef sx::F32 Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 2, MulCost = 2 };
  static inline sx::F32 epsilon() { return sx::F32(1.1920929e-7); }
  static inline sx::F32 dummy_precision() { return sx::F32(1e-5); }
  static inline sx::F32 highest() { return sx::F32(3.40282347e38); }
  static inline sx::F32 lowest() { return sx::F32(-3.40282347e38); }
  static inline int digits10() { return 6; }
};
#endif
}
#endif
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <yaml-cpp/yaml.h>
#include <boost/bind.hpp>
#include <boost/circular_buffer.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>

// ---- std models ----------------------------------------------------------------------------
namespace std {
class sx_mutex : public sx::MutexState {
 public:
  sx_mutex() {}
  sx_mutex(const sx_mutex&) = delete;
  void lock() { acquire(); }
  bool try_lock() { return try_acquire(); }
  void unlock() { release(); }
};
template <class T, class Cn = std::deque<T>> class sx_queue {
  Cn c_;
 public:
  typedef T value_type; typedef Cn container_type; typedef typename Cn::size_type size_type;
  typedef T& reference; typedef const T& const_reference;
  sx_queue() { sx::queue_born(this); }
  explicit sx_queue(const Cn& c) : c_(c) { sx::queue_born(this); }
  sx_queue(const sx_queue& o) : c_((sx::queue_access(&o, "copy"), o.c_)) { sx::queue_born(this); }
  sx_queue(sx_queue&& o) : c_((sx::queue_access(&o, "move"), std::move(o.c_))) { sx::queue_born(this); }
  sx_queue& operator=(const sx_queue& o) { sx::queue_access(&o, "copy"); sx::queue_access(this, "assign"); c_ = o.c_; return *this; }
  sx_queue& operator=(sx_queue&& o) { sx::queue_access(&o, "move"); sx::queue_access(this, "assign"); c_ = std::move(o.c_); return *this; }
  bool empty() const { sx::queue_access(this, "empty"); return c_.empty(); }
  size_type size() const { sx::queue_access(this, "size"); return c_.size(); }
  T& front() { sx::queue_access(this, "front"); if (c_.empty()) sx::queue_underflow("front"); return c_.front(); }
  const T& front() const { sx::queue_access(this, "front"); if (c_.empty()) sx::queue_underflow("front"); return c_.front(); }
  T& back() { sx::queue_access(this, "back"); if (c_.empty()) sx::queue_underflow("back"); return c_.back(); }
  const T& back() const { sx::queue_access(this, "back"); if (c_.empty()) sx::queue_underflow("back"); return c_.back(); }
  void push(const T& v) { sx::queue_access(this, "push"); c_.push_back(v); }
  void push(T&& v) { sx::queue_access(this, "push"); c_.push_back(std::move(v)); }
  template <class... A> decltype(auto) emplace(A&&... a) { sx::queue_access(this, "push"); return c_.emplace_back(std::forward<A>(a)...); }
  void pop() { sx::queue_access(this, "pop"); if (c_.empty()) sx::queue_underflow("pop"); c_.pop_front(); }
  void swap(sx_queue& o) { sx::queue_access(this, "swap"); sx::queue_access(&o, "swap"); c_.swap(o.c_); }
};
template <class T, class Cn> void swap(sx_queue<T, Cn>& a, sx_queue<T, Cn>& b) { a.swap(b); }
class sx_thread {
  std::function<void()> f_;
  bool joinable_ = false; int id_ = 0;
 public:
  typedef int id;
  sx_thread() {}
  template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, sx_thread>::value>::type>
  explicit sx_thread(F&& f, A&&... a) : f_(std::bind(std::forward<F>(f), std::forward<A>(a)...)), joinable_(true) { last() = f_; id_ = sx::coop_spawn(f_); }
  sx_thread(sx_thread&& o) : f_(std::move(o.f_)), joinable_(o.joinable_), id_(o.id_) { o.joinable_ = false; }
  sx_thread& operator=(sx_thread&& o) {
    if (joinable_) sx::thread_event("assignment to a running thread");
    f_ = std::move(o.f_); joinable_ = o.joinable_; id_ = o.id_; o.joinable_ = false; return *this;
  }
  ~sx_thread() { if (joinable_) sx::thread_event("running thread destroyed"); }
  bool joinable() const { return joinable_; }
  void join() { if (!joinable_) sx::thread_event("join of a thread that does not run"); joinable_ = false; sx::coop_join(id_); }
  void detach() { joinable_ = false; }
  static std::function<void()>& last() { static std::function<void()> f; return f; }
  int coop_id() const { return id_; }
};
// file streams report the accesses that start an output expression
class sx_ofstream : public std::ofstream {
 public:
  using std::ofstream::ofstream;
  sx_ofstream() {}
  sx_ofstream(sx_ofstream&&) = default;
  sx_ofstream& operator=(sx_ofstream&&) = default;
  template <class... A> void open(A&&... a) { sx::file_access(this, "open"); std::ofstream::open(std::forward<A>(a)...); }
  void close() { sx::file_access(this, "close"); std::ofstream::close(); }
};
template <class T> inline std::ostream& operator<<(sx_ofstream& o, const T& v) { sx::file_access(&o, "write"); return static_cast<std::ostream&>(o) << v; }
inline std::ostream& operator<<(sx_ofstream& o, std::ostream& (*f)(std::ostream&)) { sx::file_access(&o, "write"); return static_cast<std::ostream&>(o) << f; }
}  // namespace std

#ifndef SX_NATIVE
namespace YAML {
template <> struct convert<sx::Real> {
  static Node encode(const sx::Real& r) { return Node(sx::show(r)); }
  static bool decode(const Node& n, sx::Real& r) {
    if (!n.IsScalar()) return false;
    const std::string& s = n.Scalar();
    if (!s.empty() && s[0] == '@') { r = sx::parse_real(s); return true; }
    double d;
    if (!convert<double>::decode(n, d)) return false;
    r = sx::Real(d);
    return true;
  }
};
#ifndef SX_PLAINFLOAT
template <> struct convert<sx::F32> {
  static Node encode(const sx::F32& r) { return Node(sx::show(r)); }
  static bool decode(const Node& n, sx::F32& r) { sx::Real v; if (!convert<sx::Real>::decode(n, v)) return false; r = sx::F32(v); return true; }
};
#endif
}  // namespace YAML
namespace Eigen {
#define SX_TD(name, ...) typedef __VA_ARGS__ name##R;
SX_TD(MatrixX, Matrix<sx::Real, Dynamic, Dynamic>) SX_TD(Matrix2, Matrix<sx::Real, 2, 2>) SX_TD(Matrix3, Matrix<sx::Real, 3, 3>)
SX_TD(Matrix4, Matrix<sx::Real, 4, 4>) SX_TD(VectorX, Matrix<sx::Real, Dynamic, 1>) SX_TD(Vector2, Matrix<sx::Real, 2, 1>)
SX_TD(Vector3, Matrix<sx::Real, 3, 1>) SX_TD(Vector4, Matrix<sx::Real, 4, 1>) SX_TD(RowVectorX, Matrix<sx::Real, 1, Dynamic>)
SX_TD(RowVector2, Matrix<sx::Real, 1, 2>) SX_TD(RowVector3, Matrix<sx::Real, 1, 3>) SX_TD(RowVector4, Matrix<sx::Real, 1, 4>)
SX_TD(Matrix3X, Matrix<sx::Real, 3, Dynamic>) SX_TD(MatrixX3, Matrix<sx::Real, Dynamic, 3>) SX_TD(Quaternion, Quaternion<sx::Real>)
SX_TD(Matrix2X, Matrix<sx::Real, 2, Dynamic>) SX_TD(Matrix4X, Matrix<sx::Real, 4, Dynamic>)
SX_TD(AngleAxis, AngleAxis<sx::Real>) SX_TD(Affine3, Transform<sx::Real, 3, Affine>) SX_TD(Isometry3, Transform<sx::Real, 3, Isometry>)
SX_TD(ArrayX, Array<sx::Real, Dynamic, 1>) SX_TD(ArrayXX, Array<sx::Real, Dynamic, Dynamic>) SX_TD(Array3, Array<sx::Real, 3, 1>) SX_TD(Array33, Array<sx::Real, 3, 3>)
#undef SX_TD
// Inverses and solvers of symbolic matrices, by contract (see sx::matinv).
namespace internal {
template <typename M, typename R> void sx_inverse(const M& m, R& r) {
  const int n = (int)m.rows();
  std::vector<sx::Real> v; v.reserve(n * n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v.push_back(m.coeff(i, j));
  std::vector<sx::Real> w = sx::matinv(v, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.coeffRef(i, j) = w[i * n + j];
}
#define SX_INV(SIZE)                                                                        \
  template <int R_, int C_, int O_, int MR_, int MC_, typename Res>                         \
  struct compute_inverse<Matrix<sx::Real, R_, C_, O_, MR_, MC_>, Res, SIZE> {               \
    static inline void run(const Matrix<sx::Real, R_, C_, O_, MR_, MC_>& m, Res& r) { sx_inverse(m, r); } \
  };
SX_INV(1) SX_INV(2) SX_INV(3) SX_INV(4) SX_INV(5) SX_INV(6) SX_INV(Dynamic)
#undef SX_INV
}  // namespace internal
template <typename MatType> struct SxSolver {
  Matrix<sx::Real, Dynamic, Dynamic> inv_, mat_;
  sx::Real determinant() const {
    std::vector<sx::Real> v;
    for (int i = 0; i < mat_.rows(); i++) for (int j = 0; j < mat_.cols(); j++) v.push_back(mat_(i, j));
    return sx::matdet(v, (int)mat_.rows());
  }
  ComputationInfo info() const { return Success; }
  template <typename D> void sx_compute(const D& m) {
    Matrix<sx::Real, Dynamic, Dynamic> t = m; mat_ = t; inv_.resize(t.rows(), t.cols()); internal::sx_inverse(t, inv_);
  }
  template <typename D> Matrix<sx::Real, Dynamic, Dynamic> solve(const MatrixBase<D>& b) const { return inv_ * b; }
  Matrix<sx::Real, Dynamic, Dynamic> inverse() const { return inv_; }
  bool isInvertible() const { return true; }
  bool isPositive() const { return true; }
};
#define SX_SOLVER(NAME)                                                                              \
  template <int R_, int C_, int O_, int MR_, int MC_>                                                \
  class NAME<Matrix<sx::Real, R_, C_, O_, MR_, MC_>> : public SxSolver<Matrix<sx::Real, R_, C_, O_, MR_, MC_>> { \
   public:                                                                                           \
    NAME() {}                                                                                        \
    template <typename D> explicit NAME(const EigenBase<D>& m) { this->sx_compute(m.derived()); }    \
    template <typename D> NAME& compute(const EigenBase<D>& m) { this->sx_compute(m.derived()); return *this; } \
  };
SX_SOLVER(PartialPivLU) SX_SOLVER(FullPivLU) SX_SOLVER(ColPivHouseholderQR) SX_SOLVER(HouseholderQR) SX_SOLVER(FullPivHouseholderQR)
SX_SOLVER(CompleteOrthogonalDecomposition)
#undef SX_SOLVER
#define SX_SOLVER(NAME)                                                                              \
  template <int R_, int C_, int O_, int MR_, int MC_, int U_>                                        \
  class NAME<Matrix<sx::Real, R_, C_, O_, MR_, MC_>, U_> : public SxSolver<Matrix<sx::Real, R_, C_, O_, MR_, MC_>> { \
   public:                                                                                           \
    NAME() {}                                                                                        \
    template <typename D> explicit NAME(const EigenBase<D>& m) { this->sx_compute(m.derived()); }    \
    template <typename D> NAME& compute(const EigenBase<D>& m) { this->sx_compute(m.derived()); return *this; } \
  };
SX_SOLVER(LLT) SX_SOLVER(LDLT)
#undef SX_SOLVER
}  // namespace Eigen

#define MatrixXd MatrixXR
#define Matrix2d Matrix2R
#define Matrix3d Matrix3R
#define Matrix4d Matrix4R
#define VectorXd VectorXR
#define Vector2d Vector2R
#define Vector3d Vector3R
#define Vector4d Vector4R
#define RowVectorXd RowVectorXR
#define RowVector2d RowVector2R
#define RowVector3d RowVector3R
#define RowVector4d RowVector4R
#define Matrix3Xd Matrix3XR
#define MatrixX3d MatrixX3R
#define Matrix2Xd Matrix2XR
#define Matrix4Xd Matrix4XR
#define Quaterniond QuaternionR
#define AngleAxisd AngleAxisR
#define Affine3d Affine3R
#define Isometry3d Isometry3R
#define ArrayXd ArrayXR
#define ArrayXXd ArrayXXR
#define Array3d Array3R
#define Array33d Array33R
#ifndef SX_PLAINFLOAT
#define SX_TF(name, ...) typedef __VA_ARGS__ name##F;
namespace Eigen {
SX_TF(MatrixX, Matrix<sx::F32, Dynamic, Dynamic>) SX_TF(Matrix2, Matrix<sx::F32, 2, 2>) SX_TF(Matrix3, Matrix<sx::F32, 3, 3>) SX_TF(Matrix4, Matrix<sx::F32, 4, 4>)
SX_TF(VectorX, Matrix<sx::F32, Dynamic, 1>) SX_TF(Vector2, Matrix<sx::F32, 2, 1>) SX_TF(Vector3, Matrix<sx::F32, 3, 1>) SX_TF(Vector4, Matrix<sx::F32, 4, 1>)
SX_TF(Quaternion, Quaternion<sx::F32>) SX_TF(AngleAxis, AngleAxis<sx::F32>)
}
#undef SX_TF
#define MatrixXf MatrixXF
#define Matrix2f Matrix2F
#define Matrix3f Matrix3F
#define Matrix4f Matrix4F
#define VectorXf VectorXF
#define Vector2f Vector2F
#define Vector3f Vector3F
#define Vector4f Vector4F
#define Quaternionf QuaternionF
#define AngleAxisf AngleAxisF
#else
#define MatrixXf MatrixXR
#define Matrix3f Matrix3R
#define Matrix4f Matrix4R
#define VectorXf VectorXR
#define Vector2f Vector2R
#define Vector3f Vector3R
#define Vector4f Vector4R
#define Quaternionf QuaternionR
#endif
#define double ::sx::Real
#define float ::sx::F32
#endif
#define mutex sx_mutex
#define recursive_mutex sx_mutex
#define queue sx_queue
#define thread sx_thread
#define ofstream sx_ofstream
