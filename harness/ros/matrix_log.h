#pragma once
#include <Eigen/Dense>
namespace Eigen {
namespace internal { template <typename D> struct traits<MatrixLogarithmReturnValue<D>> { typedef typename D::PlainObject ReturnType; }; }
template <typename D> class MatrixLogarithmReturnValue : public ReturnByValue<MatrixLogarithmReturnValue<D>> {
  const typename D::PlainObject m_;
 public:
  explicit MatrixLogarithmReturnValue(const D& m) : m_(m) {}
  template <typename R> void evalTo(R& r) const {
    eigen_assert(m_.rows() == 4 && m_.cols() == 4); std::vector<sx::Real> v; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) v.push_back(m_(i, j));
    std::vector<sx::Real> l = sx::matlog(v); r.resize(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.coeffRef(i, j) = l[4 * i + j];
  }
  Index rows() const { return m_.rows(); } Index cols() const { return m_.cols(); }
};
template <typename D> const MatrixLogarithmReturnValue<D> MatrixBase<D>::log() const { return MatrixLogarithmReturnValue<D>(derived()); }
}
