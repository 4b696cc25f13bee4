#ifndef IMODEL_H
#define IMODEL_H
#include "kmodels.h"
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h>
namespace W {
// 0 = f(x, z): the delivered measurement is the parameter of f, the virtual measurement is what f should have been
struct Imp : public LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
  Fun f; int ident; ColumnVector fx; Matrix D, SR; SymmetricMatrix R; ref::V x, u;
  Imp(const Fun& f_, bool id) : f(f_), ident(id), fx(f_.m), D(f_.m, f_.m), SR(f_.m, f_.m), R(f_.m) { D = 0.0; for (int i = 1; i <= f.m; i++) D(i, i) = 1; lin(ref::V(f.n, 0), ref::V(f.nu, 0)); }
  void lin(const ref::V& x_, const ref::V& u_) { sim::NoSut n; model_cb(); x = x_; u = u_; fx = cv(f.f(x, u)); ref::M S = f.S(x, u); R = csym(S); SR = 0.0; for (int i = 0; i < f.m; i++) SR(i + 1, i + 1) = std::sqrt((double)S(i, i)); }
  ref::V par(const ColumnVector& z) const { return f.nu ? rv(z) : ref::V(); }
  virtual const ColumnVector& fGet() const { return fx; }
  virtual const int TypeGet() const { return 0; }
  virtual Matrix& dfGet(int) { sim::NoSut n; D = cm(f.F(x, u)); return D; }
  virtual Matrix df_dxGet(const ColumnVector& z, const ColumnVector& xx) { sim::NoSut n; lin(rv(xx), par(z)); return cm(f.F(x, u)); }
  virtual Matrix& df_dzGet(const ColumnVector& z, const ColumnVector& xx) { sim::NoSut n; lin(rv(xx), par(z)); return D; }
  virtual ColumnVector PredictionGet(const ColumnVector& z, const ColumnVector& xx) { sim::NoSut n; lin(rv(xx), par(z)); return fx; }
  virtual ColumnVector ExpectedValueGet() { return fx; }
  virtual SymmetricMatrix& CovarianceGet() { return R; }
  virtual SymmetricMatrix CovarianceGet(const ColumnVector& z, const ColumnVector& xx) { sim::NoSut n; lin(rv(xx), par(z)); return R; }
  virtual void Calculate(const ColumnVector& xx, const ColumnVector& z, const Matrix&) { sim::NoSut n; lin(rv(xx), par(z)); }
  virtual const Matrix& SRCovariance() const { return SR; }
  virtual const int& Is_Identity() const { return ident; }
};
inline Fun imodel(Sim& s, int n, bool lin, bool id) { Fun f = mkfun(s, n, s.range(1, 4), s.draw(2) ? s.range(1, 2) : 0, lin, 0.05, 1.0, false); if (id) for (int i = 0; i < f.m; i++) for (int j = 0; j < f.m; j++) if (i != j) f.C(i, j) = 0; return f; }
}
#endif
