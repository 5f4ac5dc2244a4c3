// A small dense linear algebra in extended precision, written for the checks
// so that their reference computations do not share code with what they judge.
#ifndef VERIF_REFLIN_HH
#define VERIF_REFLIN_HH
#include <cstddef>
#include <vector>
namespace ref {
typedef long double L;
struct M {
  int r, c;
  std::vector<L> a;
  M(int r_ = 0, int c_ = 0) : r(r_), c(c_), a((std::size_t)r_ * c_, 0) {}
  L &operator()(int i, int j) { return a[(std::size_t)j * r + i]; }
  L operator()(int i, int j) const { return a[(std::size_t)j * r + i]; }
  static M fromDoubles(const double *p, int r, int c);
  std::vector<double> doubles() const;
};
M identity(int n);
M mul(const M &a, const M &b);
M tr(const M &a);
M add(const M &a, const M &b, L s = 1);  // a + s b
L norm(const M &a);
M cols(const M &a, int from, int n);
M vstack(const M &a, const M &b);
// thin singular value decomposition, singular values in decreasing order
struct Svd { M U, V; std::vector<L> s; };
Svd svd(const M &a);
M pinv(const M &a, L threshold);
// orthonormal basis of the range of a, directions above the threshold
M range(const M &a, L threshold);
M inverse(const M &a);
}  // namespace ref
#endif
