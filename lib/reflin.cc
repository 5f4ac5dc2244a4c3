#include "reflin.hh"
#include <algorithm>
#include <cmath>
#include <numeric>
namespace ref {
M M::fromDoubles(const double *p, int r, int c) {
  M m(r, c);
  for (size_t i = 0; i < m.a.size(); ++i) m.a[i] = p[i];
  return m;
}
std::vector<double> M::doubles() const { return std::vector<double>(a.begin(), a.end()); }
M identity(int n) { M m(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
M mul(const M &a, const M &b) {
  M m(a.r, b.c);
  for (int j = 0; j < b.c; ++j) for (int k = 0; k < a.c; ++k) { L x = b(k, j); for (int i = 0; i < a.r; ++i) m(i, j) += a(i, k) * x; }
  return m;
}
M tr(const M &a) { M m(a.c, a.r); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) m(j, i) = a(i, j); return m; }
M add(const M &a, const M &b, L s) { M m(a); for (size_t i = 0; i < m.a.size(); ++i) m.a[i] += s * b.a[i]; return m; }
L norm(const M &a) { L s = 0; for (L x : a.a) s += x * x; return std::sqrt(s); }
M cols(const M &a, int from, int n) { M m(a.r, n); std::copy(a.a.begin() + (size_t)from * a.r, a.a.begin() + (size_t)(from + n) * a.r, m.a.begin()); return m; }
M vstack(const M &a, const M &b) {
  if (!a.r) return b;
  M m(a.r + b.r, a.c);
  for (int j = 0; j < a.c; ++j) { for (int i = 0; i < a.r; ++i) m(i, j) = a(i, j); for (int i = 0; i < b.r; ++i) m(a.r + i, j) = b(i, j); }
  return m;
}
// one-sided Jacobi rotations on the columns
Svd svd(const M &in) {
  if (in.c > in.r) { Svd t = svd(tr(in)); std::swap(t.U, t.V); return t; }
  M A = in, V = identity(in.c);
  int n = in.c;
  for (int sweep = 0; sweep < 60; ++sweep) {
    bool rotated = false;
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
      L al = 0, be = 0, ga = 0;
      for (int i = 0; i < A.r; ++i) { al += A(i, p) * A(i, p); be += A(i, q) * A(i, q); ga += A(i, p) * A(i, q); }
      if (ga == 0 || std::fabs(ga) <= 1e-19L * std::sqrt(al * be)) continue;
      rotated = true;
      L ze = (be - al) / (2 * ga), t = (ze >= 0 ? 1 : -1) / (std::fabs(ze) + std::sqrt(1 + ze * ze));
      L cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
      for (int i = 0; i < A.r; ++i) { L x = A(i, p), y = A(i, q); A(i, p) = cs * x - sn * y; A(i, q) = sn * x + cs * y; }
      for (int i = 0; i < n; ++i) { L x = V(i, p), y = V(i, q); V(i, p) = cs * x - sn * y; V(i, q) = sn * x + cs * y; }
    }
    if (!rotated) break;
  }
  std::vector<L> s(n);
  for (int j = 0; j < n; ++j) { L x = 0; for (int i = 0; i < A.r; ++i) x += A(i, j) * A(i, j); s[j] = std::sqrt(x); }
  std::vector<int> o(n); std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](int x, int y) { return s[x] > s[y]; });
  Svd r; r.U = M(A.r, n); r.V = M(n, n); r.s.resize(n);
  for (int j = 0; j < n; ++j) {
    int k = o[j]; r.s[j] = s[k];
    for (int i = 0; i < A.r; ++i) r.U(i, j) = s[k] > 0 ? A(i, k) / s[k] : 0;
    for (int i = 0; i < n; ++i) r.V(i, j) = V(i, k);
  }
  return r;
}
M pinv(const M &a, L th) {
  Svd d = svd(a);
  M m(a.c, a.r);
  for (size_t k = 0; k < d.s.size(); ++k) {
    if (!(d.s[k] > th)) break;
    for (int j = 0; j < a.r; ++j) for (int i = 0; i < a.c; ++i) m(i, j) += d.V(i, k) * d.U(j, k) / d.s[k];
  }
  return m;
}
M range(const M &a, L th) {
  Svd d = svd(a);
  int k = 0;
  while (k < (int)d.s.size() && d.s[k] > th) ++k;
  return cols(d.U, 0, k);
}
M inverse(const M &in) {
  int n = in.r; M A = in, B = identity(n);
  for (int c = 0; c < n; ++c) {
    int p = c; for (int i = c + 1; i < n; ++i) if (std::fabs(A(i, c)) > std::fabs(A(p, c))) p = i;
    for (int j = 0; j < n; ++j) { std::swap(A(c, j), A(p, j)); std::swap(B(c, j), B(p, j)); }
    L x = A(c, c);
    for (int j = 0; j < n; ++j) { A(c, j) /= x; B(c, j) /= x; }
    for (int i = 0; i < n; ++i) if (i != c) { L f = A(i, c); if (f != 0) for (int j = 0; j < n; ++j) { A(i, j) -= f * A(c, j); B(i, j) -= f * B(c, j); } }
  }
  return B;
}
}  // namespace ref
