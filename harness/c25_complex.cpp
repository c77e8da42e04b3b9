#include "mc.hpp"
#include <cest/complex.hpp>
#include <complex>
#include <cmath>
// Operands are Gaussian integers scaled by a power of two, so that every exact result of the algebra is known
// in integers; what is representable has to come out exactly, whatever formula is used.
template <class T> const char *tn() { return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double"; }
template <class T> bool eqv(T a, T b) { return a == b; }
// num / den, exactly when that is a short binary fraction, and within rounding otherwise
template <class T> void part(const char *op, T got, long num, long den) {
  T want = (T)num / (T)den;
  bool exact = ((num * 4096) % den) == 0;
  T tol = exact ? 0 : (std::abs(want) + 1) * std::numeric_limits<T>::epsilon() * 64;
  if (!(std::abs(got - want) <= tol)) mc::fail("%s %s: a part is %.17Lg, not %.17Lg", tn<T>(), op, (long double)got, (long double)want);
}
template <class T> using C = cest::complex<T>;
template <class T> void res(const char *op, C<T> z, long re, long im, long den = 1) {
  mc::op();
  part<T>(op, z.real(), re, den); part<T>(op, z.imag(), im, den);
  if (!(cest::real(z) == z.real()) || !(cest::imag(z) == z.imag())) mc::fail("real() or imag() differ between their two forms");
}
template <class T> void binary(int g) {
  long a = mc::choose_in(-g, g), b = mc::choose_in(-g, g), c = mc::choose_in(-g, g), d = mc::choose_in(-g, g);
  mc::tr("%s (%ld,%ld) and (%ld,%ld)", tn<T>(), a, b, c, d); long n = c * c + d * d, m = a * a + b * b;
  const C<T> x((T)a, (T)b), y((T)c, (T)d); const T s = (T)c;
  mc::state((((a * 64 + b) * 64 + c) * 64 + d) * 4 + sizeof(T) / 8);
  res<T>("z+w", x + y, a + c, b + d); res<T>("z-w", x - y, a - c, b - d); res<T>("z*w", x * y, a * c - b * d, a * d + b * c);
  if (n) res<T>("z/w", x / y, a * c + b * d, b * c - a * d, n);
  res<T>("z+s", x + s, a + c, b); res<T>("s+z", s + x, c + a, b); res<T>("z-s", x - s, a - c, b); res<T>("s-z", s - x, c - a, -b);
  res<T>("z*s", x * s, a * c, b * c); res<T>("s*z", s * x, a * c, b * c); if (c) res<T>("z/s", x / s, a, b, c);
  if (m) res<T>("s/z", s / x, c * a, -c * b, m);
#define CMP(NAME, EXPR, ...) { C<T> z = x; C<T> *r = &(EXPR); res<T>(NAME, z, __VA_ARGS__); if (r != &z) mc::fail("%s does not return its left operand", NAME); }
  CMP("z+=w", z += y, a + c, b + d) CMP("z-=w", z -= y, a - c, b - d) CMP("z*=w", z *= y, a * c - b * d, a * d + b * c)
  if (n) CMP("z/=w", z /= y, a * c + b * d, b * c - a * d, n)
  CMP("z+=s", z += s, a + c, b) CMP("z-=s", z -= s, a - c, b) CMP("z*=s", z *= s, a * c, b * c) if (c) CMP("z/=s", z /= s, a, b, c)
  CMP("z=w", z = y, c, d) CMP("z=s", z = s, c, 0)
  bool eq = a == c && b == d, es = a == c && b == 0;
  if ((x == y) != eq || (x != y) == eq) mc::fail("equality of two complex numbers is wrong");
  if ((x == s) != es || (x != s) == es || (s == x) != es || (s != x) == es) mc::fail("equality with a real number is wrong");
  if (x.real() != (T)a || x.imag() != (T)b || y.real() != (T)c || y.imag() != (T)d) mc::fail("an operand changed");
}
MC_SCENARIO(binary_double, 0, 0, 8, 8) { binary<double>(mc::thorough ? 20 : 9); }
MC_SCENARIO(binary_float, 0, 0, 4, 8) { binary<float>(mc::thorough ? 14 : 6); }
MC_SCENARIO(binary_long_double, 0, 0, 4, 8) { binary<long double>(mc::thorough ? 14 : 6); }

// operands of different types, and powers of two as scale
template <class T, class U> void mixed() {
  static const long v[] = {-5, -2, -1, 0, 1, 3, 4}; long a = mc::pick(v), b = mc::pick(v), c = mc::pick(v), d = mc::pick(v), n = c * c + d * d;
  mc::tr("%s (%ld,%ld) and %s (%ld,%ld)", tn<T>(), a, b, tn<U>(), c, d); const C<T> x((T)a, (T)b); const C<U> y((U)c, (U)d);
  mc::state(((((a * 64 + b) * 64 + c) * 64 + d) * 4 + sizeof(T) / 8) * 4 + sizeof(U) / 8 + (1ull << 50));
  CMP("z+=w", z += y, a + c, b + d) CMP("z-=w", z -= y, a - c, b - d) CMP("z*=w", z *= y, a * c - b * d, a * d + b * c)
  if (n) CMP("z/=w", z /= y, a * c + b * d, b * c - a * d, n)
  CMP("z=w", z = y, c, d)
  C<T> k(y); res<T>("conversion", k, c, d); C<T> k2 = y; res<T>("conversion", k2, c, d);
}
MC_SCENARIO(mixed, 0, 0, 4, 4) {
  switch (mc::choose(6)) { case 0: mixed<double, float>(); break; case 1: mixed<float, double>(); break; case 2: mixed<long double, double>(); break;
    case 3: mixed<double, long double>(); break; case 4: mixed<float, long double>(); break; default: mixed<long double, float>(); }
}
// one operand, also as its own right-hand side; several updates in a row
template <class T> void unary(int g) {
  long a = mc::choose_in(-g, g), b = mc::choose_in(-g, g), m = a * a + b * b; const C<T> x((T)a, (T)b);
  mc::tr("%s (%ld,%ld)", tn<T>(), a, b); mc::state((a * 4096 + b) * 4 + sizeof(T) / 8 + (1ull << 52));
  res<T>("-z", -x, -a, -b); res<T>("+z", +x, a, b); res<T>("conj", cest::conj(x), a, -b);
  if (cest::norm(x) != (T)m) mc::fail("norm is %Lg", (long double)cest::norm(x));
  if (C<T>((T)a).imag() != 0 || C<T>((T)a).real() != (T)a || C<T>().real() != 0 || C<T>().imag() != 0) mc::fail("construction from a real number is wrong");
  C<T> w(x); res<T>("copy", w, a, b);
  { C<T> z; z.real((T)a); res<T>("real(v)", z, a, 0); z.imag((T)b); res<T>("imag(v)", z, a, b); z.real((T)7); res<T>("real(v)", z, 7, b); z.imag((T)-7); res<T>("imag(v)", z, 7, -7); }
  CMP("z+=z", z += z, 2 * a, 2 * b) CMP("z-=z", z -= z, 0, 0) CMP("z*=z", z *= z, a * a - b * b, 2 * a * b) if (m) CMP("z/=z", z /= z, 1, 0) CMP("z=z", z = z, a, b)
  // a scalar operand that is a copy of a part, through the accessors
  CMP("z+=re z", z += z.real(), 2 * a, b) CMP("z*=im z", z *= z.imag(), a * b, b * b) if (a) CMP("z/=re z", z /= z.real(), a, b, a)
  C<T> p[6]; long re = 1, im = 0;
  for (int k = 0; k <= 5; k++) {
    if (std::abs((long double)re) + std::abs((long double)im) > (1 << 22)) break;
    res<T>("z^k", cest::pow(x, k), re, im); long r = re * a - im * b; im = re * b + im * a; re = r;
  }
  if (m) { res<T>("1/z", cest::pow(x, -1), a, -b, m); }
}
MC_SCENARIO(unary, 0, 0, 4, 8) {
  switch (mc::choose(3)) { case 0: unary<double>(mc::thorough ? 200 : 50); break; case 1: unary<float>(mc::thorough ? 200 : 40); break; default: unary<long double>(mc::thorough ? 200 : 40); }
}
// chains of compound assignments on one object
template <class T> void chain(int depth) {
  long a = mc::choose_in(-1, 1), b = mc::choose_in(-1, 2); C<T> z((T)a, (T)b); static const int v[][2] = {{1, 0}, {0, 1}, {2, -1}, {-3, 2}};
  for (int i = 0; i < depth; i++) {
    int o = mc::choose(10); auto &w = mc::pick(v); long c = w[0], d = w[1]; C<T> y((T)c, (T)d); mc::op();
    switch (o) {
    case 0: z += y; a += c; b += d; break; case 1: z -= y; a -= c; b -= d; break;
    case 2: { z *= y; long r = a * c - b * d; b = a * d + b * c; a = r; break; }
    case 3: { z *= y; z /= y; break; }
    case 4: z += (T)c; a += c; break; case 5: z -= (T)d; a -= d; break; case 6: z *= (T)d; a *= d; b *= d; break;
    case 7: z = cest::conj(z) + y; a += c; b = -b + d; break;
    case 8: z = -z; a = -a; b = -b; break;
    default: { z *= z; long r = a * a - b * b; b = 2 * a * b; a = r; break; }
    }
    if (std::labs(a) > 2000000 || std::labs(b) > 2000000) break;
    mc::tr("op %d with (%ld,%ld)", o, c, d); res<T>("after a chain", z, a, b);
  }
  mc::state((uint64_t)a * 1000003 + b + (3ull << 50) + sizeof(T));
}
MC_SCENARIO(chain_double, 3, 4, 4, 8) { chain<double>(depth); }
MC_SCENARIO(chain_long_double, 2, 3, 2, 8) { chain<long double>(depth); }

// integral powers, exactly: of the units, of 1+i and its like, and of small numbers; exponents of every size and sign
template <class T> void powers(int big) {
  static const int zs[][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}, {2, 0}, {0, 2}, {2, 1}, {-1, 2}, {3, -2}, {0, 0}}; auto &w = mc::pick(zs); long a = w[0], b = w[1], m = a * a + b * b; int n;
  if (m == 1 && mc::choose(2)) { int e = mc::choose(31), d = mc::choose_in(-3, 3), neg = mc::choose(3); n = neg == 2 ? (e ? -1 - (int)((1u << 31) - 1) + e : -1 - (int)((1u << 31) - 1)) : (int)(1u << e) + d; if (neg == 1) n = -n; }
  else n = mc::choose_in(m == 0 ? 0 : -big, big);
  unsigned u = n < 0 ? 0u - (unsigned)n : (unsigned)n; mc::tr("%s (%ld,%ld) to the power %d", tn<T>(), a, b, n); mc::op();
  C<T> g = cest::pow(C<T>((T)a, (T)b), n); long double re, im;
  auto unit = [&](int q, long double &x, long double &y) { q &= 3; x = q == 0 ? 1 : q == 2 ? -1 : 0; y = q == 1 ? 1 : q == 3 ? -1 : 0; };
  if (m == 1) { int q = b == 0 ? (a == 1 ? 0 : 2) : b == 1 ? 1 : 3; unit((int)(u * q & 3) * (n < 0 ? -1 : 1), re, im); }
  else if (m == 2 || m == 4) {                         // an eighth of a turn, or a quarter, times a power of the root of two
    int q = m == 2 ? (a == 1 ? (b == 1 ? 1 : 7) : b == 1 ? 3 : 5) : b == 0 ? 0 : 2; int t = (int)(u * q & 7); if (n < 0) t = -t & 7; int e2 = (int)u * (m == 2 ? 1 : 2); if (n < 0) e2 = -e2;   // |z|^n = 2^(e2/2)
    if (t % 2 == 0) { unit(t / 2, re, im); re = std::ldexp(re, e2 / 2); im = std::ldexp(im, e2 / 2); }
    else { long double x, y; static const int sx[] = {1, -1, -1, 1}, sy[] = {1, 1, -1, -1}; x = sx[t / 2]; y = sy[t / 2]; re = std::ldexp(x, (e2 - 1) / 2); im = std::ldexp(y, (e2 - 1) / 2); }
    if (t % 2 && (e2 - 1) % 2) mc::internal_error("exponent");
  } else {                                             // by definition, in integers
    __int128 x = 1, y = 0; for (unsigned i = 0; i < u; i++) { __int128 r = x * a - y * b; y = x * b + y * a; x = r; if (x > (__int128)1 << 50 || y > (__int128)1 << 50 || x < -((__int128)1 << 50) || y < -((__int128)1 << 50)) return; }
    if (sizeof(T) == 4) { if (x * x + y * y > (__int128)1 << 23) return; }
    if (n < 0) { if (x * x + y * y > (__int128)1 << 44) return; long double d = (long double)(x * x + y * y); re = (long double)x / d; im = -(long double)y / d; long double e = 4 * std::numeric_limits<T>::epsilon(); mc::state(mc::hash(&n, 4, a * 16 + b));
      if (!(std::abs((long double)g.real() - re) <= e * (std::abs(re) + std::abs(im)) && std::abs((long double)g.imag() - im) <= e * (std::abs(re) + std::abs(im)))) mc::fail("%s (%ld,%ld)^%d is (%Lg,%Lg), not (%Lg,%Lg)", tn<T>(), a, b, n, (long double)g.real(), (long double)g.imag(), re, im); return; }
    re = (long double)x; im = (long double)y;
  }
  mc::state(mc::hash(&n, 4, a * 16 + b));
  if ((long double)g.real() != re || (long double)g.imag() != im) mc::fail("%s (%ld,%ld)^%d is (%Lg,%Lg), not (%Lg,%Lg)", tn<T>(), a, b, n, (long double)g.real(), (long double)g.imag(), re, im);
}
MC_SCENARIO(powers, 0, 0, 1, 2) { switch (mc::choose(3)) { case 0: powers<double>(400); break; case 1: powers<float>(50); break; default: powers<long double>(mc::thorough ? 4000 : 1000); } }
// magnitudes over the whole range of exponents
template <class T> void magnitude(int lim, int step) {
  static const int v[] = {0, 1, -1, 3, -4, 5, -12, 7, 1000, -999}; int a = mc::pick(v), b = mc::pick(v), e = mc::choose_in(-lim / step, lim / step) * step;
  T x = std::ldexp((T)a, e), y = std::ldexp((T)b, e); mc::tr("%s abs(%d,%d) * 2^%d", tn<T>(), a, b, e); mc::op(); mc::state((uint64_t)((a * 4096ll + b) * 4096 + e) * 4 + sizeof(T) / 8 + (1ull << 55));
  long double w = std::ldexp(std::sqrt((long double)(a * a + b * b)), e); T g = cest::abs(C<T>(x, y));
  if (!(std::abs((long double)g - w) <= 0.01L * w)) mc::fail("%s abs((%d,%d)*2^%d) is %Lg, not %Lg", tn<T>(), a, b, e, (long double)g, w);
}
MC_SCENARIO(magnitude, 0, 0, 2, 4) { switch (mc::choose(3)) { case 0: magnitude<double>(900, 10); break; case 1: magnitude<float>(100, 2); break; default: magnitude<long double>(900, 20); } }

// the elementary functions on a grid
template <class T> void near(const char *f, C<T> g, std::complex<T> w, T x, T y) {
  mc::op(); T e = std::abs(std::complex<T>(g.real(), g.imag()) - w);
  if (!(e <= (T)0.01 * (1 + std::abs(w)))) mc::fail("%s %s(%Lg,%Lg) is (%Lg,%Lg), not (%Lg,%Lg)", tn<T>(), f, (long double)x, (long double)y, (long double)g.real(), (long double)g.imag(), (long double)w.real(), (long double)w.imag());
}
template <class T> void elem(int n, T step) {
  T x = mc::choose_in(-n, n) * step, y = mc::choose_in(-n, n) * step; const C<T> z(x, y); const std::complex<T> s(x, y);
  mc::tr("%s (%Lg,%Lg)", tn<T>(), (long double)x, (long double)y); mc::state(mc::hash(&x, sizeof(T) > 8 ? 10 : sizeof(T), sizeof(T)) ^ mc::hash(&y, sizeof(T) > 8 ? 10 : sizeof(T)));
  bool nz = x != 0 || y != 0; T r = std::abs(s);
#define F(f) near<T>(#f, cest::f(z), std::f(s), x, y)
  F(exp); F(sin); F(cos); F(sinh); F(cosh); if (!(y == 0 && x < 0)) F(sqrt);
  if (nz) { F(log); F(log10); near<T>("arg", C<T>(cest::arg(z)), std::complex<T>(std::arg(s)), x, y); }
  if (std::abs(std::cos(s)) > 0.3) F(tan);
  if (std::abs(std::cosh(s)) > 0.3) F(tanh);
  if (x >= 0) near<T>("polar", cest::polar(x, y), std::polar(x, y), x, y);
  if (r > 0.5 && r <= 6) {
    for (int p = -4; p <= 4; p++) { T q = p / (T)2; near<T>("pow", cest::pow(z, q), std::pow(s, q), x, y); near<T>("pow", cest::pow(z, C<T>(q, (T)0.5)), std::pow(s, std::complex<T>(q, (T)0.5)), x, y); near<T>("pow", cest::pow(z, p), std::pow(s, p), x, y); }
    if (x > 0) near<T>("pow", cest::pow(x, C<T>(y, (T)0.5)), std::pow(x, std::complex<T>(y, (T)0.5)), x, y);
  }
}
MC_SCENARIO(elementary, 0, 0, 4, 8) {
  int k = mc::choose(3); bool t = mc::thorough;
  if (k == 0) elem<double>(t ? 160 : 40, t ? 0.0625 : 0.25); else if (k == 1) elem<float>(t ? 40 : 20, t ? 0.25f : 0.5f); else elem<long double>(t ? 40 : 20, t ? 0.25L : 0.5L);
}
MC_MAIN
