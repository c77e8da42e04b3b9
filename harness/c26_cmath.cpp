#include "mc.hpp"
#include <cest/cmath.hpp>
#include <cmath>
#include <limits>
// Every call is made at run time through pointers the compiler cannot see through.
static double (*volatile f_sqrt)(double) = cest::sqrt, (*volatile f_log)(double) = cest::log, (*volatile f_exp)(double) = cest::exp,
  (*volatile f_sin)(double) = cest::sin, (*volatile f_cos)(double) = cest::cos, (*volatile f_sinh)(double) = cest::sinh, (*volatile f_cosh)(double) = cest::cosh,
  (*volatile f_atan)(double) = cest::atan, (*volatile f_abs)(double) = cest::abs, (*volatile f_fabs)(double) = cest::fabs, (*volatile f_atan2)(double, double) = cest::atan2;
// within 0.1 %; what passes through zero at points no double hits (log, sin, cos) may be 0.002 off instead
static void near(const char *f, double x, double got, double want) {
  mc::op(); bool loose = f[0] == 'l' || (f[0] == 's' && f[1] == 'i' && !f[3]) || (f[0] == 'c' && !f[3]);
  if (!(std::abs(got - want) <= std::max(0.001 * std::abs(want), loose ? 0.002 : 0.0))) mc::fail("%s(%.17g) is %.17g, not %.17g", f, x, got, want);
}
static void is(const char *f, double x, double got, double want) {
  mc::op(); if (!(got == want || (std::isnan(got) && std::isnan(want)))) mc::fail("%s(%.17g) is %.17g, not %.17g", f, x, got, want);
}
static void st(double x, int k) { mc::state(mc::hash(&x, sizeof x, k)); }
// a block of consecutive grid points is one choice: x = (i + j) / den
template <class F> void grid(long lo, long hi, long den, F f) {        // lo/den .. hi/den
  long n = hi - lo + 1, per = 256; long b = mc::choose((int)((n + per - 1) / per));
  mc::tr("from %.10g", (double)(lo + b * per) / den);
  for (long j = 0; j < per && b * per + j < n; j++) { double x = (double)(lo + b * per + j) / den; f(x); }
}
static void posi(double x) { st(x, 1); if (x <= 0) return; near("sqrt", x, f_sqrt(x), std::sqrt(x)); near("log", x, f_log(x), std::log(x)); }
MC_SCENARIO(roots_fine, 0, 0, 4, 8) { grid(0, mc::thorough ? 16 << 16 : 16 << 12, mc::thorough ? 1 << 16 : 1 << 12, posi); }
MC_SCENARIO(roots_wide, 0, 0, 4, 8) { int d = mc::thorough ? 256 : 16; grid(0, 10000L * d, d, posi); }
// every power of two and a few neighbours of it, and the same next to powers of ten, where the decimal reduction steps
MC_SCENARIO(roots_steps, 0, 0, 1, 1) {
  int e = mc::choose_in(-13, 13); bool ten = mc::choose(2); double b = ten ? std::pow(10.0, e / 3) : std::ldexp(1.0, e);
  mc::tr("around %.10g", b);
  double up = b, dn = b; for (int i = 0; i < 200; i++) { posi(up); posi(dn); posi(b * (1 + i * 1e-5)); posi(b * (1 - i * 1e-5)); up = std::nextafter(up, 1e9); dn = std::nextafter(dn, 0); }
}
static void tens(double x) {
  st(x, 2);
  near("exp", x, f_exp(x), std::exp(x)); near("sin", x, f_sin(x), std::sin(x)); near("cos", x, f_cos(x), std::cos(x));
  near("sinh", x, f_sinh(x), std::sinh(x)); near("cosh", x, f_cosh(x), std::cosh(x)); near("atan", x, f_atan(x), std::atan(x));
}
MC_SCENARIO(transcendental, 0, 0, 8, 8) { int d = mc::thorough ? 1 << 14 : 1 << 9; grid(-40L * d, 40L * d, d, tens); }
MC_SCENARIO(transcendental_zero, 0, 0, 2, 4) { int d = 1 << 20, w = mc::thorough ? 1 << 18 : 1 << 15; grid(-w, w, d, tens); }
MC_SCENARIO(arctangent_wide, 0, 0, 2, 4) { int d = mc::thorough ? 1024 : 64; grid(-1000L * d, 1000L * d, d, [](double x) { st(x, 3); near("atan", x, f_atan(x), std::atan(x)); }); }
MC_SCENARIO(transcendental_steps, 0, 0, 1, 1) {      // around the points where a reduction changes branch
  int k = mc::choose_in(-24, 24), w = mc::choose(4); double b = w == 0 ? k * 1.5707963267948966 : w == 1 ? k * 0.5 : w == 2 ? (k < 0 ? -1 : 1) * (2 - std::sqrt(3.0)) * (1 + std::abs(k) / 8) : 0.001 * k;
  mc::tr("around %.10g", b); double up = b, dn = b;
  for (int i = 0; i < 100; i++) { tens(up); tens(dn); tens(b + i * 1e-5); tens(b - i * 1e-5); up = std::nextafter(up, 1e9); dn = std::nextafter(dn, -1e9); }
}
MC_SCENARIO(transcendental_tiny, 0, 0, 1, 1) {       // every binary magnitude down to 2^-60, both signs
  int e = mc::choose_in(1, 60), neg = mc::choose(2); double b = std::ldexp(neg ? -1.0 : 1.0, -e); mc::tr("from %.10g", b); for (int i = 0; i < 64; i++) tens(b * (1 + i / 64.0));
}
static void at2(double y, double x) {
  if (x == 0 && y == 0) return; mc::op(); double g = f_atan2(y, x), w = std::atan2(y, x);
  if (!(std::abs(g - w) <= 0.001 * std::abs(w))) mc::fail("atan2(%.17g, %.17g) is %.17g, not %.17g", y, x, g, w);
}
MC_SCENARIO(quadrants, 0, 0, 4, 8) {
  int n = mc::thorough ? 640 : 160, d = mc::thorough ? 16 : 4; int i = mc::choose_in(-n, n); double y = i ? (double)i / d : 0.0; mc::tr("atan2(%g, ...)", y);
  for (int j = -n; j <= n; j++) { double x = j ? (double)j / d : 0.0; at2(y, x); st(x * 10000 + y, 4); }
}
MC_SCENARIO(quadrant_scales, 0, 0, 1, 1) {            // ratios over many magnitudes
  int a = mc::choose_in(-10, 13), b = mc::choose_in(-10, 13), s = mc::choose(4); double y = std::ldexp(s & 1 ? -1.0 : 1.0, a), x = std::ldexp(s & 2 ? -1.0 : 1.0, b);
  mc::tr("atan2(%g, %g)", y, x); if (std::abs(y / x) > 10000 || std::abs(x / y) > 10000) return; for (int i = 0; i < 8; i++) at2(y * (1 + i / 8.0), x); st(x * 7 + y, 5);
}
static void exactf(double x) {
  st(x, 6); is("abs", x, f_abs(x), std::fabs(x)); is("fabs", x, f_fabs(x), std::fabs(x));
  double f = std::floor(x), c = std::ceil(x);
  if (f >= -2147483648.0 && f <= 2147483647.0) is("floor", x, cest::floor(x), f);
  if (c >= -2147483648.0 && c <= 2147483647.0) is("ceil", x, cest::ceil(x), c);
}
MC_SCENARIO(rounding, 0, 0, 2, 8) { int d = mc::thorough ? 4096 : 256; grid(-1000L * d, 1000L * d, d, exactf); }
MC_SCENARIO(rounding_steps, 0, 0, 4, 8) {             // the neighbours of each integer, and of the edges of the range
  int n = mc::thorough ? 100000 : 10000; int w = mc::choose(5), k = mc::choose(n / 100);
  for (int j = 0; j < 100; j++) {
    long i = k * 100L + j; double b = w == 0 ? (double)i : w == 1 ? -(double)i : w == 2 ? 2147483647.0 - i : w == 3 ? -2147483648.0 + i : std::ldexp(1.0, i % 31) * (i & 32 ? -1 : 1) + (i >> 6);
    if (!j) mc::tr("from %.17g", b);
    exactf(b); double u = b, d = b; for (int t = 0; t < 3; t++) { u = std::nextafter(u, 1e10); d = std::nextafter(d, -1e10); exactf(u); exactf(d); }
    exactf(b + 0.5); exactf(b - 0.5); exactf(b + 0.25); exactf(b - 0.25);
  }
}
MC_SCENARIO(powers, 0, 0, 2, 8) {
  int d = mc::thorough ? 64 : 8, i = mc::choose_in(-16 * d, 16 * d), n = mc::choose_in(-40, 40); double x = (double)i / d; mc::tr("pow(%g, %d)", x, n); mc::op(); st(x, 1000 + n);
  if (x == 0 && n < 0) return;
  double g = cest::pow(x, n), w = std::pow(x, n); bool exact = n >= 0 && i == (i / d) * d && std::abs(w) < 9007199254740992.0;
  if (exact ? g != w : !(std::abs(g - w) <= std::abs(w) * 1e-12)) mc::fail("pow(%.17g, %d) is %.17g, not %.17g", x, n, g, w);
}
// any exponent at all, of bases so near to one that the power is an ordinary number
MC_SCENARIO(powers_big, 0, 0, 1, 1) {
  int bits = mc::choose_in(1, 31), form = mc::choose(6), neg = mc::choose(2), d = mc::choose_in(-2, 2);
  long m = (1L << bits) + d; if (m < 1) m = 1; if (m > 2147483647L) m = neg ? 2147483648L : 2147483647L; int n = (int)(neg ? -m : m);
  double x = form == 0 ? 1.0 : form == 1 ? -1.0 : (form & 1 ? -1.0 : 1.0) * (1.0 + (form < 4 ? 1.0 : -0.5) / (double)(1L << bits));
  mc::tr("pow(%.17g, %d)", x, n); mc::op(); st(x, n);
  double g = cest::pow(x, n), w = std::pow(x, n);
  if (form < 2 ? g != w : !(std::abs(g - w) <= std::abs(w) * (1e-12 + m * 2.3e-16))) mc::fail("pow(%.17g, %d) is %.17g, not %.17g", x, n, g, w);
}
MC_SCENARIO(special, 0, 0, 1, 1) {
  double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  switch (mc::choose(10)) {
  case 0: is("sqrt", 0, f_sqrt(0), 0); break; case 1: is("sqrt", inf, f_sqrt(inf), inf); break; case 2: is("sqrt", -4, f_sqrt(-4), nan); break; case 3: is("sqrt", nan, f_sqrt(nan), nan); break;
  case 4: is("log", 0, f_log(0), -inf); break; case 5: is("log", -1, f_log(-1), nan); break; case 6: is("log", inf, f_log(inf), inf); break;
  case 7: is("abs", -inf, f_abs(-inf), inf); break; case 8: is("atan2", 0, f_atan2(0, 0), 0); break;
  case 9: near("exp", 0, f_exp(0), 1); near("sin", 0, f_sin(0), 0); near("cos", 0, f_cos(0), 1); near("sinh", 0, f_sinh(0), 0); near("cosh", 0, f_cosh(0), 1); near("atan", 0, f_atan(0), 0); break;
  }
  mc::state(1);
}
MC_MAIN
