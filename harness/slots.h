// Reference slots: evaluation at the 5^i-th odd powers of the 2N-th root of unity, in long double.
#pragma once
#include "ref.h"
#include <memory>
namespace ref {
using ld = long double; using cld = std::complex<long double>;
struct Zeta {
	int N; std::vector<cld> t; std::vector<int> five;
	explicit Zeta(int n) : N(n), t(2 * n), five(n / 2) {
		for (int k = 0; k < 2 * n; k++) { ld a = 3.141592653589793238462643383279502884L * k / n; t[k] = cld(cosl(a), sinl(a)); }
		long p = 1; for (int i = 0; i < n / 2; i++) { five[i] = (int)p; p = p * 5 % (2 * n); }
	}
	template <class V> cld eval(const V& m, int i) const {
		cld s = 0; long e = five[i]; int mask = 2 * N - 1; unsigned at = 0;
		for (int k = 0; k < N; k++, at = (at + e) & mask) s += t[at] * (ld)m[k];
		return s;
	}
	template <class V> ld coeff(const V& zr, const V& zi, int k) const {
		ld s = 0; int mask = 2 * N - 1;
		for (int i = 0; i < N / 2; i++) { const cld& w = t[((long)five[i] * k) & mask]; s += w.real() * (ld)zr[i] + w.imag() * (ld)zi[i]; }
		return 2 * s / N;
	}
	static const Zeta& of(int n) { static std::map<int, std::unique_ptr<Zeta>> c; auto& p = c[n]; if (!p) p.reset(new Zeta(n)); return *p; }
};
inline const ld EPS = 0x1p-52L;
// values of one style; magnitude up to 2^logmag
inline void gen_reals(Gen& g, double* x, int n, double mag) {
	switch (g.below(8)) {
	case 0: for (int i = 0; i < n; i++) x[i] = 0; g.label("reals:zero"); break;
	case 1: for (int i = 0; i < n; i++) x[i] = 0; x[g.below(n)] = mag * g.unit(); g.label("reals:single"); break;
	case 2: { double v = mag * g.unit(); for (int i = 0; i < n; i++) x[i] = v; g.label("reals:constant"); break; }
	case 3: { bool alt = g.below(2); for (int i = 0; i < n; i++) x[i] = alt && (i & 1) ? -mag : mag; g.label("reals:largest"); break; }
	case 4: { Rng r = g.bulk(); for (int i = 0; i < n; i++) x[i] = r.below(8) ? (r.below(2) ? 0.0 : -0.0) : mag * r.unit(); g.label("reals:sparse"); break; }
	case 5: { Rng r = g.bulk(); for (int i = 0; i < n; i++) x[i] = std::ldexp(mag * r.unit(), -(int)r.below(60)); g.label("reals:wide range"); break; }
	default: { Rng r = g.bulk(); for (int i = 0; i < n; i++) x[i] = mag * r.unit(); g.label("reals:dense"); }
	}
}
template <class V> ld l1(const V& x, int n) { ld s = 0; for (int i = 0; i < n; i++) s += fabsl((ld)x[i]); return s; }
// the slots looked at: all of them, or both ends and some at random
inline std::vector<int> slots_of(Gen& g, int n, int full, int some) {
	std::vector<int> k; if (n <= full) for (int i = 0; i < n; i++) k.push_back(i);
	else { k = {0, n - 1, n / 2}; for (int i = 0; i < some; i++) k.push_back((int)g.below(n)); }
	return k;
}
} // namespace ref
