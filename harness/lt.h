// Sums of rotated and scaled slot vectors: reference values and worst-case error bounds.
#pragma once
#include "he.h"
namespace ref {
using Vec = std::vector<cld>;
struct Diag { int off; Vec v; };
using Layer = std::vector<Diag>;
// exact value T and error bound E of every slot, in units of the scale reached so far
struct Slots { Vec t; std::vector<ld> e; };
inline Vec apply(const Layer& A, const Vec& z) { int H = (int)z.size(); Vec o(H); for (auto& d : A) for (int i = 0; i < H; i++) o[i] += d.v[i] * z[(i + d.off) % H]; return o; }
// every diagonal is encoded at `scale` with each coefficient off by at most 1/2 (plus floating point), every rotation adds at most kappa to a slot
inline Slots step(const Layer& A, const Slots& in, ld scale, ld kappa, int N) {
	int H = N / 2, LOGN = __builtin_ctz(N); Slots o; o.t.assign(H, 0); o.e.assign(H, 0);
	for (auto& d : A) {
		ld s = 0; for (auto& c : d.v) s += fabsl(c.real()) + fabsl(c.imag());
		ld eps = N * (0.5L + scale * s * 2 / N * EPS * (8 * LOGN + 16)); // error of the encoded diagonal, in a slot
		for (int i = 0; i < H; i++) { int j = (i + d.off) % H; cld w = d.v[i] * scale;
			o.t[i] += w * in.t[j]; o.e[i] += (std::abs(w) + eps) * (in.e[j] + kappa) + eps * std::abs(in.t[j]) + std::abs(w) * std::abs(in.t[j]) * 16 * EPS; }
	}
	return o;
}
inline Layer product(const Layer& A, const Layer& B) { // A B, diagonals not merged
	Layer C; for (auto& a : A) for (auto& b : B) { int H = (int)a.v.size(); Diag d; d.off = (a.off + b.off) % H; d.v.resize(H); for (int i = 0; i < H; i++) d.v[i] = a.v[i] * b.v[(i + a.off) % H]; C.push_back(d); }
	return C;
}
// slots of an integer polynomial
inline Vec slots(const Poly& m) { int N = (int)m.size(); const Zeta& Z = Zeta::of(N); std::vector<ld> x(N); for (int k = 0; k < N; k++) { long e; mpz_class a = abs(m[k]); if (a == 0) continue; size_t b = mpz_sizeinbase(a.get_mpz_t(), 2); int sh = b > 64 ? (int)b - 64 : 0; a >>= sh; x[k] = ldexpl((ld)zu64(a), sh) * (m[k] < 0 ? -1 : 1); (void)e; }
	Vec v(N / 2); for (int i = 0; i < N / 2; i++) v[i] = Z.eval(x, i); return v; }
inline void near(const Vec& got, const Slots& want, const std::string& what) {
	ld top = 0; for (size_t i = 0; i < got.size(); i++) top = std::max(top, std::abs(want.t[i]) + want.e[i]); // what the slots are computed from: rounding errors of a long double follow the largest
	for (size_t i = 0; i < got.size(); i++) { ld tol = want.e[i] + (top + 1) * got.size() * 0x1p-56L; pbt::tight(what, std::abs(got[i] - want.t[i]), tol);
		PBT_CHECK(std::abs(got[i] - want.t[i]) <= tol, "%s: slot %zu is %.12Lg%+.12Lgi, want %.12Lg%+.12Lgi +- %.3Lg", what.c_str(), i, got[i].real(), got[i].imag(), want.t[i].real(), want.t[i].imag(), tol); }
}
// coefficients must not wrap: |coefficients| <= the sum of slots' absolute values, twice
inline bool fits(const Slots& s, int logq) { ld m = 0; for (size_t i = 0; i < s.t.size(); i++) m = std::max(m, std::abs(s.t[i]) + s.e[i]); return m < ldexpl(1, logq - 3); }
// worst case of a key switch in a slot: noise at most 8 times N coefficients below the modulus, one rounding per component
inline ld switch_error(int N, int h) { return (ld)N * (8.0L * N + (h + 1) / 2.0L + 1); }
// a ciphertext of m under s with a generated mask
template <int L, int N> void make_ct(Gen& g, const Poly& m, const int* s, R_Q_square<L, N>& ct) { Poly b; { b = gen_poly(g, N, L); if (g.below(3)) { Rng r = g.bulk(); for (auto& v : b) v = uniform(r, L); } } Poly a = padd(m, pmul(b, ipoly(s, N)), -1); put(ct, a, b); }
// small integer polynomial: the plaintext of a message
inline Poly gen_message(Gen& g, int N, int bits) { return gen_spoly(g, N, bits); }
} // namespace ref
