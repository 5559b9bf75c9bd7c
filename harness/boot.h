// Worst-case error of the parts of bootstrapping.
#pragma once
#include "lt.h"
#include "HEAAN/bootstrap.h"
namespace ref {
static const ld SIGMAS = 16; // standard deviations allowed where an error is a sum of many random ones
static const ld TAU = 6.283185307179586476925286766559005768L;
// slot error after all stages of CoeffToSlot or SlotToCoeff: values up to v off by e, rows of a layer have absolute sum `row`, matrices encoded at 2^D, G layers merged
inline ld stages_error(int LOGN, int D, int G, ld v, ld e, ld row, int h) {
	int N = 1 << LOGN, S = (LOGN - 1) / G; ld scale = ldexpl(1, D), kappa = switch_error(N, h), nd = powl(3, G), r = powl(row, G), entry = std::max(1.0L, powl(row / 2, G));
	ld eps = N * (0.5L + scale * entry * 2 * EPS * (8 * LOGN + 16)); // of an encoded diagonal with entries up to `entry` (times few merged products)
	for (int k = 0; k < S; k++) { e = scale * r * (e + kappa) + nd * eps * (v + e + kappa) + scale * r * v * EPS * 64 * G; v = scale * r * v; }
	return e;
}
inline ld cts_row(int LOGN) { return 2 * powl(1 << LOGN, -1.0L / (LOGN - 1)); }
// The layers of the slot transform in the order SlotToCoeff applies them: slots = A[LOGN-2] ... A[0] (complex coefficients in bit-reversed order).
inline std::vector<Layer> special_layers(int LOGN) {
	int N = 1 << LOGN, H = N / 2; std::vector<Layer> out;
	for (int len = 2; len <= H; len *= 2) { int q = len / 2, m = 4 * len; Layer A(len == H ? 2 : 3); A[0].off = 0; A[1].off = q; if (len < H) A[2].off = H - q; for (auto& d : A) d.v.assign(H, 0); std::vector<cld> w(q); long p = 1; for (int k = 0; k < q; k++) { ld x = TAU * p / m; w[k] = cld(cosl(x), sinl(x)); p = p * 5 % m; }
		for (int i = 0; i < H; i++) { int k = i % len; if (k < q) { A[0].v[i] = 1; A[1].v[i] = w[k]; } else { A[0].v[i] = -w[k - q]; A[len < H ? 2 : 1].v[i] = 1; } } out.push_back(A); }
	return out;
}
inline Layer adjoint(const Layer& A, ld c) { Layer o; for (auto& d : A) { int H = (int)d.v.size(); Diag e; e.off = (H - d.off) % H; e.v.resize(H); for (int i = 0; i < H; i++) e.v[(i + d.off) % H] = std::conj(d.v[i]) * c; o.push_back(e); } return o; }
// exact values and predicted variances (of the modulus) of the errors of all slots
struct Est { Vec v; std::vector<ld> var; ld top() const { ld t = 0; for (ld x : var) t = std::max(t, x); return sqrtl(t); } };
// variance of a key switch in every slot: key noise (variance 204/9) times a second component uniform below the modulus, and a rounding
inline std::vector<ld> switch_variance(int N, const std::vector<int>& s) { const Zeta& Z = Zeta::of(N); std::vector<ld> o(N / 2), x(s.begin(), s.end()); for (int i = 0; i < N / 2; i++) { cld z = Z.t[Z.five[i]]; ld k = 1 + std::abs(Z.eval(x, i)); o[i] = N * (204 / 9.0L) * (N / 12.0L + 1 / std::norm(cld(1, 0) - z)) + N / 12.0L * k * k; } return o; }
// the same for the given second component, under any rotation and conjugation: each coefficient of the noise is random, so a slot of its product with the residues has this variance
inline std::vector<ld> switch_variance(int N, const std::vector<int>& s, const Poly& b, int logq) {
	const Zeta& Z = Zeta::of(N); ld top = 0; std::vector<ld> x(N), y(N), r(s.begin(), s.end()), o(N / 2); Poly c(b); for (auto& v : c) if (v < 0) v += pow2(logq);
	for (int k = 0; k < N; k++) { mpf_class f(c[k], 128); f /= mpf_class(pow2(logq), 128); x[k] = f.get_d(); }
	for (int t = 1; t < 2 * N; t += 2) { for (int k = 0; k < N; k++) { int j = (int)((long)k * t % (2 * N)); y[j % N] = j < N || c[k] == 0 ? x[k] : 1 - x[k]; } for (int i = 0; i < N / 2; i++) top = std::max(top, std::norm(Z.eval(y, i))); }
	for (int i = 0; i < N / 2; i++) { ld k = 1 + std::abs(Z.eval(r, i)); o[i] = N * (204 / 9.0L) * top + N / 12.0L * k * k; } return o;
}
inline std::vector<ld> rounding_variance(int N, const std::vector<int>& s) { const Zeta& Z = Zeta::of(N); std::vector<ld> o(N / 2), x(s.begin(), s.end()); for (int i = 0; i < N / 2; i++) { ld k = 1 + std::abs(Z.eval(x, i)); o[i] = N / 12.0L * k * k; } return o; }
// the layers in order, merged in groups of G and encoded at 2^D: roundings of the encoded diagonals, key switches
inline Est stages(std::vector<Layer> A, int G, int D, Est x, int N, std::vector<ld> kappa, const std::vector<ld>& later) { // variances of a key switch of the input and of a later ciphertext
	int H = N / 2, LOGN = __builtin_ctz(N); ld scale = ldexpl(1, D);
	for (size_t k = 0; k + G <= A.size(); k += G) {
		Layer B = A[k]; std::vector<int> times(B.size(), 1);
		for (int g = 1; g < G; g++) { Layer P = product(A[k + g], B), M; std::vector<int> t; for (auto& d : P) { size_t q = 0; while (q < M.size() && M[q].off != d.off) q++; if (q == M.size()) { M.push_back(d); t.push_back(1); } else { for (int i = 0; i < H; i++) M[q].v[i] += d.v[i]; t[q]++; } } B = M; times = t; }
		Est o; o.v.assign(H, 0); o.var.assign(H, 0);
		for (size_t q = 0; q < B.size(); q++) { auto& d = B[q]; ld top = 0; for (auto& c : d.v) top = std::max(top, std::abs(c)); ld fp = scale * top * EPS * (2 * LOGN + 4), eps = times[q] * (N / 12.0L + fp * fp);
			for (int i = 0; i < H; i++) { int j = (i + d.off) % H; ld e = x.var[j] + (d.off ? kappa[i] : 0); o.v[i] += d.v[i] * scale * x.v[j]; o.var[i] += std::norm(d.v[i]) * scale * scale * e + eps * (std::norm(x.v[j]) + e); } }
		x = o; kappa = later;
	}
	return x;
}
// CoeffToSlot of an integer polynomial: error of a coefficient in its slot, at the scale of the input, for the lower and upper half
inline ld cts_error(int LOGN, int D, int G, const Poly& m, const std::vector<int>& s, const Poly& mask, int logq) {
	int N = 1 << LOGN, H = N / 2, S = (LOGN - 1) / G; auto A = special_layers(LOGN); std::vector<Layer> B; ld c = powl(N, -1.0L / (LOGN - 1)); for (size_t k = A.size(); k-- > 0;) B.push_back(adjoint(A[k], c));
	auto kappa = switch_variance(N, s); Est x; x.v = slots(m); x.var.assign(H, 0); ld v = 0; for (auto& z : x.v) v = std::max(v, std::abs(z)); x = stages(B, G, D, x, N, switch_variance(N, s, mask, logq), kappa); ld k2 = 0; for (ld k : kappa) k2 = std::max(k2, k);
	ld top = 0; for (auto& z : x.v) top = std::max(top, std::abs(z));
	return (SIGMAS * sqrtl(4 * x.top() * x.top() + k2) + 2 * top * EPS * 64 * S) / ldexpl(1, D * S);
}
// SlotToCoeff of two slot vectors (real slots in bit-reversed order): error of a slot besides that of the inputs, at the scale of the input
inline ld stc_error(int LOGN, int D, int G, const Vec& z0, const Vec& z1, const std::vector<int>& s, const Poly& b0, const Poly& b1, int logq) {
	int N = 1 << LOGN, H = N / 2, S = (LOGN - 1) / G; auto A = special_layers(LOGN); auto kappa = switch_variance(N, s); ld var = 0, top = 0;
	for (int c = 0; c < 2; c++) { Est x; x.v = c ? z1 : z0; x.var.assign(H, 0); x = stages(A, G, D, x, N, switch_variance(N, s, c ? b1 : b0, logq), kappa); var += x.top() * x.top(); for (auto& z : x.v) top = std::max(top, std::abs(z)); }
	return (SIGMAS * sqrtl(var) + 2 * top * EPS * 64 * S) / ldexpl(1, D * S);
}
// cos(3 pi t) as a Chebyshev series of degree 31, in the basis of products of T_1, T_2, T_4, ...
inline const std::vector<ld>& cos_basis() {
	static const std::vector<ld> u = [] { std::vector<ld> c(32); for (int k = 0; k < 32; k += 2) c[k] = (k ? 2 : 1) * (k % 4 ? -1 : 1) * std::cyl_bessel_jl(k, 1.5L * TAU);
		for (int n = 32; n > 2; n /= 2) for (int b = 0; b < 32; b += n) for (int i = 1; i < n / 2; i++) { c[b + n / 2 - i] -= c[b + n / 2 + i]; c[b + n / 2 + i] *= 2; } return c; }();
	return u;
}
// Error of x mod 1 besides that of the sine and arcsine series, for a slot within w of x: t = (x - 1/4) / 24, the Chebyshev evaluation of cos(3 pi t) (whose
// coefficients are good to 3e-14), four doublings, the arcsine.  Every term is the error so far times the derivative at the value; rho bounds a rescaling.
inline ld evalmod_error(ld x, ld w, int N, int D, int h, ld rho) { // rho: of a rescaling after a key switch
	ld Delta = ldexpl(1, D), mu = switch_error(N, h) / Delta / Delta, rho1 = N * ((1 + h) / 2.0L + 0.01L) / Delta, t = (x - 0.25L) / 24, et = (fabsl(x) + w + 1) / Delta + rho1 + 1 / Delta, sh = w / 24 + et; // the value evaluated is off by sh
	ld T = t, wT = sh, p = 0, a = 0; const auto& u = cos_basis(); std::vector<ld> v(16), e(16), wv(16);
	for (int n = 0; n < 16; n++) { v[n] = u[2 * n] + u[2 * n + 1] * t; wv[n] = fabsl(u[2 * n + 1]) * sh; e[n] = 4 / Delta + rho1; }
	for (int n = 8; n >= 1; n /= 2) { // T becomes T_2, T_4, ...
		p = 2 * (2 * (fabsl(T) + wT) * p + p * p) + 2 * mu + rho; wT = 2 * (2 * fabsl(T) * wT + wT * wT); T = 2 * T * T - 1;
		for (int k = 0; k < n; k++) { ld v0 = v[2 * k], v1 = v[2 * k + 1], e0 = e[2 * k], e1 = e[2 * k + 1], w0 = wv[2 * k], w1 = wv[2 * k + 1]; v[k] = v0 + T * v1; e[k] = e0 + (fabsl(T) + wT) * e1 + (fabsl(v1) + w1) * p + p * e1 + mu + rho; wv[k] = w0 + (fabsl(T) + wT) * w1 + fabsl(v1) * wT; }
	}
	a = e[0] + 3e-14L; ld c = cosl(1.5L * TAU * t), wc = 1.5L * TAU * sh;
	for (int k = 0; k < 4; k++) { a = 2 * (2 * (fabsl(c) + wc) * a + a * a) + 2 * mu + rho; wc = 2 * (2 * fabsl(c) * wc + wc * wc); c = 2 * c * c - 1; }
	ld sn = fabsl(c) + wc, e7 = 2 * sn * a + a * a + mu + rho, e8 = a / (6 * TAU) + sn / Delta + rho;
	return ((6 + sn * sn + e7) * e8 + sn / (6 * TAU) * e7 + mu + rho) * 1.01L + 24 * et * (1 + sn * sn);
}
// the same for any slot, from the largest values alone
inline ld evalmod_worst(int N, int D, int h) {
	ld Delta = ldexpl(1, D), rho = N * ((1 + h) / 2.0L + 0.01L) / Delta, mu = switch_error(N, h) / Delta / Delta;
	ld et = 24.5L / Delta + rho + 1 / Delta, p = et, l = 2 / Delta + rho + et; for (int k = 1; k < 5; k++) { p = 2 * (2 * p + p * p) + 2 * mu + rho; l = 2 * l + 3 * p + mu + rho; }
	ld e = l + 3 * TAU / 2 * et + 3e-14L; for (int k = 0; k < 4; k++) e = 2 * (2 * e + e * e) + 2 * mu + rho;
	return (1.5L * e + e * e) / TAU + 4 * (rho + mu + 8 / Delta);
}
// a rescaling, at the scale afterwards: one rounding in each component
inline ld rescale_error(int N, const std::vector<int>& s) { ld w = 0, v = 0; for (int t : s) w += t ? 1 : 0; for (ld x : rounding_variance(N, s)) v = std::max(v, x); return std::min(N * ((1 + w) / 2 + 0.01L), SIGMAS * sqrtl(v)); }
inline ld series_error(ld f) { ld sn = sinl(TAU * f); return fabsl((sn + sn * sn * sn / 6) / TAU - f); } // grows with |f| up to 1/4
} // namespace ref
