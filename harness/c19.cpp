// C19: Chebyshev basis conversion and homomorphic polynomial evaluation.
#include "lt.h"
#include "HEAAN/poly.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

static cld cheb(const std::vector<double>& c, cld t) { cld b1 = 0, b2 = 0; for (size_t k = c.size(); k-- > 1;) { cld b = (ld)c[k] + 2.0L * t * b1 - b2; b2 = b1; b1 = b; } return (ld)c[0] + t * b1 - b2; }
static std::vector<double> gen_coeffs(Gen& g, int n, double mag) { std::vector<double> c(n); gen_reals(g, c.data(), n, mag); return c; }

static void basis(Gen& g) {
	int n = 4 << g.below(8); auto c = gen_coeffs(g, n, std::ldexp(1.0, (int)g.below(20) - 10)), c0 = c; std::vector<double> u(n + 1, 7e77); u[n] = 42;
	convert_frc_tou(c.data(), u.data(), n); PBT_CHECK(c == c0, "the conversion changed its input"); PBT_CHECK(u[n] == 42, "the conversion wrote past its output");
	g.note(fmt("basis n=%d c0=%.9g c1=%.9g c%d=%.9g", n, c[0], c[1], n - 1, c[n - 1])); ld s = 0; for (double x : c) s += fabsl(x);
	for (int q = 0; q < 6; q++) {
		ld t = q == 0 ? 1 : q == 1 ? -1 : q == 2 ? 0 : (ld)g.unit(); std::vector<ld> T; ld x = t; for (int k = 1; k < n; k *= 2) { T.push_back(x); x = 2 * x * x - 1; }
		ld v = 0; for (int i = 0; i < n; i++) { ld p = u[i]; for (int b = 0; (1 << b) < n; b++) if (i >> b & 1) p *= T[b]; v += p; }
		ld w = cheb(c, t).real(); PBT_CHECK(fabsl(v - w) <= s * n * n * EPS * 4, "n=%d t=%.12Lg: converted series is %.15Lg, want %.15Lg", n, t, v, w); g.count();
	}
	int nz = 0; for (double x : c) nz += x != 0; if (nz > 1) g.nontrivial();
}
struct VE { cld v; ld e; };
template <int DEG, int L, int LOGN, int D> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2, LEV = __builtin_ctz(DEG + 1), OUT = L - LEV * D; using C = R_Q_square<L, N>;
	template <int K> using Key = R_Q_square<2 * (L - K * D), N>;
	template <int K> static Key<K>& key() { static std::unique_ptr<Key<K>> k(new Key<K>); return *k; }
	template <int K> static void keygen(const std::vector<int>& sq, const std::vector<int>& s) { HEAAN<L - K * D, N>::swkgen(sq.data(), s.data(), key<K>()); }
	static void run(Gen& g) {
		static std::unique_ptr<C> ct(new C); static std::unique_ptr<R_Q_square<OUT, N>> out(new R_Q_square<OUT, N>);
		auto s = gen_key(g, N, (int)g.below(std::min(N, 24) + 1)); int h = weight(s); Poly sp = ipoly(s.data(), N), s2 = pmul(sp, sp); std::vector<int> sq(N); for (int i = 0; i < N; i++) sq[i] = (int)s2[i].get_si();
		// slots
		Poly m(N); int kind = (int)g.below(5); std::vector<double> zr(H, 0), zi(H, 0); gen_reals(g, zr.data(), H, 1); if (kind == 4) { g.label("complex slots"); for (auto& x : zr) x *= 0.1; gen_reals(g, zi.data(), H, 0.1); }
		const Zeta& Z = Zeta::of(N); for (int k = 0; k < N; k++) { ld x = Z.coeff(zr, zi, k) * ldexpl(1, D); m[k] = (long)roundl(x); } make_ct(g, m, s.data(), *ct); Poly a = get((*ct)[0]), b = get((*ct)[1]);
		// coefficients: in the Chebyshev basis and converted, or directly in the basis of the evaluation
		double lim = std::ldexp(1.0, 64 - D); // a coefficient at the scale fills a word
		 std::vector<double> u(DEG + 1); bool direct = g.below(2); double mag = g.below(3) ? g.below(2) ? lim : std::min(lim, 256.0) : std::min(lim, 1.0);
		if (direct) u = gen_coeffs(g, DEG + 1, mag * 0.99); else { auto c = gen_coeffs(g, DEG + 1, mag * 0.99); convert_frc_tou(c.data(), u.data(), DEG + 1); double top = 0; for (double x : u) top = std::max(top, std::fabs(x)); if (top >= lim) { double f = lim / top * 0.99; for (auto& x : u) x *= f; g.label("coefficients scaled down to fit"); } }
		{ bool neg = false; for (double x : u) neg |= x < 0; if (neg) g.label("negative coefficient"); } auto u0 = u;
		g.note(fmt("degree %d LOGQ=%d LOGN=%d LOGDELTA=%d h=%d u=[%.9g,%.9g,%.9g,%.9g,..] t0=%.6g", DEG, L, LOGN, D, h, u[0], u[1], u[2], u[3], zr[0]));
		garbage(*out, g); srand((unsigned)g.u64()); keygen<0>(sq, s); keygen<1>(sq, s);
		if constexpr (LEV >= 3) keygen<2>(sq, s); if constexpr (LEV >= 4) keygen<3>(sq, s); if constexpr (LEV >= 5) keygen<4>(sq, s); if constexpr (LEV >= 6) keygen<5>(sq, s); if constexpr (LEV >= 7) keygen<6>(sq, s);
		if constexpr (DEG == 3) eval_poly_deg3<L, N, D>(u.data(), *ct, key<0>(), key<1>(), *out);
		else if constexpr (DEG == 7) eval_poly_deg7<L, N, D>(u.data(), *ct, key<0>(), key<1>(), key<2>(), *out);
		else if constexpr (DEG == 15) eval_poly_deg15<L, N, D>(u.data(), *ct, key<0>(), key<1>(), key<2>(), key<3>(), *out);
		else if constexpr (DEG == 31) eval_poly_deg31<L, N, D>(u.data(), *ct, key<0>(), key<1>(), key<2>(), key<3>(), key<4>(), *out);
		else if constexpr (DEG == 63) eval_poly_deg63<L, N, D>(u.data(), *ct, key<0>(), key<1>(), key<2>(), key<3>(), key<4>(), key<5>(), *out);
		else eval_poly_deg127<L, N, D>(u.data(), *ct, key<0>(), key<1>(), key<2>(), key<3>(), key<4>(), key<5>(), key<6>(), *out);
		reduced(*out, "value"); PBT_CHECK(get((*ct)[0]) == a && get((*ct)[1]) == b && u == u0, "the evaluation changed its input");
		Vec t = slots(m), got = slots(rdec(*out, s.data())); ld Delta = ldexpl(1, D), rho = N * ((1 + h) / 2.0L + 0.01L) / Delta, mu = switch_error(N, h) / Delta / Delta; bool ok = true, big = false; std::vector<VE> model; Vec arg; ld peak = 0;
		for (int i = 0; i < H; i++) {
			cld x = t[i] / Delta; std::vector<VE> l; ld trunc = N ? 1 / Delta : 0; // a coefficient is a constant: 1 unit in every slot
			for (int n = 0; n < DEG + 1; n += 2) l.push_back({(ld)u[n] + (ld)u[n + 1] * x, trunc + trunc * std::abs(x) + rho + (fabsl(u[n]) + fabsl(u[n + 1])) * 4 * EPS});
			VE p{x, 0}; ld wrap = 0;
			while (l.size() > 1) {
				p = {2.0L * p.v * p.v - 1.0L, 2 * (2 * std::abs(p.v) * p.e + p.e * p.e) + 2 * mu + rho}; std::vector<VE> n;
				for (size_t j = 0; j < l.size(); j += 2) { const VE &A = l[j], &B = l[j + 1]; n.push_back({A.v + p.v * B.v, A.e + std::abs(p.v) * B.e + p.e * std::abs(B.v) + p.e * B.e + mu + rho}); wrap = std::max(wrap, std::abs(n.back().v) + n.back().e); }
				l = n;
			}
			if (wrap * ldexpl(1, D + 4) > ldexpl(1, OUT)) ok = false; if (!ok) break;
			model.push_back(l[0]); arg.push_back(x);
		}
		if (!ok) { g.label("value does not fit"); throw Discard{}; }
		for (auto& v : model) peak = std::max(peak, std::abs(v.v) + v.e);
		for (int i = 0; i < H; i++) { // only when no slot wraps: a wrap in one changes all
			const VE* l = &model[i]; cld x = arg[i], v = got[i] / Delta; ld tol = l[0].e * 1.01L + std::abs(l[0].v) * EPS * 16 + peak * N * 0x1p-60L;
			tight(fmt("degree %d LOGQ=%d LOGN=%d LOGDELTA=%d", DEG, L, LOGN, D), std::abs(v - l[0].v), tol);
			PBT_CHECK(std::abs(v - l[0].v) <= tol, "degree %d LOGQ=%d LOGN=%d LOGDELTA=%d h=%d slot %d: t=%.9Lg%+.9Lgi evaluates to %.12Lg%+.12Lgi, want %.12Lg%+.12Lgi +- %.3Lg", DEG, L, LOGN, D, h, i, x.real(), x.imag(), v.real(), v.imag(), l[0].v.real(), l[0].v.imag(), tol); g.count();
			if (std::abs(l[0].v) > 16 * tol) big = true;
		}
		if (big) g.nontrivial(); else g.label("value below its error bound");
	}
};
using F = void (*)(Gen&);
struct Conf { int DEG, Q, LOGN, D; };
#ifdef BIG
#define BIGN(x) ((x) / 2)
static constexpr Conf C[] = {{3,130,11,30},{7,160,12,30},{3,130,14,30}};
#else
#define BIGN(x) (x)
static constexpr Conf C[] = {{3,170,3,40},{3,200,4,50},{3,130,2,30},{3,250,5,60},{7,200,3,40},{7,310,4,60},{7,180,5,35},{7,1450,3,40},{15,230,3,40},{15,360,4,55},{15,330,2,60},{31,280,3,40},{31,400,4,60},{31,900,3,50},{63,350,3,45},{63,460,4,60},{127,420,3,50},{127,460,4,54},{31,330,7,50},{7,220,8,45}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].DEG, C[I].Q, C[I].LOGN, C[I].D>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 6 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p0 = add("basis", 500, 20000, 0, basis);
static int p1 = SMALL.empty() ? 0 : add("evaluation", (int)SMALL.size() * 50, (int)SMALL.size() * 1000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("evaluation_large", (int)LARGE.size() * BIGN(4), (int)LARGE.size() * BIGN(60), (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
