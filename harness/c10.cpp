// C10: encoding and decoding against direct evaluation; round trip, sums and products.
#include "slots.h"
#include "impl/message.h"
#include "HEAAN/endecode.h"
#include "impl/plaintext.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int L, int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using P = R_Q<L, N>;
	// a scale and a bound on the coefficients such that the coefficients fit the word and the modulus
	static uint64_t scale(Gen& g, int maxlog) { // 1 <= Delta <= 2^maxlog
		int k = (int)g.below(maxlog + 1); uint64_t d = 1ull << k;
		if (g.below(3) == 2 && k > 0) { g.label("scale not a power of two"); d = (1ull << (k - 1)) + g.below(1ull << (k - 1)) + 1; if (d > (1ull << k)) d = 1ull << k; }
		return d;
	}
	static int top() { return std::min(L - 1, 63); }
	static void message(Gen& g, double* zr, double* zi, double mag) { gen_reals(g, zr, H, mag); if (g.below(4) == 0) for (int i = 0; i < H; i++) zi[i] = 0; else gen_reals(g, zi, H, mag); }
	static void dirty(P& p, Gen& g) { bool d = g.below(2); for (int i = 0; i < N; i++) for (int j = 0; j < limbs<L>(); j++) p[i][j] = d ? 0xdeadbeefcafebabeull * (i + j + 1) : 0; }
	static double bound(Gen& g, uint64_t D) { // slots of absolute value <= bound give coefficients below 2^top / 4
		double lim = std::ldexp(1.0, top() - 3) / (double)D / 2.83;
		// |coefficient| <= sqrt(2) * bound, reached by constant slots: up to the whole word
		switch (g.below(5)) { case 4: if (L > 12) { g.label("whole word"); return std::ldexp(0.999, std::min(L - 1, 64)) / (double)D / 1.41421357; } [[fallthrough]]; case 0: return lim; case 1: return std::min(lim, 1.0); default: return std::ldexp(lim, -(int)g.below(std::max(1, std::min(top(), 40)))); }
	}
	static void enc_check(Gen& g, const P& pt, const double* zr, const double* zi, uint64_t D) {
		const Zeta& Z = Zeta::of(N); std::vector<double> a(zr, zr + H), b(zi, zi + H);
		ld tol = (ld)D * (l1(a, H) + l1(b, H)) * 2 / N * EPS * (8 * LOGN + 12) + 0.5L;
		for (int k : slots_of(g, N, 256, 5)) {
			PBT_CHECK(canonical(pt[k]), "LOGQ=%d LOGN=%d coefficient %d of the encoding is not below 2^LOGQ", L, LOGN, k);
			ld want = Z.coeff(a, b, k) * D, got = (ld)sgn(pt[k]).get_d(); mpz_class s = sgn(pt[k]); if (mpz_sizeinbase(s.get_mpz_t(), 2) <= 63) got = (ld)s.get_si();
			PBT_CHECK(fabsl(got - want) <= tol, "LOGQ=%d LOGN=%d Delta=%llu encoding coefficient %d = %.20Lg, want %.20Lg +- %.3Lg", L, LOGN, (unsigned long long)D, k, got, want, tol); g.count(); }
		for (int k = 0; k < N; k++) PBT_CHECK(canonical(pt[k]), "LOGQ=%d LOGN=%d coefficient %d of the encoding is not below 2^LOGQ", L, LOGN, k);
	}
	static void encode_prop(Gen& g) {
		static Message<LOGN> z, y; static std::unique_ptr<P> px(new P), py(new P); P& pt = *px;
		uint64_t D = scale(g, g.below(2) ? top() : std::min(top() - 3, 62)); double b = bound(g, D); message(g, z.r, z.i, b); dirty(pt, g);
		g.note(fmt("encode LOGQ=%d LOGN=%d Delta=%llu bound %.3g z0=%.17g%+.17gi", L, LOGN, (unsigned long long)D, b, z.r[0], z.i[0]));
		std::vector<double> r0(z.r, z.r + H), i0(z.i, z.i + H);
		encode<L, LOGN>(z.r, z.i, D, pt);
		for (int i = 0; i < H; i++) PBT_CHECK(z.r[i] == r0[i] && z.i[i] == i0[i], "encode changed its input");
		enc_check(g, pt, z.r, z.i, D);
		dirty(*py, g); encode<L, LOGN>(z, D, *py); for (int k = 0; k < N; k++) PBT_CHECK(raw((*py)[k]) == raw(pt[k]), "the two forms of encode differ at %d", k);
		decode<L, LOGN>(pt, D, y.r, y.i);
		ld S = (l1(r0, H) + l1(i0, H)), tol = (ld)N / 2 / D + S * EPS * (64 * LOGN + 64);
		for (int i = 0; i < H; i++) PBT_CHECK(fabsl((ld)y.r[i] - z.r[i]) <= tol && fabsl((ld)y.i[i] - z.i[i]) <= tol, "LOGQ=%d LOGN=%d Delta=%llu slot %d decodes to %.17g%+.17gi, was %.17g%+.17gi", L, LOGN, (unsigned long long)D, i, y.r[i], y.i[i], z.r[i], z.i[i]);
		g.count(H); int nz = 0; for (int k = 0; k < N; k++) nz += raw(pt[k]) != 0; if (nz > 1) g.nontrivial();
	}
	static void decode_prop(Gen& g) {
		const Zeta& Z = Zeta::of(N); static Message<LOGN> z, y; static std::unique_ptr<P> px(new P); P& pt = *px;
		int bits = g.below(3) ? L : 1 + (int)g.below(L); if (bits > 990) bits = 990;
		Poly a = gen_poly(g, N, bits); for (auto& v : a) if (bits < L && g.below(2)) v = -v; for (int i = 0; i < N; i++) { mpz_class v = mod2(a[i], L); if (abs(centered2(v, L)) >= pow2(990)) v = mod2(v, 900); set(pt[i], v); a[i] = centered2(v, L); }
		uint64_t D = scale(g, 63); g.note(fmt("decode LOGQ=%d LOGN=%d Delta=%llu a0=%s a1=%s", L, LOGN, (unsigned long long)D, str(a[0]).c_str(), str(a[1]).c_str()));
		for (int i = 0; i < H; i++) z.r[i] = z.i[i] = 1e300;
		std::vector<ld> m(N); ld S = 0; for (int k = 0; k < N; k++) { long e; double d = mpz_get_d_2exp(&e, a[k].get_mpz_t()); mpz_class lo = a[k]; (void)lo; m[k] = ldexpl(d, e) / D; S += fabsl(m[k]); }
		decode<L, LOGN>(pt, D, z.r, z.i); for (int k = 0; k < N; k++) PBT_CHECK(sgn(pt[k]) == a[k], "decode changed its input");
		ld tol = S * EPS * (8 * LOGN + 24 + limbs<L>());
		auto ks = slots_of(g, H, 128, 4);
		for (int i : ks) { cld w = Z.eval(m, i); PBT_CHECK(fabsl(z.r[i] - w.real()) <= tol && fabsl(z.i[i] - w.imag()) <= tol, "LOGQ=%d LOGN=%d Delta=%llu slot %d = %.17g%+.17gi, want %.17Lg%+.17Lgi", L, LOGN, (unsigned long long)D, i, z.r[i], z.i[i], w.real(), w.imag()); g.count(); }
		decode<L, LOGN>(pt, D, y); for (int i = 0; i < H; i++) PBT_CHECK(y.r[i] == z.r[i] && y.i[i] == z.i[i], "the two forms of decode differ at slot %d", i);
		// the form that takes the logarithm of the scale
		int ld_ = g.range(0, 62); if (g.below(3) == 2) ld_ = g.range(63, 1000); for (int i = 0; i < H; i++) y.r[i] = y.i[i] = 1e300;
		decode_log<L, LOGN>(pt, ld_, y.r, y.i);
		ld sc = ldexpl(1, -ld_) * D, tl = tol * sc;
		for (int i : ks) { cld w = Z.eval(m, i) * sc; PBT_CHECK(fabsl(y.r[i] - w.real()) <= tl && fabsl(y.i[i] - w.imag()) <= tl, "LOGQ=%d LOGN=%d decode_log %d slot %d = %.17g%+.17gi, want %.17Lg%+.17Lgi", L, LOGN, ld_, i, y.r[i], y.i[i], w.real(), w.imag()); g.count(); }
		for (int k = 0; k < N; k++) PBT_CHECK(sgn(pt[k]) == a[k], "decode_log changed its input");
		static Message<LOGN> x; decode_log<L, LOGN>(pt, ld_, x); for (int i = 0; i < H; i++) PBT_CHECK(x.r[i] == y.r[i] && x.i[i] == y.i[i], "the two forms of decode_log differ at slot %d", i);
		int nz = 0; for (auto& v : a) nz += v != 0; if (nz > 1) g.nontrivial();
	}
	// sums and products of encodings decode to slotwise sums and products
	static void hom_prop(Gen& g) {
		static Message<LOGN> z[2], y; static std::unique_ptr<P[]> p(new P[4]); int lim = std::min(60, (L - 6 - LOGN) / 2); if (lim < 4) { g.label("modulus too small for a product"); throw Discard{}; }
		int k = 3 + (int)g.below(lim - 2); uint64_t D = 1ull << k; for (int t = 0; t < 2; t++) { message(g, z[t].r, z[t].i, 0.7); encode<L, LOGN>(z[t], D, p[t]); }
		g.note(fmt("product LOGQ=%d LOGN=%d Delta=2^%d z0=%.6g%+.6gi y0=%.6g%+.6gi", L, LOGN, k, z[0].r[0], z[0].i[0], z[1].r[0], z[1].i[0]));
		conv<L, N>(p[0], p[1], p[2]);
		decode_log<L, LOGN>(p[2], 2 * k, y.r, y.i);
		ld e = (ld)N / 2 / D, fp = EPS * N * (64 * LOGN + 64) * 4;
		for (int i = 0; i < H; i++) { cld a(z[0].r[i], z[0].i[i]), b(z[1].r[i], z[1].i[i]), w = a * b; ld tol = 2 * (e * (std::abs(a) + std::abs(b) + 2 * e)) + fp;
			PBT_CHECK(fabsl(y.r[i] - w.real()) <= tol && fabsl(y.i[i] - w.imag()) <= tol, "LOGQ=%d LOGN=%d product in slot %d = %.17g%+.17gi, want %.17Lg%+.17Lgi +- %.3Lg", L, LOGN, i, y.r[i], y.i[i], w.real(), w.imag(), tol); g.count(); }
		p[3] = p[0]; bool minus = g.below(2); if (minus) p[3] -= p[1]; else p[3] += p[1]; decode<L, LOGN>(p[3], D, y);
		for (int i = 0; i < H; i++) { ld sr = (ld)z[0].r[i] + (minus ? -1 : 1) * (ld)z[1].r[i], si = (ld)z[0].i[i] + (minus ? -1 : 1) * (ld)z[1].i[i];
			PBT_CHECK(fabsl(y.r[i] - sr) <= 2 * e + fp && fabsl(y.i[i] - si) <= 2 * e + fp, "LOGQ=%d LOGN=%d %s in slot %d", L, LOGN, minus ? "difference" : "sum", i); g.count(); }
		g.nontrivial();
	}
	static void run(Gen& g) { switch (g.below(5)) { case 0: case 1: encode_prop(g); break; case 2: case 3: decode_prop(g); break; default: if constexpr (N <= 1024) hom_prop(g); else encode_prop(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN; };
static constexpr Conf C[] = {{8,2},{20,3},{33,4},{60,5},{63,3},{64,4},{65,6},{96,5},{110,7},{127,2},{128,8},{129,3},{192,4},{193,2},{250,6},{320,5},{384,3},{640,4},{850,2},{1024,3},{1025,5},{1450,4},{1450,7},{2900,3},
	{60,9},{110,10},{64,12},{850,9},{120,14},{1450,9},{300,16}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 8 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = add("encode_decode", (int)SMALL.size() * 500, (int)SMALL.size() * 8000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("encode_decode_large", (int)LARGE.size() * 20, (int)LARGE.size() * 300, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
