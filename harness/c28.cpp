// C28: the errors of random inputs have the mean and the root mean square that the analysis predicts.
#include "lt.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
#include "HEAAN/bootstrap.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

// accumulates errors scaled to a predicted variance of one
struct Law {
	ld n = 0, sum = 0, sq = 0;
	void add(ld x, ld var) { x /= sqrtl(var); n++; sum += x; sq += x * x; }
	// lo and hi bound the ratio of root mean squares apart from the sampling error of n independent values (of kurtosis up to that of a Gaussian)
	void judge(Gen& g, const std::string& what, ld lo, ld hi, bool mean, ld share = 1) {
		ld r = sqrtl(sq / n), w = 8 * sqrtl(0.5L / (n * share)), m = sum / n;
		g.note(fmt("%s: %.0Lf errors, root mean square %.4Lf of the predicted one, mean %.4Lf", what.c_str(), n, r, m)); g.label(what.substr(0, what.find(" LOGQ"))); g.nontrivial(); g.count((long)n);
		PBT_CHECK(r <= hi + w && r >= lo - w, "%s: root mean square error is %.4Lf times the predicted one over %.0Lf errors", what.c_str(), r, n);
		if (mean) PBT_CHECK(fabsl(m) <= 8 / sqrtl(n * share), "%s: the errors have mean %.4Lf (in predicted standard deviations) over %.0Lf errors", what.c_str(), m, n);
	}
};
template <int L, int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using P = R_Q<L, N>; using C = R_Q_square<L, N>;
	static std::string at() { return fmt(" LOGQ=%d LOGN=%d", L, LOGN); }
	static int reps(int want, int each) { return std::max(2, want / each); }
	static void random(Rng& r, double* x, double mag) { for (int i = 0; i < H; i++) x[i] = mag * r.unit(); }
	static Poly upoly(Rng& r, int bits) { Poly p(N); for (auto& c : p) c = uniform(r, bits); return p; }
	static std::vector<int> key(Gen& g, int lo, int hi) { return gen_key(g, N, g.range(std::min(lo, N), std::min(hi, N))); }

	static void encoding(Gen& g) { // rounding of coefficients, in the exact ring and in the floating-point model
		static P pt; static SimplePlaintext<LOGN> sp; static Message<LOGN> z; int k = 8 + LOGN + (int)g.below(20); if (k > L - 6) k = L - 6; uint64_t D = g.below(2) ? 1ull << k : (1ull << k) + g.below(1ull << k); Rng r = g.bulk(); const Zeta& Z = Zeta::of(N); Law a, b;
		for (int t = reps(4000, N); t--;) { random(r, z.r, 0.7); random(r, z.i, 0.7); encode<L, LOGN>(z, D, pt); encode(z, D, sp); for (int i = 0; i < N; i++) { ld c = Z.coeff(z.r, z.i, i) * (ld)D; a.add(sgn(pt[i]).get_d() - c, 1 / 12.0L); b.add(sp[i] - c, 1 / 12.0L); } }
		a.judge(g, "encoding" + at(), 1, 1, true); b.judge(g, "floating-point encoding" + at(), 1, 1, true);
	}
	static void product(Gen& g) { // rounding error times a plaintext, one or several rotated
		static SimplePlaintext<LOGN> raw, v, pt, rot, e, c, sum; static Message<LOGN> z; Law a; Rng r = g.bulk(); uint64_t D = 1ull << (10 + LOGN + (int)g.below(20)); int K = 1 + (int)g.below(6); bool unit = g.below(2);
		for (int t = reps(3000, H); t--;) { random(r, z.r, 0.7); random(r, z.i, 0.7); if (unit) for (int i = 0; i < H; i++) { double x = i * 3.14159265358979 / H; z.r[i] = cos(x) / sqrt(2); z.i[i] = sin(x) / sqrt(2); } encode(z, D, pt); for (int i = 0; i < N; i++) sum[i] = 0;
			for (int k = 0; k < K; k++) { random(r, z.r, 0.7); random(r, z.i, 0.7); encode_raw(z, D, raw); encode(z, D, v); sub(raw, v, e); rotate(pt, rot, k); conv(e, rot, c); add(c, sum, sum); }
			ld var = K / 12.0L * square_sum(pt); for (int i = 0; i < N; i++) a.add(sum[i], var); }
		a.judge(g, fmt("sum of %d products", K) + at(), 1, 1, true, 0.4L);
	}
	static void matmul(Gen& g) { // product of an encoded vector with random encoded diagonals
		static constexpr int K = 3; static P pt, out; static Message<LOGN> A[K]; int k = g.range(20, 34); uint64_t D = 1ull << k; Law a; Rng r = g.bulk();
		for (int t = reps(3000, H); t--;) { Poly m(N); for (auto& c : m) c = (long)r.below(1ull << 30) - (1l << 29); put(pt, m); for (auto& d : A) random(r, d.r, 0.9), random(r, d.i, 0.9); matrix_vector_product<L, LOGN, K>(pt, A, D, out); Vec z = slots(m), o = slots(sget(out));
			ld sq = 0; for (auto& c : z) sq += std::norm(c); ld var = K * N / 12.0L * sq / H / 2; // per real or imaginary part
			for (int i = 0; i < H; i++) { cld w = 0; for (int q = 0; q < K; q++) w += cld(A[q].r[i], A[q].i[i]) * z[(i + q) % H]; cld e = o[i] - w * (ld)D; a.add(e.real(), var); a.add(e.imag(), var); } }
		a.judge(g, "product with a matrix" + at(), 1, 1, true, 0.2L);
	}
	template <int B> static void rescale_to(Gen& g) {
		static C ct; static R_Q_square<B, N> out; Law a; auto s = key(g, 1, 64); int h = weight(s); Rng r = g.bulk();
		for (int t = reps(4000, N); t--;) { put(ct, upoly(r, L), upoly(r, L)); Poly m = rdec(ct, s.data()); RS<L, B, N>(ct, out); Poly o = rdec(out, s.data());
			for (int i = 0; i < N; i++) { mpz_class e = o[i] * pow2(L - B) - m[i]; e = centered2(e, L); mpf_class f(e, 128); mpf_div_2exp(f.get_mpf_t(), f.get_mpf_t(), L - B); a.add(f.get_d(), (h + 1) / 12.0L); } }
		a.judge(g, "rescaling" + at() + fmt(" by %d bits h=%d", L - B, h), 1, 1, true, 0.5L);
	}
	static void rescaling(Gen& g) { switch (g.below(3)) { case 0: rescale_to<L - 20>(g); break; case 1: rescale_to<(L + 1) / 2>(g); break; default: rescale_to<L - 7>(g); } }
	static void fresh(Gen& g) {
		static P pt; static C ct; Law a; auto s = key(g, 1, N); Rng r = g.bulk(); srand((unsigned)g.u64());
		for (int t = reps(4000, N); t--;) { Poly m = upoly(r, L); put(pt, m); HEAAN<L, N>::enc(pt, s.data(), ct); Poly o = rdec(ct, s.data()); for (int i = 0; i < N; i++) a.add(centered2(o[i] - m[i], L).get_d(), 204 / 9.0L); }
		a.judge(g, "fresh noise" + at(), 0.98L, 1.02L, true, 0.9L);
	}
	static void switching(Gen& g) { // at most what a uniform second component and fresh key noise give
		static C ct, o, b; static std::unique_ptr<R_Q_square<2 * L, N>> k(new R_Q_square<2 * L, N>); Law a; auto s = key(g, 1, 64); int h = weight(s), kind = (int)g.below(4); Rng r = g.bulk(); srand((unsigned)g.u64()); ld var = N * (204 / 9.0L) / 3 + (h + 1) / 12.0L;
		static const char* names[] = {"switching", "rotation", "conjugation", "relinearisation"}; Poly sp = ipoly(s.data(), N);
		for (int t = std::max(6, 3000 / N); t--;) {
			put(ct, upoly(r, L), upoly(r, L)); Poly want; std::vector<int> f(N);
			if (kind == 0) { f = gen_key(g, N, N / 2); want = rdec(ct, f.data()); HEAAN<L, N>::swkgen(f.data(), s.data(), *k); o = ct; HEAAN<L, N>::ks(*k, o); }
			else if (kind == 1) { int q = 1 + (int)r.below(H); Poly fs = psubst(sp, five_pow(q, N)); for (int i = 0; i < N; i++) f[i] = (int)fs[i].get_si(); HEAAN<L, N>::swkgen(f.data(), s.data(), *k); rot_ct<L, N>(ct, q, *k, o); want = psubst(rdec(ct, s.data()), five_pow(q, N)); }
			else if (kind == 2) { Poly fs = psubst(sp, 2L * N - 1); for (int i = 0; i < N; i++) f[i] = (int)fs[i].get_si(); HEAAN<L, N>::swkgen(f.data(), s.data(), *k); conj<L, N>(ct, *k, o); want = psubst(rdec(ct, s.data()), 2L * N - 1); }
			else { put(b, upoly(r, L), upoly(r, L)); Poly s2 = pmul(sp, sp); for (int i = 0; i < N; i++) f[i] = (int)s2[i].get_si(); HEAAN<L, N>::swkgen(f.data(), s.data(), *k); Mul<L, N>(ct, b, *k, o); want = pmul(rdec(ct, s.data()), rdec(b, s.data())); }
			Poly d = rdec(o, s.data()); for (int i = 0; i < N; i++) a.add(centered2(d[i] - want[i], L).get_d(), var);
		}
		a.judge(g, names[kind] + at() + fmt(" h=%d", h), 0, 1.1L, false, 0.1L);
	}
	static void raising(Gen& g) { // the multiple of q
		static constexpr int B = L + 40; static P pt; static C ct; static R_Q_square<B, N> out; Law a; auto s = key(g, 4, 192); int h = weight(s); Rng r = g.bulk(); srand((unsigned)g.u64()); bool enc = g.below(2);
		for (int t = reps(4000, N); t--;) { Poly m(N); for (auto& c : m) c = (long)r.below(1 << 10); if (enc) { put(pt, m); HEAAN<L, N>::enc(pt, s.data(), ct); } else { Poly b = upoly(r, L); put(ct, padd(m, pmul(b, ipoly(s.data(), N)), -1), b); }
			mod_raise<L, B, N>(ct, out); Poly o = rdec(out, s.data()); for (int i = 0; i < N; i++) { mpz_class I = fdiv2(o[i] + pow2(L - 1), L); a.add(I.get_d(), (h + 1) / 12.0L); } }
		a.judge(g, "multiple of q" + at() + fmt(" h=%d", h), 0.97L, 1.03L, true, 0.3L);
	}
	static void supnorm(Gen& g) { // coefficients of random messages stay within a small multiple of their root mean square
		static P pt; static Message<LOGN> z; uint64_t D = 1ull << std::min(L - 8, 30); Rng r = g.bulk(); ld top = 0;
		for (int t = reps(2000, N); t--;) { random(r, z.r, 0.7); random(r, z.i, 0.7); encode<L, LOGN>(z, D, pt); ld sq = 0, mx = 0; for (int i = 0; i < N; i++) { ld v = fabsl((ld)(double)pt[i]); sq += v * v; mx = std::max(mx, v); } ld want = H * 2 * 0.49L / 3 * 2 / N / N * D * D; PBT_CHECK(fabsl(sq / N / want - 1) < 8 * sqrtl(2.0L / N) + 0.01L, "encoding%s: coefficients have mean square %.4Lg, predicted %.4Lg", at().c_str(), sq / N, want); top = std::max(top, mx / sqrtl(sq / N)); g.count(N); }
		g.note(fmt("largest coefficient / root mean square = %.3Lf", top)); g.label("largest coefficient"); g.nontrivial(); PBT_CHECK(top < 7.5L, "encoding%s: a coefficient is %.3Lf times the root mean square", at().c_str(), top);
	}
	static void run(Gen& g) {
		switch (g.below(9)) { case 0: encoding(g); break; case 1: if (LOGN <= 9) { product(g); break; } case 2: if (L >= 90) { matmul(g); break; } case 3: rescaling(g); break; case 4: fresh(g); break; case 5: case 6: switching(g); break; case 7: raising(g); break; default: supnorm(g); }
	}
};
// CoeffToSlot and SlotToCoeff: error of the merged layers
template <int L, int LOGN, int D, int G> struct Boot {
	static constexpr int N = 1 << LOGN, H = N / 2, S = (LOGN - 1) / G; using C = R_Q_square<L, N>;
	static int brev(int i) { int r = 0; for (int b = 0; b < LOGN - 1; b++) if (i >> b & 1) r |= 1 << (LOGN - 2 - b); return r; }
	static void run(Gen& g) {
		static std::unique_ptr<C> ct(new C), back(new C); static std::unique_ptr<C[]> o(new C[2]); auto s = gen_key(g, N, g.range(1, std::min(N, 64))); int h = weight(s); Rng r = g.bulk(); Law a, b; ld one = ldexpl(1, D); int bits = std::min(L - D * S - LOGN - 8, 50); bool stc = g.below(2); if (stc) bits -= LOGN;
		for (int t = std::max(2, 400 / N); t--;) {
			srand((unsigned)r.u64());
			if (!stc) { Poly m(N); for (auto& c : m) c = centered2(uniform(r, bits), bits); Poly k(N); for (auto& c : k) c = uniform(r, L); put(*ct, padd(m, pmul(k, ipoly(s.data(), N)), -1), k); CoeffToSlot<L, LOGN, D, G>(*ct, s.data(), o.get());
				Vec z = slots(m); ld sq = 0; for (auto& c : z) sq += std::norm(c);
				// one stage: |z| sqrt(3^G N / 12) / Delta, times the norm (sqrt(2) / N^(1/(LOGN-1)))^G of each other stage; twice because of z + conj(z)
				ld norm = powl(sqrtl(2) / powl(N, 1.0L / (LOGN - 1)), G), e = sqrtl(sq * powl(3, G) * N / 12 * S) / one * powl(norm, S - 1) * powl(one, S), var = e * e * 2 / N;
				for (int c = 0; c < 2; c++) { Vec got = slots(rdec(o[c], s.data())); for (int i = 0; i < H; i++) { ld want = ldexpl(m[brev(i) + c * H].get_d(), D * S); a.add(got[i].real() - want, var); b.add(got[i].imag(), var); } }
			} else { Poly m[2]; Vec z[2], w(H); const Zeta& Z = Zeta::of(N); for (int c = 0; c < 2; c++) { m[c].resize(N); for (auto& x : m[c]) x = centered2(uniform(r, bits), bits); Poly k(N); for (auto& x : k) x = uniform(r, L); put(o[c], padd(m[c], pmul(k, ipoly(s.data(), N)), -1), k); z[c] = slots(m[c]); }
				SlotToCoeff<L, LOGN, D, G>(o[0], o[1], s.data(), *back); ld sq = 0; for (int c = 0; c < 2; c++) for (auto& x : z[c]) sq += std::norm(x);
				ld e = sqrtl(sq * powl(3, G) * N / 12 * S) / one * powl(sqrtl(2), G * (S - 1)) * powl(one, S), var = e * e / N; Vec got = slots(rdec(*back, s.data()));
				for (int j = 0; j < H; j++) { cld t = 0; for (int i = 0; i < H; i++) t += Z.t[(long)Z.five[j] * brev(i) % (2 * N)] * (z[0][i] + cld(0, 1) * z[1][i]); cld d = got[j] - t * powl(one, S); a.add(d.real(), var); b.add(d.imag(), var); }
			}
		}
		std::string what = fmt("%s LOGQ=%d LOGN=%d LOGDELTA=%d G=%d h=%d", stc ? "slots to coefficients" : "coefficients to slots", L, LOGN, D, G, h);
		if (getenv("SHOW")) printf("%s %.3Lf %.3Lf mean %.3Lf\n", what.c_str(), sqrtl(a.sq / a.n), sqrtl(b.sq / b.n), a.sum / a.n);
		a.judge(g, what, 0, 1, false, 0.2L); b.judge(g, what + " imaginary part", 0, 1, false, 0.2L);
	}
};
using F = void (*)(Gen&);
template <int I> struct Pick;
#define SHAPE(i, ...) template <> struct Pick<i> { static constexpr F f() { return &T<__VA_ARGS__>::run; } };
#define BOOT(i, ...) template <> struct Pick<i> { static constexpr F f() { return &Boot<__VA_ARGS__>::run; } };
SHAPE(0, 60, 5)
SHAPE(1, 100, 6)
SHAPE(2, 128, 7)
SHAPE(3, 64, 8)
SHAPE(4, 200, 5)
SHAPE(5, 333, 7)
SHAPE(6, 850, 6)
SHAPE(7, 96, 9)
BOOT(8, 150, 4, 30, 3)
BOOT(9, 200, 5, 30, 2)
BOOT(10, 260, 5, 30, 1)
BOOT(11, 200, 7, 30, 3)
BOOT(12, 240, 7, 35, 2)
BOOT(13, 250, 9, 30, 4)
static constexpr int NC = 14;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return Pick<I>::f(); else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> LAWS, BOOTS, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (i < 8 ? LAWS : i < 13 ? BOOTS : LARGE).push_back(ALL[i]); return true; }();
static int p1 = LAWS.empty() ? 0 : add("laws", (int)LAWS.size() * 120, (int)LAWS.size() * 3000, (int)LAWS.size(), [](Gen& g) { LAWS[g.below(LAWS.size())](g); });
static int p2 = BOOTS.empty() ? 0 : add("boot_laws", (int)BOOTS.size() * 12, (int)BOOTS.size() * 300, (int)BOOTS.size(), [](Gen& g) { BOOTS[g.below(BOOTS.size())](g); });
static int p3 = LARGE.empty() ? 0 : add("boot_laws_large", 2, 100, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
