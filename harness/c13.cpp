// C13: matrix-vector products on plaintext polynomials.
#include "lt.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int L, int LOGN, int K> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using P = R_Q<L, N>;
	static Slots input(const Poly& m) { Slots z; z.t = slots(m); z.e.assign(H, 0); return z; }
	static void check(Gen& g, const P& in, const P& out, const Poly& m, const Slots& want, const std::string& what) {
		for (int i = 0; i < N; i++) PBT_CHECK(canonical(out[i]), "%s: coefficient %d is not below 2^LOGQ", what.c_str(), i);
		PBT_CHECK(sget(in) == m, "%s changed its input", what.c_str());
		near(slots(sget(out)), want, fmt("LOGQ=%d LOGN=%d K=%d ", L, LOGN, K) + what); g.count(H);
		ld top = 0, e = 0; for (auto& c : want.t) top = std::max(top, std::abs(c)); for (auto v : want.e) e = std::max(e, v); if (top > 16 * e && top > 0) g.nontrivial(); else g.label("result below its error bound");
	}
	static uint64_t scale(Gen& g, int top) { int k = (int)g.below(top + 1); uint64_t d = 1ull << k; if (k > 1 && g.below(3) == 2) { d = (1ull << (k - 1)) + g.below(1ull << (k - 1)); g.label("scale not a power of two"); } return d; }
	static int top() { return std::min(60, L - 12 - LOGN); }
	static Poly plain(Gen& g, uint64_t D) { int lg = 64 - __builtin_clzll(D), bits = L - lg - 8 - LOGN; if (bits > 60 && g.below(2)) bits = 60; if (bits < 2) throw Discard{}; return gen_spoly(g, N, bits); }
	// the same product on an unencoded message
	template <class Fn> static void model(Gen& g, const Layer& A, Fn&& product, const char* what) {
		static Message<LOGN> z, z0, y; gen_reals(g, z.r, H, 1); gen_reals(g, z.i, H, 1); z0 = z; for (int i = 0; i < H; i++) y.r[i] = y.i[i] = 1e99; product(z, y);
		for (int i = 0; i < H; i++) { cld w = 0; ld t = 0; for (auto& d : A) { cld x(z.r[(i + d.off) % H], z.i[(i + d.off) % H]); w += d.v[i] * x; t += (fabsl(d.v[i].real()) + fabsl(d.v[i].imag())) * (fabsl(x.real()) + fabsl(x.imag())); }
			t *= EPS * (A.size() + 4); PBT_CHECK(fabsl(y.r[i] - w.real()) <= t && fabsl(y.i[i] - w.imag()) <= t, "LOGN=%d K=%d %s: slot %d is %.17g%+.17gi, want %.17Lg%+.17Lgi", LOGN, K, what, i, y.r[i], y.i[i], w.real(), w.imag());
			PBT_CHECK(z.r[i] == z0.r[i] && z.i[i] == z0.i[i], "%s changed its input", what); }
		g.count(H);
	}
	static void messages(Gen& g) {
		static std::unique_ptr<P> pt(new P), out(new P); static Message<LOGN> A[K]; uint64_t D = scale(g, top()); double mag = std::min(1.0, std::ldexp(1.0, 61) / D); if (g.below(3) == 0) mag = std::min(std::ldexp(1.0, 61) / (double)D / 4, 1.0); Poly m = plain(g, D); put(*pt, m);
		Layer ref(K); for (int k = 0; k < K; k++) { gen_reals(g, A[k].r, H, mag); gen_reals(g, A[k].i, H, mag); ref[k].off = k % H; ref[k].v.resize(H); for (int i = 0; i < H; i++) ref[k].v[i] = cld(A[k].r[i], A[k].i[i]); }
		model(g, ref, [](const Message<LOGN>& z, Message<LOGN>& y) { matrix_vector_product<LOGN, K>(z, A, y); }, "message times message diagonals");
		g.note(fmt("%d message diagonals LOGQ=%d LOGN=%d Delta=%llu m=%s", K, L, LOGN, (unsigned long long)D, polystr(m).c_str())); Slots w = step(ref, input(m), D, 0, N); if (!fits(w, L)) { g.label("modulus too small"); throw Discard{}; }
		garbage(*out, g); matrix_vector_product<L, LOGN, K>(*pt, A, D, *out); check(g, *pt, *out, m, w, "product with message diagonals");
	}
	static void sparse(Gen& g) {
		static std::unique_ptr<P> pt(new P), out(new P); static SparseDiagonal<H, 3> Ar, Ai; uint64_t D = scale(g, top()); double mag = std::min(1.0, std::ldexp(1.0, 61) / D); Poly m = plain(g, D); put(*pt, m); Layer ref; Ar.setzero(); Ai.setzero(); std::string d;
		for (int s = 0; s < 3; s++) { int off = (int)g.below(H); Ar.off[s] = Ai.off[s] = off; d += fmt("%d ", off); if (g.below(5) == 4) { g.label("diagonal marked zero"); continue; } int part = (int)g.below(4); if (part != 1) { gen_reals(g, Ar.vec[s], H, mag); Ar.zero[s] = false; } if (part != 2) { gen_reals(g, Ai.vec[s], H, mag); Ai.zero[s] = false; } if (part == 1 || part == 2) g.label("diagonal with one part"); Diag x; x.off = off; x.v.resize(H); for (int i = 0; i < H; i++) x.v[i] = cld(Ar.vec[s][i], Ai.vec[s][i]); ref.push_back(x); }
		model(g, ref, [](const Message<LOGN>& z, Message<LOGN>& y) { matrix_vector_product<LOGN, 3>(z, Ar, Ai, y); }, "message times a sparse matrix");
		g.note(fmt("sparse LOGQ=%d LOGN=%d Delta=%llu offsets %sm=%s", L, LOGN, (unsigned long long)D, d.c_str(), polystr(m).c_str())); Slots w = step(ref, input(m), D, 0, N); if (!fits(w, L)) { g.label("modulus too small"); throw Discard{}; }
		garbage(*out, g); matrix_vector_product<L, LOGN>(*pt, Ar, Ai, D, *out); check(g, *pt, *out, m, w, "product with a sparse matrix");
	}
	// the error of products with random diagonals follows sqrt(K N / 12) |z| / Delta
	static void law(Gen& g) {
		if (L < 96 || N < 16) { messages(g); return; }
		static std::unique_ptr<P> pt(new P), out(new P); static Message<LOGN> A[K]; int k = g.range(20, 36); uint64_t D = 1ull << k; int trials = std::max(4, 3000 / (N * K)); ld got = 0, want = 0; Rng r = g.bulk();
		for (int t = 0; t < trials; t++) {
			Poly m(N); for (auto& c : m) c = (long)(r.below(1ull << 31)) - (1l << 30); put(*pt, m); for (int q = 0; q < K; q++) for (int i = 0; i < H; i++) { A[q].r[i] = r.unit(); A[q].i[i] = r.unit(); }
			matrix_vector_product<L, LOGN, K>(*pt, A, D, *out); Vec z = slots(m), o = slots(sget(*out));
			for (int i = 0; i < H; i++) { cld w = 0; for (int q = 0; q < K; q++) w += cld(A[q].r[i], A[q].i[i]) * z[(i + q) % H]; got += std::norm(o[i] - w * (ld)D); want += std::norm(z[i]) * K * N / 12; }
		}
		g.note(fmt("error law LOGQ=%d LOGN=%d K=%d Delta=2^%d: measured / predicted = %.4Lf over %d products", L, LOGN, K, k, sqrtl(got / want), trials)); g.count(trials * H); g.nontrivial(); g.label("error law");
		ld q = sqrtl(got / want); PBT_CHECK(q > 0.6 && q < 1.5, "LOGQ=%d LOGN=%d K=%d Delta=2^%d: root mean square error is %.3Lf times the predicted one (%d products)", L, LOGN, K, k, q, trials);
	}
	static void run(Gen& g) { switch (g.below(8)) { case 0: law(g); break; case 1: case 2: case 3: messages(g); break; default: sparse(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN, K; };
#ifdef BIG
#define BIGN(x) ((x) / 10)
static constexpr Conf C[] = {{120,11,4},{100,13,2},{64,15,2}};
#else
#define BIGN(x) (x)
static constexpr Conf C[] = {{40,2,2},{64,3,5},{96,4,8},{100,5,4},{128,6,3},{160,2,5},{200,5,16},{320,4,16},{850,4,4},{1450,5,2},{129,3,1},{255,6,9},{120,8,4},{1450,9,2}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN, C[I].K>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 6 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = SMALL.empty() ? 0 : add("plain_product", (int)SMALL.size() * 300, (int)SMALL.size() * 5000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("plain_product_large", (int)LARGE.size() * BIGN(20), (int)LARGE.size() * BIGN(300), (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
