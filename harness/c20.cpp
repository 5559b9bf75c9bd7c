// C20: homomorphic reduction modulo one.
#include "boot.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int L, int LOGN, int D> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2, K = 24, OUT = L - 12 * D; using C = R_Q_square<L, N>;
	template <int I> using Key = R_Q_square<2 * (L - I * D), N>;
	template <int I> static const Key<I>& key(const std::vector<int>& sq, const std::vector<int>& s) { static std::unique_ptr<Key<I>> k(new Key<I>); HEAAN<L - I * D, N>::swkgen(sq.data(), s.data(), *k); return *k; }
	static void run(Gen& g) {
		static std::unique_ptr<C> ct(new C); static std::unique_ptr<R_Q_square<OUT, N>> out(new R_Q_square<OUT, N>); const Zeta& Z = Zeta::of(N);
		auto s = gen_key(g, N, (int)g.below(std::min(N, 16) + 1)); int h = weight(s); std::vector<double> zr(H), zi(H, 0); double dev = std::ldexp(1.0, -3 - (int)g.below(std::min(D - 16, 24)));
		int kind = (int)g.below(6); Rng r = g.bulk(); std::vector<double> eps(H); gen_reals(g, eps.data(), H, dev);
		for (int i = 0; i < H; i++) { int I = kind == 0 ? 0 : kind == 1 ? (int)r.below(2) * 46 - 23 : kind == 2 ? 23 : kind == 3 ? -23 : (int)r.below(47) - 23; zr[i] = I + eps[i]; }
		Poly m(N); for (int k = 0; k < N; k++) { ld x = Z.coeff(zr, zi, k) * ldexpl(1, D); mpz_class c; long e = (long)floorl(x / 0x1p32L); c = e; c <<= 32; c += (long)roundl(x - ldexpl((ld)e, 32)); m[k] = c; }
		make_ct(g, m, s.data(), *ct); Poly a = get((*ct)[0]), b = get((*ct)[1]); garbage(*out, g); srand((unsigned)g.u64()); bool given = g.below(3) == 2;
		g.note(fmt("LOGQ=%d LOGN=%d LOGDELTA=%d h=%d%s deviation up to %.3g, slots %.9g %.9g ..", L, LOGN, D, h, given ? ", keys given" : "", dev, zr[0], zr[1]));
		if (!given) EvalMod<L, N, D, K>(*ct, s.data(), *out);
		else { g.label("keys given"); Poly sp = ipoly(s.data(), N), s2 = pmul(sp, sp); std::vector<int> sq(N); for (int i = 0; i < N; i++) sq[i] = (int)s2[i].get_si();
			EvalMod<L, N, D, K>(*ct, key<1>(sq, s), key<2>(sq, s), key<3>(sq, s), key<4>(sq, s), key<5>(sq, s), key<6>(sq, s), key<7>(sq, s), key<8>(sq, s), key<9>(sq, s), key<10>(sq, s), key<11>(sq, s), *out); }
		reduced(*out, "result"); PBT_CHECK(get((*ct)[0]) == a && get((*ct)[1]) == b, "the reduction changed its input");
		Vec x = slots(m), got = slots(rdec(*out, s.data())); ld Delta = ldexpl(1, D), rho = rescale_error(N, s) / Delta; bool big = false;
		for (int i = 0; i < H; i++) {
			ld v = x[i].real() / Delta, f = v - roundl(v), w0 = fabsl(x[i].imag()) / Delta, se = series_error(f) * 1.05L, t = se + std::min(evalmod_error(v, w0, N, D, h, rho), evalmod_worst(N, D, h)) + 2 * w0;
			cld w = got[i] / Delta; if (se < t / 8) tight(fmt("LOGQ=%d LOGN=%d LOGDELTA=%d", L, LOGN, D), std::abs(w - f), t); PBT_CHECK(std::abs(w - f) <= t, "LOGQ=%d LOGN=%d LOGDELTA=%d h=%d slot %d: %.12Lg reduces to %.12Lg%+.12Lgi, want %.12Lg +- %.3Lg", L, LOGN, D, h, i, v, w.real(), w.imag(), f, t); g.count(); if (fabsl(f) > 8 * t) big = true;
		}
		if (big) g.nontrivial(); else g.label("deviation below its error bound");
	}
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN, D; };
#ifdef BIG
#define BIGN(x) ((x) / 30)
static constexpr Conf C[] = {{560,8,40},{680,10,50}};
#else
#define BIGN(x) (x)
static constexpr Conf C[] = {{560,3,40},{680,3,50},{800,3,60},{660,4,50},{900,4,60},{1450,2,60},{620,2,45},{1000,5,50}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN, C[I].D>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) SMALL.push_back(ALL[i]); return true; }();
static int p1 = add("evalmod", (int)SMALL.size() * BIGN(60), (int)SMALL.size() * BIGN(1500), (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
PBT_MAIN
