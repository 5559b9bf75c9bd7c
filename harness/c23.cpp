// C23 and (EVALROUND) C24: bootstrapping from end to end.
#include "boot.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;
#ifdef EVALROUND
static constexpr bool ROUND = true;
#else
static constexpr bool ROUND = false;
#endif

// D = LOGq = scale of EvalMod, CD and SD the scales of the two linear transforms, OUT the modulus afterwards
template <int LOGN, int G, int D, int CD, int SD, int OUT> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2, S = (LOGN - 1) / G, K = 24, QEM = OUT + S * SD, QCTS = QEM + 12 * D, Q = QCTS + S * CD;
	static ld top(const Vec& v) { ld t = 0; for (auto& c : v) t = std::max(t, std::abs(c)); return t; }
	static void run(Gen& g) {
		static std::unique_ptr<R_Q<D, N>> pt(new R_Q<D, N>); static std::unique_ptr<R_Q_square<D, N>> ct(new R_Q_square<D, N>); static std::unique_ptr<R_Q_square<Q, N>> up(new R_Q_square<Q, N>); static std::unique_ptr<R_Q_square<Q, N>[]> cts(new R_Q_square<Q, N>[2]); static std::unique_ptr<R_Q_square<QCTS, N>[]> rs(new R_Q_square<QCTS, N>[2]); static std::unique_ptr<R_Q_square<QEM, N>[]> em(new R_Q_square<QEM, N>[2]), qi(new R_Q_square<QEM, N>[2]); static std::unique_ptr<R_Q_square<QEM, N>> stc(new R_Q_square<QEM, N>); static std::unique_ptr<R_Q_square<OUT, N>> out(new R_Q_square<OUT, N>), sub(new R_Q_square<OUT, N>);
		int h = (int)g.below(std::min(N, 42) + 1); auto s = gen_key(g, N, h), s0 = s; srand((unsigned)g.u64()); int kind = (int)g.below(4), logd = D - 9 - (int)g.below(6); Poly m(N); Vec z; std::string what;
		if (kind < 2) { static Message<LOGN> x; gen_reals(g, x.r, H, 0.7); gen_reals(g, x.i, H, 0.7); encode<D, LOGN>(x.r, x.i, 1ull << logd, *pt); HEAAN<D, N>::enc(*pt, s.data(), *ct); z.resize(H); for (int k = 0; k < H; k++) z[k] = cld(x.r[k], x.i[k]); g.label("message"); what = fmt("message at 2^%d, slot 0 = %.6g%+.6gi", logd, x.r[0], x.i[0]); }
		else { Poly p = gen_spoly(g, N, logd); if (kind == 2) { make_ct(g, p, s.data(), *ct); g.label("polynomial"); }
			else { Poly b(N); mpz_class hi = pow2(D - 1) - 1, lo = -pow2(D - 1); bool u = g.below(2); for (int j = 0; j < N; j++) { int t = s[(N - j) % N] * (j == 0 ? 1 : -1); if (t) b[j] = (t > 0) == u ? hi : lo; } put(*ct, padd(p, pmul(b, ipoly(s.data(), N)), -1), b); g.label("largest multiple of q"); } what = "polynomial " + polystr(p); }
		m = rdec(*ct, s.data()); Poly a0 = get((*ct)[0]), b0 = get((*ct)[1]); g.note(fmt("LOGN=%d G=%d LOGq=%d CtS 2^%d StC 2^%d LOGQ=%d to %d h=%d ", LOGN, G, D, CD, SD, Q, OUT, h) + what);
		garbage(*up, g); mod_raise<D, Q, N>(*ct, *up); PBT_CHECK(get((*ct)[0]) == a0 && get((*ct)[1]) == b0, "mod_raise changed its input"); Poly d = rdec(*up, s.data());
		garbage(cts[0], g); garbage(cts[1], g); CoeffToSlot<Q, LOGN, CD, G>(*up, s.data(), cts.get());
		for (int i = 0; i < 2; i++) { RS<Q, QCTS, N>(cts[i], rs[i]); EvalMod<QCTS, N, D, K>(rs[i], s.data(), em[i]); if (ROUND) { resize<QCTS, QEM, N>(rs[i], qi[i]); qi[i] -= em[i]; } }
		SlotToCoeff<QEM, LOGN, SD, G>(ROUND ? qi[0] : em[0], ROUND ? qi[1] : em[1], s.data(), *stc); RS<QEM, OUT, N>(*stc, *out);
		if (ROUND) { resize<Q, OUT, N>(*up, *sub); *sub -= *out; } const auto& fin = ROUND ? *sub : *out; reduced(fin, "bootstrapped ciphertext"); PBT_CHECK(s == s0, "the key changed");
		// error of a slot holding a coefficient, in units of q
		ld q = ldexpl(1, D), rho = N * ((1 + h) / 2.0L + 0.01L), v = top(slots(d)), I = 0, f = 0; for (int k = 0; k < N; k++) { I = std::max(I, fabsl(roundl(ldexpl(1, -D) * d[k].get_d()))); f = std::max(f, (ld)fabs(m[k].get_d()) / q); }
		ld ec = (2 * stages_error(LOGN, CD, G, v, 0, cts_row(LOGN), h) + switch_error(N, h)) / ldexpl(1, CD * S), worst = 0; if (h) ec = std::min(ec, cts_error(LOGN, CD, G, d, s, get((*up)[1]), Q)); ec = (ec + (h ? rescale_error(N, s) : rho)) / q * 1.001L;
		if (I + f + ec > 23.6L || f + ec > 0.125L) { g.label("beyond the range of EvalMod"); throw Discard{}; }
		ld ev = 0, rem = ec * std::min((ld)N, 4 * sqrtl(N)), re = h ? rescale_error(N, s) : rho; Vec x[2]; for (auto& y : x) y.resize(H); // sums over all coefficients: of the errors of the reduction, of what remains of the error before (for qI = x - (x mod 1) it cancels)
		for (int k = 0; k < N; k++) { int i = 0; for (int t = 0; t < LOGN - 1; t++) if ((k % H) >> t & 1) i |= 1 << (LOGN - 2 - t); ld fk = ldexpl(1, -D) * m[k].get_d(), Ik = roundl(ldexpl(1, -D) * d[k].get_d()); x[k / H][i] = (ROUND ? Ik : fk) * q; ev += std::min(evalmod_error(Ik + fk, ec, N, D, h, re / q), evalmod_worst(N, D, h)) + 1.05L * series_error(fabsl(fk) + ec); }
		ld st = 0; if (h) st = stc_error(LOGN, SD, G, x[0], x[1], s, get((ROUND ? qi[0] : em[0])[1]), get((ROUND ? qi[1] : em[1])[1]), QEM); else { ld top0 = (ROUND ? I : f) * q; st = 2 * stages_error(LOGN, SD, G, top0, 0, 2, h) / ldexpl(1, SD * S); }
		ld tol = ((ev + (ROUND ? 0 : rem)) * q * 1.01L + st + re) * 1.001L;
		Vec got = slots(rdec(fin, s.data())), want = slots(m);
		for (int k = 0; k < H; k++) worst = std::max(worst, std::abs(got[k] - want[k]));
		if (getenv("SHOW")) printf("LOGN=%d G=%d D=%d h=%d I=%.0Lf error 2^%.1Lf bound 2^%.1Lf cts 2^%.1Lf ev 2^%.1Lf message 2^%.1Lf\n", LOGN, G, D, h, I, log2l(worst), log2l(tol), log2l(ec), log2l(ev), log2l(top(want)));
		tight(fmt("LOGN=%d G=%d D=%d", LOGN, G, D), worst, tol); PBT_CHECK(worst <= tol, "LOGN=%d G=%d LOGq=%d CtS 2^%d StC 2^%d LOGQ=%d to %d h=%d: a slot is off by %.6Lg, the bound is %.6Lg, the largest slot %.6Lg", LOGN, G, D, CD, SD, Q, OUT, h, worst, tol, top(want)); g.count(H);
		if (!z.empty()) { static Message<LOGN> y; static std::unique_ptr<R_Q<OUT, N>> po(new R_Q<OUT, N>); HEAAN<OUT, N>::dec(fin, s.data(), *po); decode_log<OUT, LOGN>(*po, logd, y.r, y.i); ld t = (tol + 8.6L * N) / ldexpl(1, logd) + EPS * N * (32 * LOGN + 32); for (int k = 0; k < H; k++) PBT_CHECK(std::abs(cld(y.r[k], y.i[k]) - z[k]) <= t, "LOGN=%d G=%d LOGq=%d h=%d: slot %d comes back as %.9g%+.9gi, was %.9Lg%+.9Lgi +- %.3Lg", LOGN, G, D, h, k, y.r[k], y.i[k], z[k].real(), z[k].imag(), t); g.count(H); }
		if (I > 0) g.label("multiple of q to remove"); if (top(want) > 16 * tol && I > 0) g.nontrivial(); else g.label("message below the error bound, or nothing to remove");
	}
};
using F = void (*)(Gen&);
struct Conf { int LOGN, G, D, CD, SD, OUT; };
#ifdef EVALROUND
static constexpr Conf C[] = {{3,1,50,28,50,80},{3,2,60,24,60,100},{4,1,60,34,60,80},{4,3,50,30,50,70},{5,2,60,30,60,90},{5,4,50,40,50,70},{2,1,55,20,55,75},{4,3,60,42,50,64},{7,3,60,45,60,80},{6,1,60,40,58,80},{9,4,60,50,60,90}};
#else
static constexpr Conf C[] = {{3,1,50,50,50,80},{3,2,60,60,50,100},{4,1,60,58,50,80},{4,3,50,50,40,70},{5,2,60,60,50,90},{5,4,50,52,45,70},{2,1,55,55,40,75},{4,3,60,60,30,64},{7,3,60,60,50,80},{6,1,60,60,45,80},{9,4,60,60,55,90}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].LOGN, C[I].G, C[I].D, C[I].CD, C[I].SD, C[I].OUT>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 5 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = SMALL.empty() ? 0 : add("bootstrap", (int)SMALL.size() * 50, (int)SMALL.size() * 3000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("bootstrap_large", (int)LARGE.size() * 2, (int)LARGE.size() * 40, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
