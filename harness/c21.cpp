// C21: moving coefficients to slots and slots to coefficients.
#include "boot.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int L, int LOGN, int D, int G> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2, STAGES = (LOGN - 1) / G; using C = R_Q_square<L, N>;
	static int brev(int i) { int r = 0; for (int b = 0; b < LOGN - 1; b++) if (i >> b & 1) r |= 1 << (LOGN - 2 - b); return r; }
	// error of every slot after all stages; rows of a layer have absolute sum `row`, values start below v
	static ld bound(ld v, ld e, ld row, int h) { return stages_error(LOGN, D, G, v, e, row, h); }
	static ld top(const Vec& v) { ld t = 0; for (auto& c : v) t = std::max(t, std::abs(c)); return t; }
	static ld cts_row() { return ref::cts_row(LOGN); }
	static ld stages_scale() { return ldexpl(1, D * STAGES); }
	static int room() { return L - D * STAGES - LOGN - 8; }
	static Poly message(Gen& g, int extra) { int bits = room() - extra; if (bits < 4) throw Discard{}; return gen_message(g, N, std::min(bits, 20 + (int)g.below(45))); }
	static void check(Gen& g, const char* what, const Vec& got, const Vec& want, ld tol) {
		for (int i = 0; i < H; i++) tight(fmt("%s, LOGQ=%d LOGN=%d LOGDELTA=%d G=%d", what, L, LOGN, D, G), std::abs(got[i] - want[i]), tol);
		for (int i = 0; i < H; i++) PBT_CHECK(std::abs(got[i] - want[i]) <= tol, "LOGQ=%d LOGN=%d LOGDELTA=%d G=%d %s: slot %d is %.12Lg%+.12Lgi, want %.12Lg%+.12Lgi +- %.3Lg", L, LOGN, D, G, what, i, got[i].real(), got[i].imag(), want[i].real(), want[i].imag(), tol);
		g.count(H); if (top(want) > 16 * tol) g.nontrivial(); else g.label("result below its error bound");
	}
	static void cts(Gen& g, bool back) {
		static std::unique_ptr<C> ct(new C), out2(new C); static std::unique_ptr<C[]> o(new C[2]); auto s = gen_key(g, N, (int)g.below(std::min(N, 40) + 1)); int h = weight(s); Poly m = message(g, back ? D * STAGES + LOGN : 0); make_ct(g, m, s.data(), *ct); Poly a = get((*ct)[0]), b = get((*ct)[1]);
		garbage(o[0], g); garbage(o[1], g); srand((unsigned)g.u64()); g.note(fmt("coefficients to slots%s LOGQ=%d LOGN=%d LOGDELTA=%d G=%d h=%d m=%s", back ? " and back" : "", L, LOGN, D, G, h, polystr(m).c_str())); g.label(back ? "there and back" : "coefficients to slots");
		CoeffToSlot<L, LOGN, D, G>(*ct, s.data(), o.get()); PBT_CHECK(get((*ct)[0]) == a && get((*ct)[1]) == b, "CoeffToSlot changed its input");
		Vec z = slots(m); ld v = top(z), e = 2 * bound(v, 0, cts_row(), h) + switch_error(N, h); if (h > 0) e = std::min(e, cts_error(LOGN, D, G, m, s, b, L) * stages_scale());
		Vec x[2]; for (int c = 0; c < 2; c++) { reduced(o[c], "coefficients to slots"); Poly d = rdec(o[c], s.data()); Vec w(H); for (int i = 0; i < H; i++) w[i] = ldexpl(m[brev(i) + c * H].get_d(), 0) * stages_scale(); x[c] = w; check(g, c ? "upper coefficients" : "lower coefficients", slots(d), w, e + top(w) * 0x1p-52L); }
		if (!back) return;
		garbage(*out2, g); Poly a0 = get(o[0][0]), b0 = get(o[0][1]), a1 = get(o[1][0]), b1 = get(o[1][1]); SlotToCoeff<L, LOGN, D, G>(o[0], o[1], s.data(), *out2); reduced(*out2, "there and back");
		PBT_CHECK(get(o[0][0]) == a0 && get(o[0][1]) == b0 && get(o[1][0]) == a1 && get(o[1][1]) == b1, "SlotToCoeff changed its input");
		Vec w = z; for (auto& c : w) c *= stages_scale() * stages_scale(); ld v2 = std::max(top(x[0]), top(x[1])) + e; ld e2 = 2 * bound(v2, e + v2 * 0x1p-52L, 2, h); if (h > 0) e2 = std::min(e2, (stc_error(LOGN, D, G, x[0], x[1], s, b0, b1, L) + N * (e + v2 * 0x1p-52L)) * stages_scale());
		check(g, "there and back", slots(rdec(*out2, s.data())), w, e2 + top(w) * 0x1p-52L);
	}
	static void stc(Gen& g) {
		static std::unique_ptr<C> c0(new C), c1(new C), out(new C); auto s = gen_key(g, N, (int)g.below(std::min(N, 40) + 1)); int h = weight(s); Poly m[2]; for (auto& p : m) p = message(g, LOGN + 2); bool same = g.below(8) == 7; if (same) m[1] = m[0]; make_ct(g, m[0], s.data(), *c0); if (same) *c1 = *c0; else make_ct(g, m[1], s.data(), *c1);
		Poly a0 = get((*c0)[0]), b0 = get((*c0)[1]), a1 = get((*c1)[0]), b1 = get((*c1)[1]); garbage(*out, g); srand((unsigned)g.u64()); g.note(fmt("slots to coefficients LOGQ=%d LOGN=%d LOGDELTA=%d G=%d h=%d m=%s,%s", L, LOGN, D, G, h, polystr(m[0]).c_str(), polystr(m[1]).c_str())); g.label("slots to coefficients");
		SlotToCoeff<L, LOGN, D, G>(*c0, *c1, s.data(), *out); reduced(*out, "slots to coefficients"); PBT_CHECK(get((*c0)[0]) == a0 && get((*c0)[1]) == b0 && get((*c1)[0]) == a1 && get((*c1)[1]) == b1, "SlotToCoeff changed its input");
		Vec z0 = slots(m[0]), z1 = slots(m[1]), w(H); const Zeta& Z = Zeta::of(N);
		for (int j = 0; j < H; j++) { cld t = 0; for (int i = 0; i < H; i++) t += Z.t[(long)Z.five[j] * brev(i) % (2 * N)] * (z0[i] + cld(0, 1) * z1[i]); w[j] = t * stages_scale(); }
		ld tol = bound(top(z0), 0, 2, h) + bound(top(z1), 0, 2, h); if (h > 0) tol = std::min(tol, stc_error(LOGN, D, G, z0, z1, s, b0, b1, L) * stages_scale()); if (top(w) + tol > ldexpl(1, L - 3)) { g.label("modulus too small"); throw Discard{}; }
		check(g, "slots to coefficients", slots(rdec(*out, s.data())), w, tol + top(w) * 0x1p-50L);
	}
	static void run(Gen& g) { switch (g.below(4)) { case 0: case 1: cts(g, false); break; case 2: cts(g, 2 * D * STAGES + 2 * LOGN + 30 < L); break; default: stc(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN, D, G; };
#ifdef BIG
#define BIGN(x) ((x) / 2)
static constexpr Conf C[] = {{300,11,40,2},{230,10,40,3}};
#else
#define BIGN(x) (x)
static constexpr Conf C[] = {{150,2,50,1},{200,3,40,1},{130,3,30,2},{250,4,30,1},{160,4,55,3},{330,5,30,1},{280,5,50,2},{192,5,40,4},{300,7,35,3},{400,6,30,1},{320,4,20,1},{260,5,60,2},{1450,5,60,2},{850,4,50,3},{330,7,40,2},{500,9,45,2},{220,9,30,4}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN, C[I].D, C[I].G>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 6 && C[i].Q < 1000 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = SMALL.empty() ? 0 : add("slots", (int)SMALL.size() * 100, (int)SMALL.size() * 2500, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("slots_large", (int)LARGE.size() * BIGN(4), (int)LARGE.size() * BIGN(80), (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
