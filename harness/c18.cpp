// C18: homomorphic linear transforms against the slotwise map.
#include "lt.h"
#include "impl/message.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

// a matrix of S diagonals with its library form; offsets, zero marks and entries of every kind
template <int H, int S> struct Mat {
	SparseDiagonal<H, S> r, i; Layer ref;
	void gen(Gen& g, double mag, bool distinct) {
		ref.clear(); r.setzero(); i.setzero(); std::string d;
		for (int s = 0; s < S; s++) {
			int off = (int)g.below(H); if (distinct && S <= H) for (bool again = true; again;) { again = false; for (int t = 0; t < s; t++) if (r.off[t] == off) { off = (off + 1) % H; again = true; } }
			r.off[s] = i.off[s] = off; Diag D; D.off = off; D.v.assign(H, 0); int kind = (int)g.below(6);
			if (kind == 0) { g.label("diagonal marked zero"); d += fmt("%d:zero ", off); continue; } // stays marked
			bool re = kind != 1, im = kind != 2; gen_reals(g, r.vec[s], H, mag); gen_reals(g, i.vec[s], H, mag);
			if (!re) for (int k = 0; k < H; k++) r.vec[s][k] = 0; if (!im) for (int k = 0; k < H; k++) i.vec[s][k] = 0;
			r.zero[s] = !re && g.below(2); i.zero[s] = !im && g.below(2); if (r.zero[s] != i.zero[s]) g.label("one part marked zero"); if (off == 0) g.label("offset 0"); if (S > 1 && off * 2 > H) g.label("offset above half");
			for (int k = 0; k < H; k++) D.v[k] = cld(r.vec[s][k], i.vec[s][k]); ref.push_back(D); d += fmt("%d ", off);
		}
		g.note("offsets " + d);
	}
};
template <int L, int LOGN, int DELTA, int S> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using K = R_Q_square<2 * L, N>; using C = R_Q_square<L, N>;
	static void check(Gen& g, const C& in, const C& out, const Poly& a, const Poly& b, const std::vector<int>& s, const Slots& want, const std::string& what) {
		reduced(out, what.c_str()); PBT_CHECK(get(in[0]) == a && get(in[1]) == b, "%s changed its input", what.c_str());
		if (!fits(want, L)) { g.label("modulus too small"); throw Discard{}; }
		near(slots(rdec(out, s.data())), want, fmt("LOGQ=%d LOGN=%d LOGDELTA=%d S=%d ", L, LOGN, DELTA, S) + what); g.count(H);
		ld top = 0; for (auto& c : want.t) top = std::max(top, std::abs(c)); ld e = 0; for (auto v : want.e) e = std::max(e, v); if (top > 16 * e && top > 0) g.nontrivial(); else g.label("result below its error bound");
	}
	static Slots input(const Poly& m) { Slots z; z.t = slots(m); z.e.assign(H, 0); for (auto& c : z.t) (void)c; return z; }
	static double mag(Gen& g) { double lim = std::ldexp(1.0, 62 - DELTA) / 4; return g.below(3) == 0 ? lim : g.below(2) ? std::min(1.0, lim) : std::min(std::ldexp(1.0, -(int)g.below(DELTA / 2 + 1)), lim); }
	static int mbits(Gen& g, int depth) { int top = L - depth * (DELTA + 3 + LOGN) - 6 - LOGN; if (top < 2) throw Discard{}; int want = g.range(20, 50); return std::min(top, want); }
	static void single(Gen& g) {
		static std::unique_ptr<C> ct(new C), out(new C); static Mat<H, S> A; int form = (int)g.below(3); A.gen(g, mag(g), false); auto s = gen_key(g, N, (int)g.below(std::min(N, 40) + 1)); Poly m = gen_message(g, N, mbits(g, 1)); make_ct(g, m, s.data(), *ct); Poly a = get((*ct)[0]), b = get((*ct)[1]);
		garbage(*out, g); srand((unsigned)g.u64()); static const char* names[] = {"transform with generated keys", "transform with given keys", "serial transform of one layer"}; g.note(fmt("%s LOGQ=%d LOGN=%d LOGDELTA=%d S=%d h=%d", names[form], L, LOGN, DELTA, S, weight(s)));
		if (form == 0) linear_transform<L, LOGN, DELTA, S>(A.r, A.i, *ct, s.data(), *out);
		else if (form == 1) {
			static std::unique_ptr<K[]> keys(new K[S]); const K* kp[S]; for (int t = 0; t < S; t++) { std::vector<int> sr(N); rot<N>(s.data(), sr.data(), A.r.off[t]); HEAAN<L, N>::swkgen(sr.data(), s.data(), keys[t]); kp[t] = &keys[t]; }
			linear_transform<L, LOGN, DELTA, S>(A.r, A.i, *ct, kp, *out);
		} else { static SparseDiagonal<H, S> Ar[1], Ai[1]; Ar[0] = A.r; Ai[0] = A.i; serial_linear_transform<L, LOGN, DELTA, S, 1>(Ar, Ai, *ct, s.data(), *out); }
		g.label(names[form]); check(g, *ct, *out, a, b, s, step(A.ref, input(m), ldexpl(1, DELTA), switch_error(N, weight(s)), N), names[form]);
	}
	template <int D, int G> static void grouped(Gen& g, bool direct) {
		static std::unique_ptr<C> ct(new C), out(new C); static Mat<H, S> A[D]; static SparseDiagonal<H, S> Ar[D], Ai[D];
		double mg = std::min(mag(g), std::pow(std::ldexp(1.0, 61 - DELTA) / std::pow((double)S, G), 1.0 / G)); if (mg > 4) mg = 4;
		int bits = mbits(g, D / G + (mg > 1 ? 1 : 0)); for (int d = 0; d < D; d++) { A[d].gen(g, mg, g.below(2)); Ar[d] = A[d].r; Ai[d] = A[d].i; }
		auto s = gen_key(g, N, (int)g.below(std::min(N, 40) + 1)); Poly m = gen_message(g, N, bits); make_ct(g, m, s.data(), *ct); Poly a = get((*ct)[0]), b = get((*ct)[1]); garbage(*out, g); srand((unsigned)g.u64());
		std::string what = fmt("%d layers in groups of %d", D, G); g.note(fmt("%s LOGQ=%d LOGN=%d LOGDELTA=%d S=%d h=%d", what.c_str(), L, LOGN, DELTA, S, weight(s))); g.label(what);
		if (!direct) grouped_serial_linear_transform<L, LOGN, DELTA, S, D, G>(Ar, Ai, *ct, s.data(), *out);
		else if constexpr (G == 1) serial_linear_transform<L, LOGN, DELTA, S, D>(Ar, Ai, *ct, s.data(), *out);
		else if constexpr (G == 2) grouped2_serial_linear_transform<L, LOGN, DELTA, S, D>(Ar, Ai, *ct, s.data(), *out);
		else if constexpr (G == 3) grouped3_serial_linear_transform<L, LOGN, DELTA, S, D>(Ar, Ai, *ct, s.data(), *out);
		else grouped4_serial_linear_transform<L, LOGN, DELTA, S, D>(Ar, Ai, *ct, s.data(), *out);
		Slots z = input(m); for (int d = 0; d < D; d += G) { Layer B = A[d].ref; for (int k = 1; k < G; k++) B = product(A[d + k].ref, B); z = step(B, z, ldexpl(1, DELTA), switch_error(N, weight(s)), N); if (!fits(z, L)) { g.label("modulus too small"); throw Discard{}; } }
		check(g, *ct, *out, a, b, s, z, what);
	}
#ifdef DENSE
	static void dense(Gen& g) {
		static std::unique_ptr<C> ct(new C), out(new C); static std::unique_ptr<K> key(new K); static double Ar[H][H], Ai[H][H]; double mg = mag(g); gen_reals(g, &Ar[0][0], H * H, mg); gen_reals(g, &Ai[0][0], H * H, mg);
		auto s = gen_key(g, N, (int)g.below(std::min(N, 40) + 1)); Poly m = gen_message(g, N, mbits(g, 1)); make_ct(g, m, s.data(), *ct); Poly a = get((*ct)[0]), b = get((*ct)[1]); garbage(*out, g); srand((unsigned)g.u64());
		std::vector<int> sr(N); rot<N>(s.data(), sr.data(), 1); HEAAN<L, N>::swkgen(sr.data(), s.data(), *key); g.note(fmt("dense transform LOGQ=%d LOGN=%d LOGDELTA=%d h=%d", L, LOGN, DELTA, weight(s))); g.label("dense");
		linear_transform<L, LOGN, DELTA>(Ar, Ai, *ct, *key, *out);
		Layer A(H); for (int d = 0; d < H; d++) { A[d].off = d; A[d].v.resize(H); for (int i = 0; i < H; i++) A[d].v[i] = cld(Ar[i][(i + d) % H], Ai[i][(i + d) % H]); }
		check(g, *ct, *out, a, b, s, step(A, input(m), ldexpl(1, DELTA), H * switch_error(N, weight(s)), N), "dense transform");
	}
#endif
	static void run(Gen& g) {
#ifdef DENSE // a binary of its own, because only its instantiation shows whether the dense form compiles
		dense(g);
#else
		switch (g.below(5)) {
		case 0: case 1: case 2: single(g); break;
		case 3: if constexpr (L == 320 || L == 850 || L == 255) { bool d = g.below(2); switch (g.below(3)) { case 0: grouped<6, 2>(g, d); break; case 1: if constexpr (L == 850) { if (g.below(2)) grouped<5, 1>(g, d); else grouped<6, 3>(g, d); } else grouped<6, 3>(g, d); break; default: if constexpr (L == 850) grouped<8, 4>(g, d); else grouped<8, 2>(g, d); } break; } // fall through
		default: if constexpr (S <= 3 && L >= 120) { bool d = g.below(2); switch (g.below(6)) {
			case 0: grouped<2, 1>(g, d); break; case 1: grouped<2, 2>(g, d); break; case 2: if constexpr (L >= 200) { grouped<4, 2>(g, d); break; }
			case 3: grouped<3, 3>(g, d); break; case 4: if constexpr (L >= 250) { grouped<3, 1>(g, d); break; } default: grouped<4, 4>(g, d); } } else single(g);
		}
#endif
	}
};
#ifdef DENSE
#define NAME "dense"
#define QUICK 60
#else
#define NAME "transform"
#define QUICK 400
#endif
using F = void (*)(Gen&);
struct Conf { int Q, LOGN, DELTA, S; };
#ifdef BIG
#define BIGN(x) ((x) / 4)
static constexpr Conf C[] = {{120,10,30,3},{100,12,30,2},{90,13,28,1}};
#else
#define BIGN(x) (x)
static constexpr Conf C[] = {{120,2,30,2},{128,3,40,3},{250,4,50,3},{320,5,40,3},{200,3,20,1},{192,4,60,2},{100,5,35,5},{300,6,45,3},{850,4,60,3},{129,4,25,7},{255,3,50,2},{400,4,55,3},{160,7,45,3},{1450,4,60,3},{300,8,40,3}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN, C[I].DELTA, C[I].S>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) { if (QUICK == 60 && C[i].LOGN > 6) continue; (C[i].LOGN <= 6 ? SMALL : LARGE).push_back(ALL[i]); } return true; }();
static int p1 = SMALL.empty() ? 0 : add(NAME, (int)SMALL.size() * QUICK, (int)SMALL.size() * QUICK * 20, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add(NAME "_large", (int)LARGE.size() * BIGN(8), (int)LARGE.size() * BIGN(100), (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
