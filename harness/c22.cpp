// C22: raising the modulus.
#include "he.h"
#include "HEAAN/bootstrap.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int A, int B, int LOGN> struct T {
	static constexpr int N = 1 << LOGN;
	static void run(Gen& g) {
		static std::unique_ptr<R_Q_square<A, N>> ct(new R_Q_square<A, N>); static std::unique_ptr<R_Q_square<B, N>> out(new R_Q_square<B, N>); static std::unique_ptr<R_Q<A, N>> pt(new R_Q<A, N>);
		int h = g.below(6) == 0 ? N : (int)g.below(std::min(N, 256) + 1); if (N > 1024) h = std::min(h, 300); auto s = gen_key(g, N, h), s0 = s; Poly a, b; garbage(*out, g); srand((unsigned)g.u64()); int kind = (int)g.below(4);
		if (kind == 0) { Poly m = gen_poly(g, N, A); put(*pt, m); HEAAN<A, N>::enc(*pt, s.data(), *ct); g.label("fresh"); }
		else if (kind == 1) { // components at the ends of the range, aligned with the key so that the multiple is as large as it gets
			a.assign(N, 0); b.assign(N, 0); mpz_class hi = pow2(A - 1) - (long)g.below(2), lo = pow2(A - 1) + (long)g.below(2); bool up = g.below(2); for (int j = 0; j < N; j++) { int t = s[(N - j) % N] * (j == 0 ? 1 : -1); b[j] = mod2(t ? ((t > 0) == up ? hi - 1 : lo) : mpz_class(0), A); } a[0] = up ? hi - 1 : lo; put(*ct, a, b); g.label("largest multiple"); }
		else { a = gen_poly(g, N, A); b = gen_poly(g, N, A); put(*ct, a, b); g.label("arbitrary"); }
		a = get((*ct)[0]); b = get((*ct)[1]); g.note(fmt("raise LOGQ=%d to %d N=%d h=%d", A, B, N, h)); mod_raise<A, B, N>(*ct, *out);
		PBT_CHECK(get((*ct)[0]) == a && get((*ct)[1]) == b && s == s0, "mod_raise changed its input"); reduced(*out, "raised ciphertext"); Poly m = rdec(*ct, s.data()), d = rdec(*out, s.data()); mpz_class top = 0; bool bounded = mpz_class(h + 4) << A <= pow2(B);
		for (int i = 0; i < N; i++) { mpz_class x = d[i] - m[i]; PBT_CHECK(mod2(x, A) == 0, "LOGQ=%d to %d N=%d h=%d: coefficient %d is %s, before %s: no multiple of the old modulus apart", A, B, N, h, i, str(d[i]).c_str(), str(m[i]).c_str()); x >>= A; if (abs(x) > top) top = abs(x); PBT_CHECK(!bounded || 2 * abs(x) <= h + 2, "LOGQ=%d to %d N=%d h=%d: coefficient %d moved by %s times the old modulus", A, B, N, h, i, str(x).c_str()); }
		g.count(2 * N); if (bounded) g.label("bounded"); if (top > 0) g.label("multiple is not zero"); if (h && psum(b) != 0) g.nontrivial();
	}
};
using F = void (*)(Gen&);
struct Conf { int A, B, LOGN; };
static constexpr Conf C[] = {{10,20,3},{20,64,2},{33,65,4},{50,110,5},{60,130,3},{60,300,6},{60,850,4},{60,1450,5},{63,64,2},{63,200,4},{64,128,5},{64,65,3},{64,192,4},{65,129,3},{65,320,4},{100,700,5},{127,128,2},{128,129,4},{128,1100,4},{192,500,3},{250,1000,4},{320,400,6},{60,1450,9},{64,850,11},{100,130,12},{850,1450,8}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].A, C[I].B, C[I].LOGN>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 6 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = add("raise", (int)SMALL.size() * 400, (int)SMALL.size() * 20000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("raise_large", (int)LARGE.size() * 30, (int)LARGE.size() * 600, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
