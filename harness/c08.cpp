// C08: polynomials and pairs of polynomials as modules over the integers modulo 2^LOGQ:
// sequences of operations on three registers against a list-of-integers model.
#include "ref.h"
#include "HEAAN/arith/R_Q_square.h"
#include <array>
#include <utility>
#include <memory>
using namespace pbt; using namespace ref;

template <int L, int N> struct T {
	using P = R_Q<L, N>; using S = R_Q_square<L, N>;
	static Poly fresh(Gen& g) { return gen_poly(g, N, L); }
	static void put(P& x, const Poly& a) { for (int i = 0; i < N; i++) set(x[i], a[i]); }
	static void same(const P& x, const Poly& a, const char* what, int step) {
		for (int i = 0; i < N; i++) PBT_CHECK(raw(((const P&)x)[i]) == a[i], "LOGQ=%d N=%d after step %d (%s): coefficient %d is %s, want %s", L, N, step, what, i, str(raw(x[i])).c_str(), str(a[i]).c_str());
	}
	static Poly plus(const Poly& a, const Poly& b, int sign) { Poly r(N); for (int i = 0; i < N; i++) r[i] = mod2(sign > 0 ? mpz_class(a[i] + b[i]) : mpz_class(a[i] - b[i]), L); return r; }
	static Poly times(const Poly& a, uint64_t k) { Poly r(N); for (int i = 0; i < N; i++) r[i] = mod2(a[i] * u64z(k), L); return r; }
	static uint64_t factor(Gen& g) { switch (g.below(5)) { case 0: return g.below(4); case 1: return ~0ull - g.below(3); case 2: return (1ull << g.below(64)) + g.below(3) - 1; default: return g.u64(); } }
	static void poly(Gen& g) {
		static std::unique_ptr<P[]> x(new P[3]); Poly m[3];
		for (int r = 0; r < 3; r++) { m[r] = fresh(g); put(x[r], m[r]); }
		int steps = 1 + (int)g.below(8); g.note(fmt("polynomials LOGQ=%d N=%d steps=%d", L, N, steps));
		for (int k = 0; k < steps; k++) {
			int a = (int)g.below(3), b = (int)g.below(3); const char* what = "";
			if (a == b) g.label("self operand");
			switch (g.below(6)) {
			case 0: what = "+="; x[a] += x[b]; m[a] = plus(m[a], m[b], 1); break;
			case 1: what = "-="; x[a] -= x[b]; m[a] = plus(m[a], m[b], -1); break;
			case 2: { what = "*= integer"; uint64_t f = factor(g); x[a] *= f; m[a] = times(m[a], f); break; }
			case 3: what = "="; x[a] = x[b]; m[a] = m[b]; break;
			case 4: { what = "copy"; std::unique_ptr<P> c(new P(x[b])); c->operator+=(x[a]); m[a] = plus(m[b], m[a], 1); x[a] = *c; break; }
			case 5: what = "setzero"; if (g.below(3) == 0) { x[a].setzero(); m[a] = Poly(N); } break;
			}
			g.note(fmt("%s %d,%d", what, a, b));
			for (int r = 0; r < 3; r++) same(x[r], m[r], what, k);
			g.count(3 * N);
		}
		if (steps > 1) g.nontrivial();
	}
	static void pair(Gen& g) {
		static std::unique_ptr<S[]> x(new S[3]); Poly m[3][2];
		for (int r = 0; r < 3; r++) for (int c = 0; c < 2; c++) { m[r][c] = fresh(g); put(x[r][c], m[r][c]); }
		int steps = 1 + (int)g.below(8); g.note(fmt("pairs LOGQ=%d N=%d steps=%d", L, N, steps)); bool diff = false;
		for (int k = 0; k < steps; k++) {
			int a = (int)g.below(3), b = (int)g.below(3); const char* what = "";
			if (a == b) g.label("self operand (pair)");
			switch (g.below(7)) {
			case 0: what = "+="; x[a] += x[b]; for (int c = 0; c < 2; c++) m[a][c] = plus(m[a][c], Poly(m[b][c]), 1); break;
			case 1: what = "-="; x[a] -= x[b]; for (int c = 0; c < 2; c++) m[a][c] = plus(m[a][c], Poly(m[b][c]), -1); break;
			case 2: { what = "*= integer"; uint64_t f = factor(g); x[a] *= f; for (int c = 0; c < 2; c++) m[a][c] = times(m[a][c], f); break; }
			case 3: what = "="; x[a] = x[b]; for (int c = 0; c < 2; c++) m[a][c] = Poly(m[b][c]); break;
			case 4: { what = "copy"; std::unique_ptr<S> d(new S(x[b])); *d -= x[a]; for (int c = 0; c < 2; c++) m[a][c] = plus(m[b][c], Poly(m[a][c]), -1); x[a] = *d; break; }
			case 5: what = "setzero"; if (g.below(3) == 0) { x[a].setzero(); m[a][0] = m[a][1] = Poly(N); } break;
			case 6: { what = "component +="; int c = (int)g.below(2), d = (int)g.below(2); x[a][c] += x[b][d]; m[a][c] = plus(m[a][c], Poly(m[b][d]), 1); break; }
			}
			g.note(fmt("%s %d,%d", what, a, b));
			for (int r = 0; r < 3; r++) for (int c = 0; c < 2; c++) { same(x[r][c], m[r][c], what, k); }
			diff = diff || m[a][0] != m[a][1];
			g.count(6 * N);
		}
		if (steps > 1 && diff) g.nontrivial();
	}
	static void run(Gen& g) { if (g.below(2)) pair(g); else poly(g); }
};
using F = void (*)(Gen&);
struct Conf { int Q, N; };
static constexpr Conf C[] = {{1,2},{2,4},{7,2},{20,8},{33,4},{59,8},{60,16},{63,2},{64,8},{65,4},{96,32},{127,4},{128,8},{129,2},{191,4},{192,16},{193,4},{250,8},{300,2},
	{320,4},{384,32},{385,2},{512,4},{640,8},{850,2},{1024,4},{1390,2},{1450,8},{2900,4},{60,1<<10},{60,1<<13},{128,512},{850,256},{1450,512}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].N>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].N <= 64 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = add("module", (int)SMALL.size() * 3000, (int)SMALL.size() * 40000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("module_large", (int)LARGE.size() * 60, (int)LARGE.size() * 800, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
