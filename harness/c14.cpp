// C14: key generation, encryption, decryption.
#include "he.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int L, int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2;
	static void keys(Gen& g) {
		int h = g.below(3) == 0 ? (g.below(2) ? N : 0) : (int)g.below(N + 1); if (N > 4096) h = std::min(h, 400); srand((unsigned)g.u64()); std::vector<int> s(N, 77);
		HEAAN<L, N>::keygen(h, s.data()); int w = 0; for (int v : s) { PBT_CHECK(v >= -1 && v <= 1, "N=%d h=%d: a key coefficient is %d", N, h, v); w += v != 0; }
		g.note(fmt("key N=%d h=%d", N, h)); PBT_CHECK(w == h, "N=%d: key of weight %d where %d was asked for", N, w, h); g.count(N); if (h > 0 && h < N) g.nontrivial();
	}
	static void encdec(Gen& g) {
		static std::unique_ptr<R_Q<L, N>> pt(new R_Q<L, N>), out(new R_Q<L, N>); static std::unique_ptr<R_Q_square<L, N>> ct(new R_Q_square<L, N>);
		int h = (int)g.below(std::min(N, 200) + 1); auto s = gen_key(g, N, h), s0 = s; Poly m = gen_poly(g, N, L); put(*pt, m); garbage(*ct, g); srand((unsigned)g.u64());
		g.note(fmt("encrypt LOGQ=%d N=%d h=%d m=%s", L, N, h, polystr(m).c_str()));
		HEAAN<L, N>::enc(*pt, s.data(), *ct);
		PBT_CHECK(get(*pt) == m && s == s0, "enc changed its input"); reduced(*ct, "fresh ciphertext");
		Poly d = rdec(*ct, s.data()); for (int i = 0; i < N; i++) { mpz_class e = centered2(d[i] - m[i], L); PBT_CHECK(abs(e) <= 8, "LOGQ=%d N=%d h=%d: noise of coefficient %d is %s", L, N, h, i, str(e).c_str()); }
		garbage(*out, g); Poly a = get((*ct)[0]), b = get((*ct)[1]); HEAAN<L, N>::dec(*ct, s.data(), *out);
		for (int i = 0; i < N; i++) PBT_CHECK(raw((*out)[i]) == mod2(d[i], L), "LOGQ=%d N=%d h=%d: decryption coefficient %d is %s, want %s", L, N, h, i, str(raw((*out)[i])).c_str(), str(mod2(d[i], L)).c_str());
		PBT_CHECK(get((*ct)[0]) == a && get((*ct)[1]) == b && s == s0, "dec changed its input");
		g.count(2 * N); int nz = 0; for (auto& v : m) nz += v != 0; if (h && nz) g.nontrivial();
	}
	static void anyct(Gen& g) { // decryption of ciphertexts that are not fresh
		static std::unique_ptr<R_Q<L, N>> out(new R_Q<L, N>); static std::unique_ptr<R_Q_square<L, N>> ct(new R_Q_square<L, N>);
		int h = (int)g.below(std::min(N, 200) + 1); auto s = gen_key(g, N, h); Poly a = gen_poly(g, N, L), b = gen_poly(g, N, L); put(*ct, a, b); garbage(*out, g);
		g.note(fmt("decrypt LOGQ=%d N=%d h=%d", L, N, h)); HEAAN<L, N>::dec(*ct, s.data(), *out); Poly d = rdec(*ct, s.data());
		for (int i = 0; i < N; i++) PBT_CHECK(raw((*out)[i]) == mod2(d[i], L), "LOGQ=%d N=%d h=%d: decryption coefficient %d", L, N, h, i);
		g.count(N); if (h) g.nontrivial();
	}
	static void message(Gen& g) { // a message comes back
		if constexpr (LOGN >= 2 && L >= 24) {
			static Message<LOGN> z, y; static std::unique_ptr<R_Q<L, N>> pt(new R_Q<L, N>), out(new R_Q<L, N>); static std::unique_ptr<R_Q_square<L, N>> ct(new R_Q_square<L, N>);
			int k = 1 + (int)g.below(std::min(L - LOGN - 8, 60)); if (k < 1) k = 1; uint64_t D = 1ull << k; gen_reals(g, z.r, H, 0.7); gen_reals(g, z.i, H, 0.7); srand((unsigned)g.u64());
			std::vector<int> s(N); int h = std::min(N, 1 + (int)g.below(192)); HEAAN<L, N>::keygen(h, s.data()); g.note(fmt("message LOGQ=%d N=%d h=%d Delta=2^%d", L, N, h, k));
			encode(z, D, *pt); HEAAN<L, N>::enc(*pt, s.data(), *ct); HEAAN<L, N>::dec(*ct, s.data(), *out); decode(*out, D, y);
			ld tol = 8.5L * N / D + EPS * N * (32 * LOGN + 32); for (int i = 0; i < H; i++) PBT_CHECK(fabsl((ld)y.r[i] - z.r[i]) <= tol && fabsl((ld)y.i[i] - z.i[i]) <= tol, "LOGQ=%d N=%d Delta=2^%d slot %d: %.12g%+.12gi came back as %.12g%+.12gi", L, N, k, i, z.r[i], z.i[i], y.r[i], y.i[i]);
			g.count(H); g.nontrivial();
		} else encdec(g);
	}
	static void run(Gen& g) { switch (g.below(6)) { case 0: keys(g); break; case 1: case 2: encdec(g); break; case 3: anyct(g); break; default: message(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN; };
static constexpr Conf C[] = {{5,1},{20,2},{22,4},{30,3},{52,5},{60,4},{62,3},{63,5},{64,4},{65,3},{110,6},{128,5},{129,4},{192,3},{250,5},{300,4},{384,6},{640,3},{850,5},{1024,4},{1450,5},{2900,3},
	{60,9},{64,11},{120,10},{850,9},{1450,9},{60,15}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 6 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = add("encryption", (int)SMALL.size() * 300, (int)SMALL.size() * 6000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("encryption_large", (int)LARGE.size() * 15, (int)LARGE.size() * 200, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
