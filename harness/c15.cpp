// C15: randomness of ciphertexts, noise, keys and switching keys.  One case is a batch of calls; every statistic must stay
// within 8 standard deviations (a chance of about 1e-15 per statistic).
#include "he.h"
#include <array>
#include <utility>
#include <unordered_set>
using namespace pbt; using namespace ref;

static const double ZMAX = 8;
struct Words { int bits, n; std::vector<std::vector<uint64_t>> t; }; // t[sample][coefficient * limbs + limb]
static double zscore(long ones, long n) { return n ? (2.0 * ones - n) / sqrt((double)n) : 0; }
static void fair(long ones, long n, const std::string& where, const char* what, Gen& g) { g.count(); PBT_CHECK(fabs(zscore(ones, n)) < ZMAX, "%s: %s: %ld of %ld bits are set", where.c_str(), what, ones, n); }
// is some exclusive-or of the bits constant?  Bit vectors are added until they span everything; with 80 more of them than bits
// a random sample falls short with a chance of 2^-80
struct Span { int bits; std::vector<std::vector<uint64_t>> rows; int rank = 0; long added = 0; Span(int b) : bits(b + 1), rows(b + 1) {}
	bool full() const { return rank == bits; }
	void add(std::vector<uint64_t> v) { v.resize((bits + 63) / 64); v[(bits - 1) / 64] |= 1ull << ((bits - 1) % 64); added++;
		for (int i = 0; i < (int)v.size(); i++) while (v[i]) { int p = 64 * i + __builtin_ctzll(v[i]); if (rows[p].empty()) { rows[p] = v; rank++; return; } for (int j = i; j < (int)v.size(); j++) v[j] ^= rows[p][j]; } }
	void judge(const std::string& where, const char* what, Gen& g) { if (full()) { g.count(); return; } if (added < bits + 80) { g.label("too few samples for the rank of " + std::string(what)); return; } PBT_CHECK(false, "%s: the bits of %s are dependent, rank %d of %d after %ld samples", where.c_str(), what, rank, bits, added); } };
static void put_bits(std::vector<uint64_t>& v, int at, const uint64_t* w, int bits) { v.resize((at + bits + 63) / 64); for (int j = 0; j < bits; j++) if (w[j / 64] >> (j % 64) & 1) v[(at + j) / 64] |= 1ull << ((at + j) % 64); }
// uniform independent words?
static void uniform_words(const Words& w, const std::string& where, Gen& g, bool positions = true) {
	int L = w.bits, k = (L + 63) / 64, n = w.n; long M = (long)w.t.size();
	auto bit = [&](long t, int i, int j) { return (int)(w.t[t][i * k + j / 64] >> (j % 64) & 1); };
	auto value = [&](long t, int i, int l) { return w.t[t][i * k + l]; };
	std::vector<long> pos(L), coef(n), nextc(L), nextt(L), half(L), first(L); long nextb = 0;
	for (long t = 0; t < M; t++) { long all = 0;
		for (int i = 0; i < n; i++) for (int j = 0; j < L; j++) { int b = bit(t, i, j); pos[j] += b; coef[i] += b; all += b; nextb += j && b != bit(t, i, j - 1); if (i) nextc[j] += b != bit(t, i - 1, j); if (t) { nextt[j] += b != bit(t - 1, i, j); if (t > 1) first[j] += b != bit(0, i, j); } if (i >= n / 2 && n > 1) half[j] += b != bit(t, i - n / 2, j); }
		fair(all, (long)n * L, where, fmt("ciphertext %ld", t).c_str(), g); }
	for (int j = 0; j < L; j++) { fair(pos[j], M * n, where, fmt("bit %d", j).c_str(), g); fair(nextc[j], M * (n - 1), where, fmt("bit %d of neighbouring coefficients differ", j).c_str(), g); fair(nextt[j], (M - 1) * n, where, fmt("bit %d of consecutive ones differ", j).c_str(), g); fair(half[j], M * (n - n / 2), where, fmt("bit %d of coefficients N/2 apart differ", j).c_str(), g);
		if (M > 2) { double z = 0; for (int i = 0; i < n; i++) { long d = 0; for (long t = 1; t < M; t++) d += bit(t, i, j) != bit(0, i, j); z = std::max(z, fabs(zscore(d, M - 1))); } PBT_CHECK(M < 40 || z < ZMAX + 1, "%s: bit %d of the first one is repeated", where.c_str(), j); } }
	if (positions) for (int i = 0; i < n; i++) fair(coef[i], M * L, where, fmt("coefficient %d", i).c_str(), g);
	fair(nextb, M * n * (L - 1), where, "neighbouring bits differ", g);
	{ Span one(L), near(std::min(2 * L, 800)), next(std::min(2 * L, 800)); int hb = std::min(L, 400);
	  for (long t = 0; t < M; t++) for (int i = 0; i < n; i++) { std::vector<uint64_t> v; if (!one.full()) { put_bits(v, 0, &w.t[t][i * k], L); one.add(v); }
		if (i && !near.full()) { v.clear(); put_bits(v, 0, &w.t[t][i * k], hb); put_bits(v, hb, &w.t[t][(i - 1) * k], hb); near.add(v); }
		if (t && !next.full()) { v.clear(); put_bits(v, 0, &w.t[t][i * k], hb); put_bits(v, hb, &w.t[t - 1][i * k], hb); next.add(v); } }
	  one.judge(where, "a coefficient", g); near.judge(where, "neighbouring coefficients", g); next.judge(where, "a coefficient in consecutive ones", g); }
	if (L >= 64) { std::unordered_set<uint64_t> seen; for (long t = 0; t < M; t++) for (int i = 0; i < n; i++) for (int l = 0; l < L / 64; l++) { PBT_CHECK(seen.insert(value(t, i, l)).second, "%s: limb %d of coefficient %d of ciphertext %ld occurred before", where.c_str(), l, i, t); g.count(); } }
	if (L <= 9 && M * n >= 16L << L) { std::vector<long> c(1 << L); for (long t = 0; t < M; t++) for (int i = 0; i < n; i++) c[value(t, i, 0)]++; double e = (double)M * n / (1 << L), x = 0; for (long v : c) x += (v - e) * (v - e) / e; double df = (1 << L) - 1; PBT_CHECK((x - df) / sqrt(2 * df) < 14, "%s: residues are not uniform (chi-square %.1f for %g degrees of freedom)", where.c_str(), x, df); g.count(); }
}
static void independent(const Words& a, const Words& b, const std::string& where, Gen& g) { int k = (a.bits + 63) / 64; long M = (long)std::min(a.t.size(), b.t.size()); int L = std::min(a.bits, b.bits), n = std::min(a.n, b.n), kb = (b.bits + 63) / 64;
	for (int j = 0; j < L; j++) { long d = 0; for (long t = 0; t < M; t++) for (int i = 0; i < n; i++) d += (a.t[t][i * k + j / 64] >> (j % 64) & 1) != (b.t[t][i * kb + j / 64] >> (j % 64) & 1); fair(d, M * n, where, fmt("bit %d differs", j).c_str(), g); } }
template <int L, int N> std::vector<uint64_t> words(const R_Q<L, N>& x) { std::vector<uint64_t> v; for (int i = 0; i < N; i++) for (int j = 0; j < limbs<L>(); j++) v.push_back(x[i][j]); return v; }
// noise: both signs, all magnitudes, no preferred position, no relation between neighbours, calls or to the mask
static void fair_noise(const std::vector<std::vector<int>>& e, const Words& mask, const std::string& where, Gen& g) {
	long M = (long)e.size(), N = (long)e[0].size(), n = M * N, p = 0, m = 0, c[9] = {0}; double sq = 0; int k = (mask.bits + 63) / 64;
	for (auto& v : e) for (int x : v) { PBT_CHECK(x >= -8 && x <= 8, "%s: noise %d", where.c_str(), x); c[abs(x)]++; p += x > 0; m += x < 0; sq += x * x; }
	{ int mb = std::min(mask.bits, 400); Span sp(mb + 10); for (long t = 0; t < M && !sp.full(); t++) for (long i = 1; i < N && !sp.full(); i++) { std::vector<uint64_t> v; put_bits(v, 0, &mask.t[t][i * k], mb); uint64_t x = (uint64_t)(e[t][i] & 31) | (uint64_t)(e[t][i - 1] & 31) << 5; put_bits(v, mb, &x, 10); sp.add(v); } sp.judge(where, "noise and mask", g); }
	PBT_CHECK(n < 3000 || fabs((double)(p - m)) < ZMAX * sqrt((double)(p + m)), "%s: %ld positive, %ld negative", where.c_str(), p, m); for (int v = 0; v <= 8; v++) PBT_CHECK(n < 3000 || c[v] * 40 > n, "%s: magnitude %d occurs %ld times among %ld", where.c_str(), v, c[v], n); g.count(10);
	if (n < 3000) return; double var = sq / n;
	for (long i = 0; i < N; i++) { long s = 0, a[17] = {0}; int kinds = 0; for (auto& v : e) { s += v[i]; if (!a[v[i] + 8]++) kinds++; } PBT_CHECK(fabs((double)s) < (ZMAX + 1) * sqrt(M * var), "%s: coefficient %ld has mean noise %g", where.c_str(), i, (double)s / M); PBT_CHECK(M < 64 || kinds >= 6, "%s: coefficient %ld takes only %d noise values", where.c_str(), i, kinds); g.count(2); }
	double nc = 0, nt = 0, low = 0, hi = 0; for (long t = 0; t < M; t++) for (long i = 0; i < N; i++) { if (i) nc += e[t][i] * e[t][i - 1]; if (t) nt += e[t][i] * e[t - 1][i]; const auto& w = mask.t[t]; low += e[t][i] * ((w[i * k] & 1) ? 1 : -1); int b = mask.bits - 1; hi += e[t][i] * ((w[i * k + b / 64] >> (b % 64) & 1) ? 1 : -1); }
	PBT_CHECK(fabs(nc) < ZMAX * var * sqrt((double)n) && fabs(nt) < ZMAX * var * sqrt((double)n), "%s: noise of neighbours or consecutive calls is correlated (%g, %g)", where.c_str(), nc / var / sqrt((double)n), nt / var / sqrt((double)n));
	PBT_CHECK(fabs(low) < ZMAX * sqrt(var * n) && fabs(hi) < ZMAX * sqrt(var * n), "%s: noise depends on the mask", where.c_str()); g.count(4);
}

template <int L, int LOGN> struct T {
	static constexpr int N = 1 << LOGN;
	template <int Q> struct Batch { Words a, b; std::vector<std::vector<int>> e; Batch() { a.bits = b.bits = Q; a.n = b.n = N; }
		void take(const R_Q_square<Q, N>& ct, const Poly& m, const std::vector<int>& s, Gen& g, const char* what) { a.t.push_back(words(ct[0])); b.t.push_back(words(ct[1])); Poly d = rdec(ct, s.data()); std::vector<int> v(N); for (int i = 0; i < N; i++) { mpz_class x = centered2(d[i] - m[i], Q); PBT_CHECK(abs(x) <= 8, "LOGQ=%d N=%d %s: noise of coefficient %d is %s", Q, N, what, i, str(x).c_str()); v[i] = (int)x.get_si(); } e.push_back(v); g.count(N); }
		void judge(int h, const std::string& what, Gen& g) { if (b.t.empty()) return; std::string w = fmt("LOGQ=%d N=%d h=%d ", Q, N, h) + what; uniform_words(b, w + ", mask", g); if (h) uniform_words(a, w + ", first component", g, true); if (h >= 8) independent(a, b, w + ", components", g); fair_noise(e, b, w + ", noise", g); if (b.t.size() * N >= 3000) g.nontrivial(); } };
	static int calls(Gen& g, int q) { int n = std::max(40, 4096 / N); return n + (int)g.below(n); }
	// the same message again and again
	static void repeat(Gen& g) {
		static std::unique_ptr<R_Q<L, N>> pt(new R_Q<L, N>); static std::unique_ptr<R_Q_square<L, N>> ct(new R_Q_square<L, N>); auto s = gen_key(g, N, (int)g.below(std::min(N, 24) + 1)); Poly m = gen_poly(g, N, L); put(*pt, m); srand((unsigned)g.u64()); int M = calls(g, L);
		g.note(fmt("the same message %d times LOGQ=%d N=%d h=%d m=%s", M, L, N, weight(s), polystr(m).c_str())); g.label("same message"); Batch<L> B; for (int t = 0; t < M; t++) { if (g.below(4) == 0) garbage(*ct, g); HEAAN<L, N>::enc(*pt, s.data(), *ct); B.take(*ct, m, s, g, "encryption"); } B.judge(weight(s), "encryptions", g);
	}
	// encryptions, switching keys and keys in any order
	static void mixed(Gen& g) {
		static std::unique_ptr<R_Q<L, N>> pt(new R_Q<L, N>); static std::unique_ptr<R_Q_square<L, N>> ct(new R_Q_square<L, N>); static std::unique_ptr<R_Q_square<2 * L, N>> swk(new R_Q_square<2 * L, N>); int h = 1 + (int)g.below(std::min(N, 24)); auto s = gen_key(g, N, h); std::vector<int> fr = gen_key(g, N, (int)g.below(N / 2 + 1)), k2(N); srand((unsigned)g.u64()); int M = calls(g, 2 * L); Batch<L> B; Batch<2 * L> K; int pat = (int)g.below(4);
		g.note(fmt("encryptions and switching keys, %d calls LOGQ=%d N=%d h=%d", M, L, N, h)); g.label("mixed calls"); Rng r = g.bulk(); Words both; both.bits = L; both.n = N;
		for (int t = 0; t < M; t++) { int op = pat == 0 ? 1 : pat == 1 ? t % 2 : (int)r.below(3);
			if (op == 0 || (op == 2 && r.below(2))) { Poly m(N); for (auto& v : m) v = r.below(3) ? uniform(r, L) : mpz_class(0); put(*pt, m); HEAAN<L, N>::enc(*pt, s.data(), *ct); B.take(*ct, m, s, g, "encryption"); std::vector<uint64_t> w; both.t.push_back(words((*ct)[1])); }
			else if (op == 1) { HEAAN<L, N>::swkgen(fr.data(), s.data(), *swk); Poly m(N); for (int i = 0; i < N; i++) m[i] = mpz_class(fr[i]) << L; K.take(*swk, m, s, g, "switching key"); }
			else HEAAN<L, N>::keygen(std::min(N, 1 + (int)r.below(8)), k2.data()); }
		B.judge(h, "encryptions among other calls", g); K.judge(h, "switching keys", g);
	}
	static void keys(Gen& g) {
		int h = g.below(4) == 0 ? N : 1 + (int)g.below(N), K = 3000; if (N >= 64) K = 1000; srand((unsigned)g.u64()); std::vector<int> s(N), last(N); std::vector<long> at(N), sg(N); long plus = 0, signs = 0, adj = 0, common = 0, samesign = 0; g.note(fmt("%d keys N=%d h=%d", K, N, h)); g.label("keys");
		for (int t = 0; t < K; t++) { HEAAN<L, N>::keygen(h, s.data()); int w = 0, prev = 0; for (int i = 0; i < N; i++) { PBT_CHECK(s[i] >= -1 && s[i] <= 1, "key coefficient %d", s[i]); if (s[i]) { w++; at[i]++; sg[i] += s[i]; plus += s[i]; if (prev) { signs += prev * s[i]; samesign++; } prev = s[i]; if (s[(i + 1) % N]) adj++; if (t && last[i]) common++; } } PBT_CHECK(w == h, "key of weight %d where %d was asked for", w, h); last = s; }
		double p = (double)h / N; std::string w = fmt("N=%d keys of weight %d", N, h);
		for (int i = 0; i < N; i++) { PBT_CHECK(fabs(at[i] - K * p) <= ZMAX * sqrt(K * p * (1 - p)) + 1e-9, "%s: coefficient %d is set %ld times of %d", w.c_str(), i, at[i], K); PBT_CHECK(fabs((double)sg[i]) <= ZMAX * sqrt((double)at[i]) + 4, "%s: coefficient %d has sign sum %ld of %ld", w.c_str(), i, sg[i], at[i]); g.count(2); }
		PBT_CHECK(fabs((double)plus) <= ZMAX * sqrt((double)K * h), "%s: sign sum %ld of %ld", w.c_str(), plus, (long)K * h); PBT_CHECK(fabs((double)signs) <= ZMAX * sqrt((double)samesign) + 1e-9, "%s: neighbouring signs are related (%ld of %ld)", w.c_str(), signs, samesign);
		double ea = (double)K * h * (h - 1) / std::max(1, N - 1); PBT_CHECK(N < 4 || fabs(adj - ea) <= ZMAX * sqrt(2.0 * K * h) , "%s: %ld pairs of neighbours, expected %.0f", w.c_str(), adj, ea); double ec = (double)(K - 1) * h * p; PBT_CHECK(fabs(common - ec) <= ZMAX * sqrt((double)K * h), "%s: consecutive keys share %ld positions, expected %.0f", w.c_str(), common, ec); g.count(4); g.nontrivial();
	}
	static void run(Gen& g) { switch (g.below(8)) { case 0: keys(g); break; case 1: case 2: case 3: repeat(g); break; default: mixed(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN; };
static constexpr Conf C[] = {{5,5},{7,6},{16,4},{20,6},{31,3},{33,5},{60,4},{63,2},{64,6},{65,4},{100,5},{128,3},{129,6},{192,4},{250,7},{330,4},{512,3},{850,4},{60,10},{110,11}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) SMALL.push_back(ALL[i]); return true; }();
static int p1 = add("randomness", (int)SMALL.size() * 20, (int)SMALL.size() * 1000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
PBT_MAIN
