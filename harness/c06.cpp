// C06: the number-theoretic transform is evaluation at the primitive 2N-th roots of unity, and intt inverts it.
#include "ref.h"
#include "HEAAN/arith/conv/ntt.h"
#include <memory>
using namespace pbt; using namespace ref;
using u128_ = unsigned __int128;
static uint64_t mm(uint64_t a, uint64_t b, uint64_t q) { return (uint64_t)((u128_)a * b % q); }

// a prime = 1 modulo 2N of the given size, with a factor of q-1 large enough for the constructor to be quick
static uint64_t ntt_prime(Gen& g, int N) {
	static const uint64_t known[] = {0xffffffffffc0001ULL, 0x1000000000980001ULL, 0x1000000011340001ULL, 0xfffffffee8c0001ULL, 0xffffffff00000001ULL, 1152921504606877697ULL};
	if (g.below(4) == 0) { uint64_t q = known[g.below(6)]; if ((q - 1) % (2ull * N) == 0) { g.label("a prime of the library"); return q; } }
	int need = log(2 * N), bits = need + 2 + (int)g.below(63 - need); if (bits > 64) bits = 64;
	int e = std::max(need, bits - 38); g.label(bits > 60 ? "61 bits or more" : bits > 32 ? "33..60 bits" : "up to 32 bits");
	uint64_t k = g.u64() & ((bits - e >= 64 ? ~0ull : (1ull << (bits - e)) - 1)); if (k == 0) k = 1;
	for (;; k++) {
		mpz_class q = (u64z(k) << e) + 1; if (q >= pow2(64)) { k = 1; continue; }
		if (mpz_probab_prime_p(q.get_mpz_t(), 25)) return zu64(q);
	}
}
static std::vector<uint64_t> vec(Gen& g, int N, uint64_t q, bool& unreduced) {
	std::vector<uint64_t> a(N); unreduced = false;
	switch (g.below(7)) {
	case 0: a[g.below(N)] = 1; break;
	case 1: a[g.below(N)] = q - 1; a[g.below(N)] = 1; break;
	case 2: for (auto& x : a) x = q - 1; break;
	case 3: { Rng r = g.bulk(); for (auto& x : a) x = r.below(4) ? r.below(q) : (r.below(2) ? q : q - 1); unreduced = true; break; }
	case 4: { Rng r = g.bulk(); for (auto& x : a) x = r.below(2) ? r.u64() : ~0ull - r.below(3); unreduced = true; break; }
	default: { Rng r = g.bulk(); for (auto& x : a) x = r.below(q); }
	}
	return a;
}
template <int N> void ntt_prop(Gen& g) {
	static std::unique_ptr<NTT<N>> tp; static uint64_t tq = 0;
	uint64_t q = ntt_prime(g, N);
	if (tq != q) { tp = std::make_unique<NTT<N>>(q); tq = q; }
	const NTT<N>& t = *tp;
	bool ua, ub; std::vector<uint64_t> a = vec(g, N, q, ua), b = vec(g, N, q, ub), fa = a, fb = b;
	g.note(fmt("N=%d q=%llx a0=%llx b0=%llx", N, (unsigned long long)q, (unsigned long long)a[0], (unsigned long long)b[0]));
	t.ntt(fa.data()); t.ntt(fb.data());
	for (int i = 0; i < N; i++) PBT_CHECK(fa[i] < q && fb[i] < q, "N=%d q=%llx ntt output %d not reduced", N, (unsigned long long)q, i);
	std::vector<uint64_t> x = fa; t.intt(x.data());
	for (int i = 0; i < N; i++) PBT_CHECK(x[i] == a[i] % q, "N=%d q=%llx intt(ntt(a))[%d] = %llx, a = %llx", N, (unsigned long long)q, i, (unsigned long long)x[i], (unsigned long long)a[i]);
	x = a; t.intt(x.data());
	for (int i = 0; i < N; i++) PBT_CHECK(x[i] < q, "N=%d q=%llx intt output %d not reduced", N, (unsigned long long)q, i);
	t.ntt(x.data());
	for (int i = 0; i < N; i++) PBT_CHECK(x[i] == a[i] % q, "N=%d q=%llx ntt(intt(a))[%d] differs", N, (unsigned long long)q, i);
	// the points: distinct N-th roots of -1, and every output is the value of a at its point
	std::vector<uint64_t> p(N); p[1] = 1; t.ntt(p.data());
	for (int rep = 0; rep < (N <= 64 ? N : 6); rep++) {
		int i = N <= 64 ? rep : (int)g.below(N); uint64_t v = 0, y = 1;
		for (int k = 0; k < N; k++) { v = (uint64_t)(((u128_)v + mm(a[k] % q, y, q)) % q); y = mm(y, p[i], q); }
		PBT_CHECK(y == q - 1, "N=%d q=%llx point %d is not an N-th root of -1", N, (unsigned long long)q, i);
		PBT_CHECK(v == fa[i], "N=%d q=%llx output %d is not the value of a at its point", N, (unsigned long long)q, i); g.count();
	}
	{ std::vector<uint64_t> s = p; std::sort(s.begin(), s.end()); PBT_CHECK(std::adjacent_find(s.begin(), s.end()) == s.end(), "N=%d q=%llx two points coincide", N, (unsigned long long)q); }
	// products of transforms are transforms of negacyclic products
	std::vector<uint64_t> c(N); for (int i = 0; i < N; i++) c[i] = mm(fa[i], fb[i], q);
	t.intt(c.data());
	for (int rep = 0; rep < (N <= 64 ? N : 6); rep++) {
		int k = N <= 64 ? rep : (int)g.below(N); uint64_t v = 0;
		for (int i = 0; i < N; i++) { uint64_t m = mm(a[i] % q, b[i <= k ? k - i : N + k - i] % q, q); v = (uint64_t)(((u128_)v + (i <= k ? m : m ? q - m : 0)) % q); }
		PBT_CHECK(c[k] == v, "N=%d q=%llx product coefficient %d = %llx, want %llx", N, (unsigned long long)q, k, (unsigned long long)c[k], (unsigned long long)v); g.count();
	}
	if (ua || ub) g.label("unreduced input");
	g.count(2 * N); int nz = 0; for (auto v : a) nz += v % q != 0; if (nz > 1) g.nontrivial();
}
using F = void (*)(Gen&);
static const F T[] = {ntt_prop<2>, ntt_prop<4>, ntt_prop<8>, ntt_prop<16>, ntt_prop<32>, ntt_prop<64>, ntt_prop<128>, ntt_prop<256>, ntt_prop<512>, ntt_prop<1024>};
static const F B[] = {ntt_prop<2048>, ntt_prop<4096>, ntt_prop<8192>, ntt_prop<1 << 14>, ntt_prop<1 << 15>, ntt_prop<1 << 16>, ntt_prop<1 << 17>};
static int p1 = add("ntt", 10 * 800, 10 * 12000, 10, [](Gen& g) { T[g.below(10)](g); });
static int p2 = add("ntt_large", 7 * 24, 7 * 300, 7, [](Gen& g) { B[g.below(7)](g); });
PBT_MAIN
