// Reference decryption and noise bookkeeping for the encryption harnesses.
#pragma once
#include "slots.h"
#include "HEAAN/linear_transform.h"
namespace ref {
// c0 + c1 s modulo 2^LOGQ, centred, by the sparse schoolbook sum
template <int L, int N> Poly rdec(const R_Q_square<L, N>& ct, const int* s) {
	Poly c1(N), m(N); for (int i = 0; i < N; i++) { c1[i] = raw(ct[1][i]); m[i] = raw(ct[0][i]); }
	for (int j = 0; j < N; j++) if (s[j]) for (int i = 0; i < N; i++) { int k = i + j; mpz_class t = c1[i] * s[j]; if (k < N) m[k] += t; else m[k - N] -= t; }
	for (auto& v : m) v = centered2(v, L);
	return m;
}
template <int L, int N> void put(R_Q<L, N>& x, const Poly& a) { for (int i = 0; i < N; i++) set(x[i], a[i]); }
template <int L, int N> void put(R_Q_square<L, N>& x, const Poly& a, const Poly& b) { put(x[0], a); put(x[1], b); }
template <int L, int N> Poly get(const R_Q<L, N>& x) { Poly a(N); for (int i = 0; i < N; i++) a[i] = raw(x[i]); return a; }
template <int L, int N> Poly sget(const R_Q<L, N>& x) { Poly a(N); for (int i = 0; i < N; i++) a[i] = sgn(x[i]); return a; }
template <int L, int N> void reduced(const R_Q_square<L, N>& ct, const char* what) { for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) PBT_CHECK(canonical(ct[c][i]), "LOGQ=%d N=%d %s: component %d, coefficient %d is not below 2^LOGQ", L, N, what, c, i); }
template <int L, int N> void garbage(R_Q<L, N>& x, Gen& g) { int k = (int)g.below(3); for (int i = 0; i < N; i++) for (int j = 0; j < limbs<L>(); j++) x[i][j] = k == 0 ? 0 : k == 1 ? ~0ull : 0x9e3779b97f4a7c15ull * (i + 7 * j + 1); }
template <int L, int N> void garbage(R_Q_square<L, N>& x, Gen& g) { garbage(x[0], g); garbage(x[1], g); }
inline Poly pmul(const Poly& a, const Poly& b) { return negacyclic(a, b); }
inline Poly padd(const Poly& a, const Poly& b, int sign = 1) { Poly c(a.size()); for (size_t i = 0; i < a.size(); i++) c[i] = sign > 0 ? mpz_class(a[i] + b[i]) : mpz_class(a[i] - b[i]); return c; }
inline Poly pcent(const Poly& a, int L) { Poly c(a.size()); for (size_t i = 0; i < a.size(); i++) c[i] = centered2(a[i], L); return c; }
inline mpz_class pmax(const Poly& a) { mpz_class m = 0; for (auto& v : a) if (abs(v) > m) m = abs(v); return m; }
inline mpz_class psum(const Poly& a) { mpz_class m = 0; for (auto& v : a) m += abs(v); return m; }
inline Poly psubst(const Poly& p, long e) { int N = (int)p.size(); Poly q(N); for (int i = 0; i < N; i++) { long j = (long)i * e % (2L * N); if (j < N) q[j] = p[i]; else q[j - N] = -p[i]; } return q; }
inline long five_pow(long r, long N) { long p = 1; for (long i = 0; i < r % std::max(1L, N / 2); i++) p = p * 5 % (2 * N); return p; }
inline Poly ipoly(const int* s, int N) { Poly p(N); for (int i = 0; i < N; i++) p[i] = s[i]; return p; }
// a ternary key drawn by the generator (not by the library)
inline std::vector<int> gen_key(Gen& g, int N, int h) { std::vector<int> s(N); Rng r = g.bulk(); for (int k = 0; k < h;) { int j = (int)r.below(N); if (s[j]) continue; s[j] = r.below(2) ? 1 : -1; k++; } return s; }
inline int weight(const std::vector<int>& s) { int h = 0; for (int v : s) h += v != 0; return h; }
inline std::string polystr(const Poly& p) { std::string s = "["; for (size_t i = 0; i < p.size() && i < 4; i++) s += (i ? "," : "") + str(p[i]); return s + (p.size() > 4 ? ",...]" : "]"); }
// polynomial with coefficients around the interesting values of LOGQ-bit residues, centred
inline Poly gen_spoly(Gen& g, int N, int bits) { Poly p = gen_poly(g, N, bits); for (auto& v : p) v = centered2(v, bits); return p; }
} // namespace ref
