// Reference arithmetic (GMP) and generators shared by the harnesses.
#pragma once
#include "pbt.h"
#include <gmpxx.h>
#include <complex>
#include "HEAAN/arith/Z_Q.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN
#endif
#endif
#ifdef MSAN
#define PBT_DEFINED(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define PBT_DEFINED(p, n) (void)0
#endif

namespace ref {
using pbt::Gen; using pbt::Rng;

inline mpz_class pow2(int k) { mpz_class r = 1; mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), k); return r; }
inline mpz_class fdiv2(const mpz_class& a, int k) { mpz_class r; mpz_fdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), k); return r; }
inline mpz_class mod2(const mpz_class& a, int k) { mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), a.get_mpz_t(), k); return r; }
inline mpz_class centered2(const mpz_class& a, int k) { // representative in [-2^(k-1), 2^(k-1))
	mpz_class r = mod2(a, k); if (k > 0 && mpz_tstbit(r.get_mpz_t(), k - 1)) r -= pow2(k); return r;
}
inline mpz_class u64z(uint64_t x) { mpz_class r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &x); return r; }
inline uint64_t zu64(const mpz_class& x) { mpz_class r = mod2(x, 64); uint64_t v = 0; mpz_export(&v, nullptr, -1, 8, 0, 0, r.get_mpz_t()); return v; }
inline mpz_class floormod(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }

template <int LOGQ> constexpr int limbs() { return (LOGQ + 63) / 64; }

template <int LOGQ> mpz_class raw(const Z_Q<LOGQ>& a) { // the limbs as they are
	if (sizeof a == 8 * limbs<LOGQ>()) PBT_DEFINED(&a, sizeof a);
	uint64_t w[limbs<LOGQ>()]; for (int i = 0; i < limbs<LOGQ>(); i++) w[i] = a[i];
	mpz_class r; mpz_import(r.get_mpz_t(), limbs<LOGQ>(), -1, 8, 0, 0, w); return r;
}
template <int LOGQ> bool canonical(const Z_Q<LOGQ>& a) { int r = LOGQ % 64; return r == 0 || (a[limbs<LOGQ>() - 1] >> r) == 0; }
template <int LOGQ> mpz_class sgn(const Z_Q<LOGQ>& a) { return centered2(raw(a), LOGQ); }
template <int LOGQ> void set(Z_Q<LOGQ>& a, const mpz_class& v) {
	mpz_class r = mod2(v, LOGQ); uint64_t w[limbs<LOGQ>()] = {0};
	mpz_export(w, nullptr, -1, 8, 0, 0, r.get_mpz_t());
	for (int i = 0; i < limbs<LOGQ>(); i++) a[i] = w[i];
}
inline std::string str(const mpz_class& v) { std::string s = v.get_str(16); return s.size() > 70 ? s.substr(0, 40) + "..." + s.substr(s.size() - 24) : s; }

// a b-bit value with the shapes at which carries, signs and limb borders matter
template <class G> mpz_class interesting(G& g, int bits) {
	switch (g.below(10)) {
	case 0: return mod2(mpz_class((long)g.below(17)), bits);
	case 1: return mod2(-mpz_class((long)g.below(17)), bits);
	case 2: return mod2(pow2((int)g.below(bits + 1)) + (long)g.below(5) - 2, bits);
	case 3: return mod2(pow2(bits - 1) + (long)g.below(5) - 2, bits);
	case 4: return mod2(-(pow2((int)g.below(bits + 1)) + (long)g.below(5) - 2), bits);
	case 5: { // a run of ones
		int a = (int)g.below(bits + 1), b = (int)g.below(bits + 1); if (a > b) std::swap(a, b);
		mpz_class v = pow2(b) - pow2(a); if (g.below(2)) v += (long)g.below(3); return mod2(v, bits); }
	case 6: case 7: { // limbs of special shapes
		mpz_class v = 0; int n = (bits + 63) / 64;
		for (int i = 0; i < n; i++) {
			uint64_t w;
			switch (g.below(8)) {
			case 0: w = 0; break; case 1: w = ~0ull; break; case 2: w = 1; break; case 3: w = 1ull << 63; break;
			case 4: w = ~0ull - 1; break; case 5: w = 0xffffffffull << (g.below(2) * 32); break;
			case 6: w = 1ull << g.below(64); break; default: w = g.u64(); }
			v += u64z(w) << (64 * i);
		}
		return mod2(v, bits); }
	default: {
		mpz_class v = 0; int n = (bits + 63) / 64;
		for (int i = 0; i < n; i++) v += u64z(g.u64()) << (64 * i);
		return mod2(v, bits); }
	}
}
template <class G> mpz_class uniform(G& g, int bits) {
	mpz_class v = 0; int n = (bits + 63) / 64;
	for (int i = 0; i < n; i++) v += u64z(g.u64()) << (64 * i);
	return mod2(v, bits);
}

using Poly = std::vector<mpz_class>;
// signed or unsigned coefficients of `bits` bits
inline Poly gen_poly(Gen& g, int n, int bits, bool allow_dense = true) {
	Poly p(n);
	switch (g.below(allow_dense ? 9 : 4)) {
	case 0: g.label("poly:zero"); break;
	case 1: { p[g.below(n)] = interesting(g, bits); g.label("poly:monomial"); break; }
	case 2: case 3: { int k = 1 + (int)g.below(std::min(n, 6)); for (int i = 0; i < k; i++) p[g.below(n)] = interesting(g, bits); g.label("poly:sparse"); break; }
	case 4: { mpz_class v = interesting(g, bits); for (auto& c : p) c = v; g.label("poly:constant"); break; }
	case 5: { bool alt = g.below(2); for (int i = 0; i < n; i++) p[i] = mod2((alt && (i & 1)) ? pow2(bits - 1) - 1 : pow2(bits - 1), bits); g.label("poly:extreme"); break; }
	case 6: { Rng r = g.bulk(); for (auto& c : p) c = interesting(r, bits); g.label("poly:dense-special"); break; }
	default: { Rng r = g.bulk(); int lo = (int)g.below(n), len = n - (int)g.below(n); for (int i = 0; i < len; i++) p[(lo + i) % n] = uniform(r, bits); g.label("poly:dense"); break; }
	}
	return p;
}
// coefficient k of the product modulo x^n + 1
inline mpz_class negacyclic_at(const Poly& a, const Poly& b, int k) {
	int n = (int)a.size(); mpz_class s = 0;
	for (int i = 0; i < n; i++) {
		if (a[i] == 0) continue;
		if (i <= k) s += a[i] * b[k - i]; else s -= a[i] * b[n + k - i];
	}
	return s;
}
inline Poly negacyclic(const Poly& a, const Poly& b) { Poly c(a.size()); for (size_t k = 0; k < a.size(); k++) c[k] = negacyclic_at(a, b, (int)k); return c; }
} // namespace ref
