// C17: sequences of ciphertext operations over several registers on a chain of moduli, against the exact plaintext
// polynomials with an error bound, and against the slots.
#include "he.h"
#include "lt.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include <array>
#include <utility>
#include <tuple>
using namespace pbt; using namespace ref;

// what a register should hold: polynomial m modulo 2^L, every coefficient of the decryption off by at most B; slots z at scale 2^sc, off by at most ze
struct Model { bool live = false; Poly m; mpz_class B; int sc = 0; Vec z; ld ze = 0; bool zok = false; int depth = 0; };
template <int L, int N> struct Level {
	static constexpr int R = 3; R_Q_square<L, N> r[R], tmp; R_Q<L, N> pt; Model m[R]; std::map<long, std::unique_ptr<R_Q_square<2 * L, N>>> keys;
};
static ld big(const mpz_class& v) { long e; double d = mpz_get_d_2exp(&e, v.get_mpz_t()); return ldexpl(d, (int)e) * (1 + 0x1p-50L); }
static ld top(const Vec& v) { ld t = 0; for (auto& c : v) t = std::max(t, std::abs(c)); return t; }

template <int LOGN, int D, int... Q> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2, K = sizeof...(Q); static constexpr int QS[K] = {Q...};
	using State = std::tuple<Level<Q, N>...>;
	static State& state() { static std::unique_ptr<State> s(new State); return *s; }
	template <class F, size_t... I> static void visit_(int k, F&& f, std::index_sequence<I...>) { ((k == (int)I ? (f(std::integral_constant<int, I>()), 0) : 0), ...); }
	template <class F> static void visit(int k, F&& f) { visit_(k, f, std::make_index_sequence<K>()); }

	struct Run {
		Gen& g; std::vector<int> s; int h; std::vector<int> sq; long products = 0, interesting = 0;
		explicit Run(Gen& g_) : g(g_) { h = (int)g.below(std::min(N, 48) + 1); s = gen_key(g, N, h); sq.assign(N, 0); conv<N>(s.data(), s.data(), sq.data()); srand((unsigned)g.u64()); clear(std::make_index_sequence<K>()); }
		template <size_t... I> void clear(std::index_sequence<I...>) { ((std::get<I>(state()).keys.clear()), ...); for (int k = 0; k < K; k++) visit(k, [&](auto I_) { auto& l = std::get<decltype(I_)::value>(state()); for (auto& m : l.m) m = Model(); for (auto& r : l.r) garbage(r, g); }); }
		// switching a key adds at most 8 N per coefficient for its noise and (h + 1)/2 for rounding
		mpz_class kappa() { return mpz_class(8) * N + h / 2 + 2; }
		template <int L> R_Q_square<2 * L, N>& key(Level<L, N>& l, long id) { auto& p = l.keys[id]; if (!p) { p.reset(new R_Q_square<2 * L, N>); std::vector<int> fr(N); if (id == -1) fr = sq; else if (id == -2) conj<N>(s.data(), fr.data()); else rot<N>(s.data(), fr.data(), (int)id); HEAAN<L, N>::swkgen(fr.data(), s.data(), *p); } return *p; }
		template <int L> void check(Level<L, N>& l, int i, const char* what) {
			Model& m = l.m[i]; reduced(l.r[i], what); Poly d = rdec(l.r[i], s.data());
			for (int k = 0; k < N; k++) { mpz_class e = centered2(d[k] - m.m[k], L); PBT_CHECK(abs(e) <= m.B, "LOGQ=%d N=%d h=%d %s: coefficient %d decrypts to %s, want %s +- %s", L, N, h, what, k, str(d[k]).c_str(), str(m.m[k]).c_str(), str(m.B).c_str()); }
			g.count(N);
		}
		template <int L> void slots_check(Level<L, N>& l, int i) {
			Model& m = l.m[i]; if (!m.zok) return; static Message<LOGN> y; static std::unique_ptr<R_Q<L, N>> pt(new R_Q<L, N>);
			HEAAN<L, N>::dec(l.r[i], s.data(), *pt); decode_log<L, LOGN>(*pt, m.sc, y.r, y.i); ld t = top(m.z), tol = m.ze + N * ldexpl(big(m.B), -m.sc) + (t + m.ze + N * ldexpl(big(m.B), -m.sc)) * N * EPS * (16 * LOGN + 16);
			if ((t + tol) * ldexpl(2, m.sc) > ldexpl(1, L - 1)) { g.label("slots beyond the modulus"); return; }
			for (int k = 0; k < H; k++) tight(fmt("slots, LOGQ=%d N=%d", L, N), std::abs(cld(y.r[k], y.i[k]) - m.z[k]), tol);
			for (int k = 0; k < H; k++) PBT_CHECK(std::abs(cld(y.r[k], y.i[k]) - m.z[k]) <= tol, "LOGQ=%d N=%d: slot %d decodes to %.12g%+.12gi, want %.12Lg%+.12Lgi +- %.3Lg", L, N, k, y.r[k], y.i[k], m.z[k].real(), m.z[k].imag(), tol);
			g.count(H); g.label(fmt("slots of depth %d", std::min(m.depth, 5))); if (t > 16 * tol && m.depth >= 1) interesting++;
		}
		template <int L> void fresh(Level<L, N>& l, int i) {
			Model& m = l.m[i]; static Message<LOGN> z; double mag = g.below(4) ? 0.7 : 1.0 / (1 << g.below(6)); gen_reals(g, z.r, H, mag); gen_reals(g, z.i, H, mag); int d = g.below(4) ? D : 8 + (int)g.below(std::max(1, std::min(50, L - 14))); if (d > L - LOGN - 6) d = std::max(1, L - LOGN - 6); bool trivial = g.below(6) == 5; if (trivial && g.below(3) == 2) memset(&z, 0, sizeof z);
			encode<L, LOGN>(z.r, z.i, 1ull << d, l.pt); if (trivial) { l.r[i].setzero(); l.r[i][0] = l.pt; g.label("unencrypted constant"); } else HEAAN<L, N>::enc(l.pt, s.data(), l.r[i]);
			m.live = true; m.m = sget(l.pt); m.B = trivial ? 0 : 8; m.sc = d; m.depth = 0; m.z.resize(H); for (int k = 0; k < H; k++) m.z[k] = cld(z.r[k], z.i[k]); m.ze = N * (0.51L / ldexpl(1, d) + EPS * 2 * mag * (16 * LOGN + 16)); m.zok = true; g.note(fmt("r%d.%d=%s(2^%d)", L, i, trivial ? "constant" : "enc", d));
		}
		void combine(Model& o, const Model& a, const Model& b, int sign) {
			Model r; r.live = true; r.m = padd(a.m, b.m, sign); r.B = a.B + b.B; r.sc = a.sc; r.depth = std::max(a.depth, b.depth); r.zok = a.zok && b.zok && a.sc == b.sc; if (r.zok) { r.z.resize(H); for (int k = 0; k < H; k++) r.z[k] = sign > 0 ? a.z[k] + b.z[k] : a.z[k] - b.z[k]; r.ze = a.ze + b.ze; } else g.label("different scales"); o = r;
		}
		void mult(Model& o, const Model& a, const Model& b, int L, bool pt) {
			Poly x = pcent(a.m, L), y = pcent(b.m, L); Model r; r.live = true; r.m = pmul(x, y); r.B = a.B * psum(y) + (pt ? mpz_class(0) : b.B * psum(x) + N * a.B * b.B + kappa()); r.sc = a.sc + b.sc; r.depth = std::max(a.depth, b.depth) + 1; if (mpz_sizeinbase(r.B.get_mpz_t(), 2) > (size_t)L) { r.B = pow2(L); g.label("error reached the modulus"); }
			r.zok = a.zok && b.zok && ((top(a.z) + a.ze) * ldexpl(2, a.sc) < ldexpl(1, L - 1)) && ((top(b.z) + b.ze) * ldexpl(2, b.sc) < ldexpl(1, L - 1)); if (r.zok) { r.z.resize(H); for (int k = 0; k < H; k++) r.z[k] = a.z[k] * b.z[k]; r.ze = a.ze * top(b.z) + b.ze * top(a.z) + a.ze * b.ze + top(r.z) * 0x1p-60L; } o = r;
		}
		template <int L> int live(Level<L, N>& l) { std::vector<int> v; for (int i = 0; i < 3; i++) if (l.m[i].live) v.push_back(i); if (v.empty()) { fresh(l, 0); check(l, 0, "fresh ciphertext"); return 0; } return v[g.below(v.size())]; }
		template <int L> void op(Level<L, N>& l) {
			int a = live(l), b = live(l), o = (int)g.below(3); Model ma = l.m[a], mb = l.m[b]; Poly a0 = get(l.r[a][0]), a1 = get(l.r[a][1]), b0 = get(l.r[b][0]), b1 = get(l.r[b][1]); const char* what = ""; int kind = (int)g.below(10); bool inplace = false; std::string detail;
			switch (kind) {
			case 0: what = "sum"; if (o == b && o != a) l.r[o] += l.r[a]; else { if (o != a) l.r[o] = l.r[a]; l.r[o] += l.r[b]; } combine(l.m[o], ma, mb, 1); break;
			case 1: what = "difference"; if (o == b && o != a) o = a; if (o != a) l.r[o] = l.r[a]; l.r[o] -= l.r[b]; combine(l.m[o], ma, mb, -1); break;
			case 2: case 3: case 4: { what = "product"; bool self = g.below(4) == 3; if (self) { b = a; mb = ma; b0 = a0; b1 = a1; } garbage(l.tmp, g); if (o == a || o == b) { Mul<L, N>(l.r[a], l.r[b], key(l, -1), l.tmp); l.r[o] = l.tmp; } else Mul<L, N>(l.r[a], l.r[b], key(l, -1), l.r[o]); mult(l.m[o], ma, mb, L, false); products++; break; }
			case 5: { what = "plaintext product"; static Message<LOGN> z; gen_reals(g, z.r, H, 0.7); gen_reals(g, z.i, H, 0.7); int d = g.below(3) ? D : (int)g.below(std::max(1, std::min(50, L - LOGN - 8))); encode<L, LOGN>(z.r, z.i, 1ull << d, l.pt); Model p; p.m = sget(l.pt); p.sc = d; p.z.resize(H); for (int k = 0; k < H; k++) p.z[k] = cld(z.r[k], z.i[k]); p.ze = N * (0.51L / ldexpl(1, d) + EPS * 2 * (16 * LOGN + 16)); p.zok = true; if (o != a) l.r[o] = l.r[a]; l.r[o] *= l.pt; mult(l.m[o], ma, p, L, true); break; }
			case 6: { what = "integer product"; uint64_t k = g.below(3) ? g.below(1000) : g.u64() >> g.below(64); if (o != a) l.r[o] = l.r[a]; l.r[o] *= k; Model r = ma; for (auto& v : r.m) v *= u64z(k); r.B *= u64z(k); if (mpz_sizeinbase(r.B.get_mpz_t(), 2) > (size_t)L) r.B = pow2(L); for (auto& v : r.z) v *= (ld)k; r.ze = r.ze * k + top(r.z) * 0x1p-60L; l.m[o] = r; detail = fmt(" %llu", (unsigned long long)k); break; }
			case 7: case 8: { bool cj = g.below(3) == 2; what = cj ? "conjugate" : "rotation"; int r = cj ? 0 : (int)g.below(std::max(1, H) + 2); long x = cj ? 2L * N - 1 : five_pow(r, N); auto& kk = key(l, cj ? -2 : r); if (o == a) { garbage(l.tmp, g); if (cj) conj<L, N>(l.r[a], kk, l.tmp); else rot_ct<L, N>(l.r[a], r, kk, l.tmp); l.r[o] = l.tmp; } else { garbage(l.r[o], g); if (cj) conj<L, N>(l.r[a], kk, l.r[o]); else rot_ct<L, N>(l.r[a], r, kk, l.r[o]); } Model m = ma; m.m = psubst(ma.m, x); m.B += kappa(); for (int k = 0; k < H && m.zok; k++) m.z[k] = cj ? std::conj(ma.z[k]) : ma.z[(k + r) % H]; l.m[o] = m; detail = fmt(" %d", r); break; }
			default: fresh(l, o); what = "fresh ciphertext"; inplace = true; }
			(void)inplace; g.note(fmt("r%d.%d=%s(%d,%d%s)", L, o, what, a, b, detail.c_str())); g.label(what); check(l, o, what);
			PBT_CHECK(a == o || (get(l.r[a][0]) == a0 && get(l.r[a][1]) == a1), "LOGQ=%d N=%d %s: the first operand changed", L, N, what); PBT_CHECK(b == o || (get(l.r[b][0]) == b0 && get(l.r[b][1]) == b1), "LOGQ=%d N=%d %s: the second operand changed", L, N, what);
		}
		template <int A, int B> void down(Level<A, N>& x, Level<B, N>& y) {
			int a = live(x), o = (int)g.below(3); Model m = x.m[a]; Poly a0 = get(x.r[a][0]), a1 = get(x.r[a][1]); garbage(y.r[o], g); bool rs = g.below(4) != 3 || B > A;
			if (rs) { RS<A, B, N>(x.r[a], y.r[o]); const int d = A - B; for (auto& v : m.m) v = fdiv2(v + pow2(d - 1), d); m.B = (m.B >> d) + 2 + (h + 2) / 2; m.sc -= d; m.ze += N * ldexpl(0.51L, -m.sc); if (m.sc < 1 || m.sc > 900) m.zok = false; }
			else { resize<A, B, N>(x.r[a], y.r[o]); for (auto& v : m.m) v = mod2(v, B); if (m.B > pow2(B)) m.B = pow2(B); if ((top(m.z) + m.ze) * ldexpl(2, m.sc) >= ldexpl(1, B - 1)) m.zok = false; }
			if (rs && (top(m.z) + m.ze) * ldexpl(2, m.sc) >= ldexpl(1, B - 1)) m.zok = false;
			y.m[o] = m; g.note(fmt("r%d.%d=%s(r%d.%d)", B, o, rs ? "RS" : "mod", A, a)); g.label(rs ? "rescaling" : "smaller modulus"); check(y, o, rs ? "rescaling" : "smaller modulus"); PBT_CHECK(get(x.r[a][0]) == a0 && get(x.r[a][1]) == a1, "rescaling changed its input");
		}
		void all() { int steps = 3 + (int)g.below(12), at = 0; g.note(fmt("N=%d h=%d", N, h)); visit(0, [&](auto I) { auto& l = std::get<decltype(I)::value>(state()); fresh(l, 0); check(l, 0, "fresh ciphertext"); fresh(l, 1); check(l, 1, "fresh ciphertext"); });
			for (int t = 0; t < steps; t++) {
				if (at + 1 < K && g.below(3) == 2) { // one level down (sometimes two), to stay there mostly
					int to = at + 1; if (to + 1 < K && g.below(6) == 5) to++;
					visit(at, [&](auto I) { constexpr int i = decltype(I)::value; visit(to, [&](auto J) { constexpr int j = decltype(J)::value; if constexpr (j > i && j <= i + 2) down(std::get<i>(state()), std::get<j>(state())); }); });
					if (g.below(4)) at = to;
				} else visit(at, [&](auto I) { op(std::get<decltype(I)::value>(state())); });
			}
			for (int k = 0; k < K; k++) visit(k, [&](auto I) { auto& l = std::get<decltype(I)::value>(state()); for (int i = 0; i < 3; i++) if (l.m[i].live) { check(l, i, "a register at the end"); slots_check(l, i); } });
			if (products) g.label("with products"); if (interesting) g.nontrivial(); }
	};
	static void run(Gen& g) { Run r(g); r.all(); }
};
using F = void (*)(Gen&);
template <int I> struct Pick;
#define SHAPE(i, ...) template <> struct Pick<i> { static constexpr F f() { return &T<__VA_ARGS__>::run; } };
SHAPE(0, 3, 20, 120, 100, 80, 60)
SHAPE(1, 4, 30, 250, 220, 190)
SHAPE(2, 2, 16, 64, 48, 32)
SHAPE(3, 5, 40, 320, 280, 240)
SHAPE(4, 3, 31, 193, 130, 65, 64)
SHAPE(5, 6, 50, 400, 350, 300)
SHAPE(6, 4, 45, 640, 595, 512, 448)
SHAPE(7, 4, 50, 1450, 1400, 1350)
SHAPE(8, 5, 25, 128, 127, 77)
SHAPE(9, 9, 45, 200, 155, 110)
SHAPE(10, 2, 60, 850, 790, 730)
SHAPE(11, 10, 50, 850, 800)
SHAPE(12, 12, 30, 150, 120)
static constexpr int NC = 13; static constexpr bool BIG[NC] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1};
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return Pick<I>::f(); else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (BIG[i] ? LARGE : SMALL).push_back(ALL[i]); return true; }();
static int p1 = SMALL.empty() ? 0 : add("circuits", (int)SMALL.size() * 300, (int)SMALL.size() * 8000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("circuits_large", (int)LARGE.size() * 6, (int)LARGE.size() * 100, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
