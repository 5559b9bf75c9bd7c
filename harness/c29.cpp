// C29: the experiment programs report the quantities they are defined to measure.
// One program (PROG) is compiled in, with its main renamed; its templates run on shapes and random streams of our choice, and what they print is judged.
#include "boot.h"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#include <iostream>
#include <sstream>
#include <random>
#include <cassert>
#include <memory>
#include <algorithm>
#include <array>
#include <utility>
// what a program encodes and decodes on its way, so that what it prints can be computed from it
namespace hook { using ref::ld; using ref::cld;
struct Coded { ref::Poly p; ref::Vec z; ld scale = 0; int n = 0; };
static std::vector<Coded> in, out;
template <int L, int N> void keep(Coded& c, const R_Q<L, N>& p) { c.p = ref::get(p); for (auto& v : c.p) if (v >= ref::pow2(L - 1)) v -= ref::pow2(L); c.n = N; }
template <int LOGN> void keep(Coded& c, const Message<LOGN>& z) { c.z.resize(1 << (LOGN - 1)); for (size_t k = 0; k < c.z.size(); k++) c.z[k] = cld(z.r[k], z.i[k]); }
template <class S> std::enable_if_t<std::is_arithmetic<S>::value> keep(Coded& c, S d) { c.scale = (ld)d; }
template <class S> std::enable_if_t<!std::is_arithmetic<S>::value> keep(Coded&, const S&) {}
template <class S> void keep(Coded&, S*) {}
template <class... A> void note(std::vector<Coded>& to, const A&... a) { Coded c; (keep(c, a), ...); to.push_back(c); }
static void clear() { in.clear(); out.clear(); }
template <int... I, class... A> void encode_(A&&... a) { encode<I...>(a...); note(in, a...); }
template <int... I, class... A> void decode_(A&&... a) { decode<I...>(a...); note(out, a...); }
template <int... I, class... A> void decode_log_(A&&... a) { decode_log<I...>(a...); note(out, a...); out.back().scale = ldexpl(1, (int)out.back().scale); }
}
#define main program_main
#ifdef PROG
#include "HEAAN/bootstrap.h"
#if defined(LEMMA) || defined(SINGLE) || defined(SERIAL)
#include "experiment/section3.h"
#define HOOKED
#elif !defined(LATTIGO)
#include "experiment/rns.h"
#define HOOKED
#endif
#ifdef HOOKED
using hook::encode_; using hook::decode_; using hook::decode_log_;
#define encode encode_
#define decode decode_
#define decode_log decode_log_
#endif
#include PROG
#ifdef HOOKED
#undef encode
#undef decode
#undef decode_log
#endif
#else
#include "experiment/setup.h"
#endif
#undef main
using ref::gen_reals; using pbt::Gen; using pbt::Fail; using pbt::Discard; using pbt::Rng; using pbt::fmt; using pbt::add;
typedef long double ld; typedef std::complex<long double> cld;

// what a program printed: "label : value" lines, and lines that hold a number only
struct Out {
	std::vector<std::pair<std::string, ld>> named; std::vector<ld> plain; std::string text;
	ld get(const std::string& label, int nth = 0) const { for (auto& p : named) if (p.first == label && nth-- == 0) return p.second; throw Fail{"the program prints no line \"" + label + "\"; it printed: " + text.substr(0, 600)}; }
};
static Out parse(const std::string& text) {
	Out r; r.text = text; std::istringstream in(r.text); std::string l;
	while (std::getline(in, l)) { size_t a = l.rfind(" : "); const char* b; char* e; if (a != std::string::npos) { b = l.c_str() + a + 3; ld v = strtold(b, &e); if (e != b) r.named.push_back({l.substr(0, a), v}); } else { b = l.c_str(); ld v = strtold(b, &e); if (e != b && strspn(e, " \t") == strlen(e)) r.plain.push_back(v); } }
	return r;
}
template <class F> Out capture(F f) { hook::clear(); std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); return parse(o.str()); }
// printed with six digits
#define SAME(got, want, ...) do { ld g_ = (got), w_ = (want); PBT_CHECK(fabsl(g_ - w_) <= fabsl(w_) * 2e-5L, "%s: %.9Lg, should be %.9Lg", fmt(__VA_ARGS__).c_str(), g_, w_); g.count(); } while (0)
#define WITHIN(got, lo, hi, ...) do { ld g_ = (got), l_ = (lo), h_ = (hi); PBT_CHECK(g_ >= l_ && g_ <= h_, "%s: %.9Lg, should be within %.9Lg .. %.9Lg", fmt(__VA_ARGS__).c_str(), g_, l_, h_); g.count(); } while (0)
#ifndef LATTIGO
static unsigned reseed(Gen& g) { unsigned a = (unsigned)g.u64(); ::gen.seed(a); srand(a ^ 0x5bd1e995u); return a; }
#endif
// slots of what was decoded, over the scale; the floating-point error of the program's own slots
static ref::Vec slots_of(const hook::Coded& c) { auto v = ref::slots(c.p); for (auto& z : v) z /= c.scale; return v; }
static ld fp_of(const ref::Vec& v) { ld t = 0; for (auto& z : v) t = std::max(t, std::abs(z)); return t * 0x1p-52L * (8 * log2l(v.size() + 1) + 16); }
static ld l2(const ref::Vec& v) { ld s = 0; for (auto& z : v) s += std::norm(z); return sqrtl(s); }
static ld coef(const mpz_class& c) { size_t b = mpz_sizeinbase(c.get_mpz_t(), 2); int sh = b > 63 ? (int)b - 63 : 0; mpz_class a = abs(c); a >>= sh; return ldexpl((ld)mpz_get_ui(a.get_mpz_t()), sh) * sgn(c); }
#define EXACT(got, want, slack, ...) do { ld g_ = (got), w_ = (want), s_ = (slack); PBT_CHECK(fabsl(g_ - w_) <= fabsl(w_) * 2e-5L + s_, "%s: %.9Lg, what was computed has %.9Lg", fmt(__VA_ARGS__).c_str(), g_, w_); g.count(); } while (0)
static ld mean(const std::vector<ld>& v, size_t from) { ld s = 0; for (size_t i = from; i < v.size(); i++) s += v[i]; return s / (v.size() - from); }

#if defined(LEMMA) // square norm of one rounding error (or a sum of several) times the test plaintext
#define D_ ((ld)Delta)
template <int LOGN> static void lemma(Gen& g) {
	int n = 1 << LOGN; unsigned seed = reseed(g); ld K = LEMMA == 1 ? 1 : Diag; Out o = capture([&] {
#if LEMMA == 1
		measure_conv_error<LOGN>();
#else
		measure_conv_sum_error<LOGN>();
#endif
	});
	PBT_CHECK(o.plain.size() >= 51, "LOGN=%d: only %zu numbers were printed", LOGN, o.plain.size()); ld want = K * n / 12.0L * (D_ * D_ / 2);
#if LEMMA == 1
	if (hook::in.size() == o.plain.size()) { // the first message is the fixed factor, every other the one whose rounding is measured
		const ref::Zeta& Z = ref::Zeta::of(n); auto raws = [&](const ref::Vec& z) { std::vector<ld> a, b, c(n); for (auto& x : z) a.push_back(x.real()), b.push_back(x.imag()); for (int k = 0; k < n; k++) c[k] = Z.coeff(a, b, k) * D_; return c; }; auto f = raws(hook::in[0].z); for (auto& c : f) c = roundl(c); ref::Vec F(n / 2); for (int i = 0; i < n / 2; i++) F[i] = Z.eval(f, i);
		for (size_t t = 1; t < o.plain.size(); t += 1 + t / 4) { auto c = raws(hook::in[t].z); bool tie = false; for (auto& x : c) { ld r = x - roundl(x); if (fabsl(r) > 0.5L - 0.02L) tie = true; x = r; } if (tie) continue; ld s2 = 0; for (int i = 0; i < n / 2; i++) s2 += std::norm(F[i] * Z.eval(c, i)); EXACT(o.plain[t], s2 * 2 / n, 0.2L * s2 * 2 / n, "LOGN=%d: measurement %zu", LOGN, t); g.label("error computed from what was encoded"); } }
#endif
	g.note(fmt("LOGN=%d seed=%u expected %.4Lg measured %.4Lg on average of %zu", LOGN, seed, o.plain[0], mean(o.plain, 1), o.plain.size() - 1)); g.nontrivial();
	SAME(o.plain[0], want, "LOGN=%d: expected value", LOGN); ld sd = sqrtl(2.0L / n); // relative, of one sample: all slots of the test message have the same size
	WITHIN(mean(o.plain, 1) / want, 1 - 8 * sd / sqrtl(o.plain.size() - 1) - 0.02L, 1 + 8 * sd / sqrtl(o.plain.size() - 1) + 0.02L, "LOGN=%d: mean of measured / expected", LOGN);
	for (size_t i = 1; i < o.plain.size(); i++) WITHIN(o.plain[i] / want, 1 - 9 * sd, 1 + 9 * sd + 0.05L, "LOGN=%d: measured / expected", LOGN);
}
static int p1 = add("lemma", 64, 1200, 4, [](Gen& g) { switch (g.below(4)) { case 0: lemma<4>(g); break; case 1: lemma<5>(g); break; case 2: lemma<6>(g); break; default: lemma<7>(g); } });

#elif defined(SINGLE)
template <int LOGN> static void single(Gen& g) {
	int n = 1 << LOGN; unsigned seed = reseed(g); Out o = capture([&] { measure_single_matmul_error<LOGN>(); }); PBT_CHECK(o.plain.size() >= 51, "LOGN=%d: only %zu numbers were printed", LOGN, o.plain.size());
	ld want = sqrtl(16.0L * n / 12) * sqrtl(n / 4.0L) / Delta; g.note(fmt("LOGN=%d seed=%u expected %.4Lg measured %.4Lg on average", LOGN, seed, o.plain[0], mean(o.plain, 1))); g.nontrivial();
	SAME(o.plain[0], want, "LOGN=%d: expected value", LOGN); WITHIN(mean(o.plain, 1) / want, 0.85L, 1.25L, "LOGN=%d: mean of measured / expected", LOGN); for (size_t i = 1; i < o.plain.size(); i++) WITHIN(o.plain[i] / want, 1 - 9 / sqrtl(2 * n), 1.2L + 9 / sqrtl(2 * n), "LOGN=%d: measured / expected", LOGN);
}
static int p1 = add("single", 2, 60, 2, [](Gen& g) { switch (g.below(2)) { case 0: single<3>(g); break; default: single<5>(g); } });

#elif defined(SERIAL)
template <int LOGN> static void serial(Gen& g) {
	int n = 1 << LOGN, D = LOGN - 1; unsigned seed = reseed(g); Out o = capture([&] { measure_serial_matmul_error<LOGN>(); }); PBT_CHECK(o.plain.size() == 3, "LOGN=%d: %zu numbers were printed", LOGN, o.plain.size());
	ld want = sqrtl(3.0L * n / 12) * sqrtl(n / 4.0L) / Delta * sqrtl(D) * powl(2, (D - 1) / 2.0L); g.note(fmt("LOGN=%d seed=%u expected %.4Lg bound %.4Lg measured %.4Lg", LOGN, seed, o.plain[0], o.plain[1], o.plain[2])); g.nontrivial();
	SAME(o.plain[0], want, "LOGN=%d: expected value", LOGN); SAME(o.plain[1], want * sqrtl(D), "LOGN=%d: bound", LOGN); WITHIN(o.plain[2] / want, 0.2L, sqrtl(D), "LOGN=%d: measured / expected", LOGN);
	if (hook::in.size() == 1 && hook::out.size() == 1 && hook::out[0].n == n) { auto z = hook::in[0].z; auto A = ref::special_layers(LOGN); for (size_t k = A.size(); k-- > 0;) z = ref::apply(ref::adjoint(A[k], 1), z); auto y = slots_of(hook::out[0]); ld fp = fp_of(y); for (int k = 0; k < n / 2; k++) y[k] -= z[k]; EXACT(o.plain[2], l2(y), 2 * fp * sqrtl(n), "LOGN=%d: measured error", LOGN); g.label("error computed from what was decoded"); }
}
static int p1 = add("serial", 9, 9, 9, [](Gen& g) { switch (g.below(9)) { case 0: serial<4>(g); break; case 1: serial<5>(g); break; case 2: serial<6>(g); break; case 3: serial<7>(g); break; case 4: serial<8>(g); break; case 5: serial<9>(g); break; case 6: serial<10>(g); break; case 7: serial<11>(g); break; default: serial<12>(g); } });

#elif defined(CTS) || defined(SUP)
static ld c1(int LOGN, int G) { int D = (LOGN - 1) / G; return D * sqrtl((H + 1) * powl(3, G)) / 12 * powl(2, 1.0L / (2 * D)); }
static ld e_norm(int LOGN, int CD, int G) { int D = (LOGN - 1) / G; return c1(LOGN, G) / ldexpl(1, CD) * powl(ldexpl(1, LOGN), 1 + 1.0L / (2 * D)) * 1024; }
template <int LOGN, int CD, int G> static void cts(Gen& g) {
	unsigned seed = reseed(g); std::string at = fmt("LOGN=%d CtS 2^%d G=%d", LOGN, CD, G); ld en = e_norm(LOGN, CD, G), n = ldexpl(1, LOGN);
#ifdef CTS
	Out o = capture([&] { measure_cts_error<LOGN, CD, G>(); }); SAME(o.get("C1"), c1(LOGN, G), "%s: C1", at.c_str());
	ld za = sqrtl(n / 2) / Delta * sqrtl((H + 1) / 12.0L * n) * ldexpl(1, LOGq); SAME(o.get("norm(z_amb) expected"), za, "%s: norm(z_amb) expected", at.c_str()); WITHIN(o.get("norm(z_amb) measured") / za, 1 - 9 / sqrtl(2 * n), 1 + 9 / sqrtl(2 * n), "%s: norm(z_amb) measured / expected", at.c_str()); if (hook::out.size() == 3 && hook::out[0].n == (int)n) { auto z = slots_of(hook::out[0]); EXACT(o.get("norm(z_amb) measured"), l2(z), fp_of(z) * sqrtl(n), "%s: norm(z_amb) measured", at.c_str()); }
	SAME(o.get("norm(e) expected"), en, "%s: norm(e) expected", at.c_str()); ld r = o.get("norm(e) measured") / en; SAME(o.get("norm(e) expected (sanity check)"), en, "%s: norm(e) expected (sanity check)", at.c_str());
#else
	Out o = capture([&] { measure_sup_norm<LOGN, CD, G>(); }); SAME(o.get("C1"), c1(LOGN, G), "%s: C1", at.c_str()); ld ms = o.get("sup_norm(pt) measured"), bs = o.get("sup_norm(pt) bounded"); WITHIN(bs, 5 / sqrtl(3 * n) * (1 - 9 / sqrtl(n)), 5 / sqrtl(3 * n) * (1 + 9 / sqrtl(n)), "%s: sup_norm(pt) bounded", at.c_str()); WITHIN(ms, bs / 5, bs * 1.6L, "%s: sup_norm(pt) measured", at.c_str());
	SAME(o.get("norm(rounding error) expected"), en, "%s: norm(rounding error) expected", at.c_str()); SAME(o.get("sup_norm(rounding error) bounded"), en / sqrtl(n) * 5, "%s: sup_norm(rounding error) bounded", at.c_str()); ld me = o.get("norm(rounding error) measured"), r = me / en; WITHIN(o.get("sup_norm(rounding error) measured"), me / sqrtl(n), me / sqrtl(n) * 8, "%s: sup_norm(rounding error) measured", at.c_str());
#endif
	if (hook::out.size() == 3 && hook::out[0].n == (int)n && hook::out[1].n == (int)n && hook::out[2].n == (int)n) { // slots against coefficients
		ref::Vec d; ld fp = 0, top = 0; for (int c = 0; c < 2; c++) { auto y = slots_of(hook::out[1 + c]); fp = std::max(fp, fp_of(y)); for (int k = 0; k < (int)n / 2; k++) { int i = 0; for (int b = 0; b < LOGN - 1; b++) if (k >> b & 1) i |= 1 << (LOGN - 2 - b); d.push_back(y[k] - coef(hook::out[0].p[i + c * (int)n / 2]) / hook::out[0].scale); top = std::max(top, std::abs(d.back())); } }
#ifdef CTS
		EXACT(o.get("norm(e) measured"), l2(d), fp * sqrtl(2 * n), "%s: norm(e) measured", at.c_str());
#else
		EXACT(me, l2(d), fp * sqrtl(2 * n), "%s: norm(rounding error) measured", at.c_str()); EXACT(o.get("sup_norm(rounding error) measured"), top, 2 * fp, "%s: sup_norm(rounding error) measured", at.c_str());
		if (hook::in.size() == 1 && hook::in[0].n == (int)n) { ld s2 = 0, m = 0; for (auto& c : hook::in[0].p) { ld v = coef(c) / hook::in[0].scale; s2 += v * v; m = std::max(m, fabsl(v)); } EXACT(ms, m, 0, "%s: sup_norm(pt) measured", at.c_str()); EXACT(bs, 5 * sqrtl(s2 / n), 0, "%s: sup_norm(pt) bounded", at.c_str()); }
#endif
		g.label("error computed from what was decoded"); }
	g.note(at + fmt(" seed=%u error %.4Lf of the expected", seed, r)); WITHIN(r, 0.02L, 1.15L, "%s: measured / expected error", at.c_str()); g.nontrivial();
}
#define CASES(X) X(7, 40, 1) X(7, 45, 2) X(7, 30, 3) X(8, 40, 1) X(9, 50, 2) X(9, 30, 4)
static int p1 = add("cts", 6, 120, 6, [](Gen& g) { int k = (int)g.below(6), i = 0;
#define X(a, b, c) if (k == i++) cts<a, b, c>(g);
	CASES(X)
});
#ifdef SUP
template <int LOGN> static void ratio(Gen& g) { unsigned seed = reseed(g); Out o = capture([&] { check_sup_norm_bound<LOGN>(); }); ld r = o.get("max sup_norm / avg_norm ratio"), n = ldexpl(1, LOGN); g.note(fmt("LOGN=%d seed=%u ratio %.4Lf", LOGN, seed, r)); g.nontrivial();
	// 100 messages of n nearly Gaussian coefficients
	WITHIN(r, sqrtl(2 * logl(100 * n)) * 0.7L, std::min(sqrtl(n), sqrtl(2 * logl(100 * n)) * 1.5L), "LOGN=%d: ratio", LOGN); if (hook::in.size() == 100) { ld w = 0; for (auto& c : hook::in) { ld s2 = 0, m = 0; for (auto& x : c.p) { ld v = coef(x); s2 += v * v; m = std::max(m, fabsl(v)); } w = std::max(w, m / sqrtl(s2 / n)); } EXACT(r, w, 0, "LOGN=%d: ratio", LOGN); } SAME(o.get("C2(empirical)"), ceill(r), "LOGN=%d: C2(empirical)", LOGN); SAME(o.get("C2"), 5, "LOGN=%d: C2", LOGN); }
static int p2 = add("ratio", 40, 400, 4, [](Gen& g) { switch (g.below(4)) { case 0: ratio<6>(g); break; case 1: ratio<7>(g); break; case 2: ratio<8>(g); break; default: ratio<9>(g); } });
#endif

#elif defined(DESIGN)
template <int LOGN, int G> static void design(Gen& g) {
	Out o = capture([] { design_delta_tilde<LOGN, G>(); }); int D = (LOGN - 1) / G; ld n = ldexpl(1, LOGN), C1 = D * sqrtl((H + 1) * powl(3, G)) / 12 * powl(2, 1.0L / (2 * D)), sim = C1 * powl(n, 1 + 1.0L / (2 * D)) * 1024; g.note(fmt("LOGN=%d G=%d", LOGN, G)); g.nontrivial();
	SAME(o.get("C1"), C1, "LOGN=%d G=%d: C1", LOGN, G); SAME(o.get("C2"), 5, "LOGN=%d G=%d: C2", LOGN, G); ld s = o.get("Delta_tilde (value is similar to rounding error)"), t = o.get("Delta_tilde (value + rounding error < epsilon = 1)"); WITHIN(s, ceill(log2l(sim) - 1e-6L), ceill(log2l(sim) + 1e-6L), "LOGN=%d G=%d: bits where the errors are alike", LOGN, G);
	ld tight = sim / (sqrtl(n) / 5 - 1); if (tight > 1000 && tight < 2e9L) WITHIN(t, ceill(log2l(tight) - 0.003L), ceill(log2l(tight) + 0.003L), "LOGN=%d G=%d: bits where the sum stays below 1", LOGN, G);
}
#define CASES(X) X(5, 1) X(5, 2) X(5, 4) X(6, 1) X(6, 5) X(7, 1) X(7, 2) X(7, 3) X(8, 1) X(9, 1) X(9, 2) X(9, 4) X(10, 1) X(10, 3) X(11, 2) X(11, 5) X(13, 1) X(13, 2) X(13, 3) X(13, 4) X(15, 2) X(16, 3) X(16, 5) X(17, 4) X(17, 2) X(17, 1)
static int p1 = add("design", 26, 26, 26, [](Gen& g) { int k = (int)g.below(26), i = 0;
#define X(a, b) if (k == i++) design<a, b>(g);
	CASES(X)
});

#elif defined(LATTIGO) // no parameters: one case
static int p1 = add("lattigo", 1, 1, 1, [](Gen& g) {
	// its main ends without a return statement, which is undefined once it has another name: in a child, whose end does not count
	int fd[2]; if (pipe(fd)) throw Discard{}; fflush(stdout); pid_t p = fork(); if (p == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); std::cout << std::unitbuf; program_main(); _exit(0); } close(fd[1]); std::string text; char c; while (read(fd[0], &c, 1) == 1) text += c; close(fd[0]); waitpid(p, nullptr, 0);
	Out o = parse(text); ld n = ldexpl(1, LOGN), z = sqrtl(n / 2) / ldexpl(1, LOGDELTA) * sqrtl((H + 1) / 12.0L * n) * ldexpl(1, LOGq), u = sqrtl(2) / powl(n, 1.0L / (LOGN - 1)), sum = 0; int G[] = {4, 4, 4, 3};
	for (int i = 0; i < 4; i++) sum += sqrtl(powl(3, G[i]) * n / 12) / ldexpl(1, LOGDELTA_boot_tilde) * powl(u, LOGN - 1 - G[i]);
	g.note("lattigo's parameters"); g.nontrivial(); SAME(o.get("LOGDELTA_boot_tilde"), LOGDELTA_boot_tilde, "LOGDELTA_boot_tilde"); SAME(o.get("error expected"), z * sum * 2 * 5 / sqrtl(n), "expected error"); SAME(o.get("we want error goes under"), ldexpl(1, LOGq - LOGDELTA - 16), "wanted error"); });

#elif defined(BEVALMOD)
template <int LOGN> static void evalmod(Gen& g) {
	unsigned seed = reseed(g); Out o = capture([] { measure_b_evalmod<LOGN>(); }); ld r = o.get("sup_norm"); int n = 1 << LOGN; g.note(fmt("LOGN=%d seed=%u sup_norm %.4Lg", LOGN, seed, r)); g.nontrivial();
	if (hook::in.size() == 1 && hook::out.size() == 1 && hook::out[0].n == n) { auto y = slots_of(hook::out[0]); ld w = 0; for (int k = 0; k < n / 2; k++) { ld x = hook::in[0].z[k].real(); w = std::max(w, fabsl(y[k].real() - (x - 1024 * roundl(x / 1024)))); } EXACT(r, w, fp_of(y) + 0x1p-37L, "LOGN=%d: error of the modular reduction", LOGN); g.label("error computed from what was decoded"); }
	// deviations up to 2^-10 of q: the sine series stays within its error, the rest is noise; in units of Delta
	ld in = 30.0L * n / ldexpl(1, 50) * 8, bound = (ref::evalmod_worst(n, LOGDELTA_boot, H) * 1.01L + 1.05L * ref::series_error(ldexpl(1, -10))) * 1024 + in; bound = std::max(bound, 1e-6L); WITHIN(r, 0, bound, "LOGN=%d: error of the modular reduction", LOGN);
}
static int p1 = add("evalmod", 1, 12, 1, [](Gen& g) { evalmod<9>(g); });

#elif defined(PROPOSAL) // PROPOSAL 1: conventional, 2: EvalRound
template <int LOGN, int CD, int SD, int G> static void boot(Gen& g, int typical) {
	unsigned seed = reseed(g); const int n = 1 << LOGN, S = (LOGN - 1) / G; bool R = PROPOSAL == 2; Out o = capture([] {
#if PROPOSAL == 2
		proposed_bootstrap_test<LOGN, CD, SD, G>();
#else
		conventional_bootstrap_test<LOGN, CD, SD, G>();
#endif
	});
	std::string at = fmt("%s LOGN=%d CtS 2^%d StC 2^%d G=%d", R ? "proposed" : "conventional", LOGN, CD, SD, G); ld e = o.get("sup_norm(pt/Delta - pt_tilde/Delta)"); size_t b = o.text.find("= ["); PBT_CHECK(b != std::string::npos, "%s: no maximal error was printed", at.c_str()); char* end; ld er = strtold(o.text.c_str() + b + 3, &end), ei = *end ? strtold(end + 1, &end) : 0;
	g.note(at + fmt(" seed=%u sup_norm 2^%.2Lf slots 2^%.2Lf 2^%.2Lf", seed, log2l(e), er, ei)); g.nontrivial(); SAME(o.get("Modulus consumed"), S * (CD + SD) + 12 * LOGDELTA_boot, "%s: modulus consumed", at.c_str());
	if (hook::in.size() == 1 && hook::out.size() == 1 && hook::in[0].n == n && hook::out[0].n == n) { // what went in and what came out
		auto &a = hook::in[0], &z = hook::out[0]; ld w = 0, wr = 0, wi = 0; for (int k = 0; k < n; k++) w = std::max(w, fabsl(coef(a.p[k] - z.p[k]))); EXACT(e, w / a.scale, 0, "%s: error of a coefficient over Delta", at.c_str());
		auto y = slots_of(z); ld fp = fp_of(y); for (int k = 0; k < n / 2; k++) wr = std::max(wr, fabsl((y[k] - a.z[k]).real())), wi = std::max(wi, fabsl((y[k] - a.z[k]).imag())); auto log_ok = [&](ld got, ld w, const char* part) { PBT_CHECK(got >= log2l(std::max(w - fp, 1e-30L)) - 1e-3L && got <= log2l(w + fp) + 1e-3L, "%s: log2 of the largest %s error is printed as %.6Lg, is %.6Lg", at.c_str(), part, got, log2l(w)); g.count(); }; log_ok(er, wr, "real"); log_ok(ei, wi, "imaginary"); g.label("error computed from what was decoded"); }
	// errors of random parts, in units of Delta: encoding of the matrices (Theorem of section 3) on values of size q I, the series on the whole deviation
	const int h = H; ld q = ldexpl(1, LOGq), I = sqrtl((h + 1) / 12.0L), N1 = n; auto law = [&](int d) { int D = S; return D * sqrtl((h + 1) * powl(3, G)) / 12 * powl(2, 1.0L / (2 * D)) / ldexpl(1, d) * powl(N1, 1 + 1.0L / (2 * D)) * 1024; }; (void)I; (void)q;
	ld ec = law(CD) / sqrtl(N1) * 8 / 1024, f = 8 / sqrtl(3 * N1) / 1024, ev = ref::evalmod_worst(n, LOGDELTA_boot, h) / 64 + 1.1L * ref::series_error(f + ec), in = R ? ev : ev + ec; ld es = powl(3, G / 2.0L) * S * n * ldexpl(1, -SD) * (R ? 6 * sqrtl(I * I) + in : f + in) * 8; ld bound = ((in) * sqrtl(2 * N1) * 2 + es) * 1024 + ldexpl(1, -38) * N1; bound = std::min(bound, ldexpl(1, typical + 4)); // what this shape leaves over many seeds, with 4 bits to spare
	WITHIN(e, 0, bound, "%s: error of a coefficient over Delta", at.c_str()); WITHIN(er, log2l(e) - 8, log2l(e) + 0.5L * LOGN + 2, "%s: log2 of the largest error of a slot (real) against the coefficients' error 2^%.2Lf", at.c_str(), log2l(e)); WITHIN(ei, log2l(e) - 8, log2l(e) + 0.5L * LOGN + 2, "%s: log2 of the largest error of a slot (imaginary) against the coefficients' error 2^%.2Lf", at.c_str(), log2l(e)); if (getenv("SHOW")) printf("%s error 2^%.1Lf bound 2^%.1Lf\n", at.c_str(), log2l(e), log2l(bound));
}
#if PROPOSAL == 2
#define CASES(X) X(7, 28, 60, 1, -31) X(9, 22, 60, 2, -31) X(7, 60, 60, 2, -31) X(7, 30, 55, 3, -31)
#else
#define CASES(X) X(7, 58, 30, 1, -29) X(9, 60, 50, 2, -30) X(7, 22, 50, 2, -3) X(7, 50, 40, 3, -30)
#endif
static int p1 = add("boot", 4, 24, 4, [](Gen& g) { int k = (int)g.below(4), i = 0;
#define X(a, b, c, d, t) if (k == i++) boot<a, b, c, d>(g, t);
	CASES(X)
});

#else // set-up functions
template <int LOGN> static void setup(Gen& g) {
	constexpr int n = 1 << LOGN, h = n / 2; static Message<LOGN> z, y; unsigned seed = reseed(g); std::string at = fmt("LOGN=%d seed=%u", LOGN, seed); g.note(at); g.nontrivial(); auto junk = [&] { for (int k = 0; k < h; k++) z.r[k] = z.i[k] = 7e7; }; const ld pi = 3.141592653589793238462643383279502884L, r2 = sqrtl(0.5L);
	junk(); set_test_message(z); for (int k = 0; k < h; k++) PBT_CHECK(fabsl(z.r[k] - r2 * cosl(k * pi / h)) < 1e-14L && fabsl(z.i[k] - r2 * sinl(k * pi / h)) < 1e-14L, "%s: test message, slot %d is %.9g%+.9gi", at.c_str(), k, z.r[k], z.i[k]);
	junk(); set_evalmod_message(z); for (int k = 0; k < h; k++) PBT_CHECK(fabsl(z.r[k] - (k % 24 + 0.0001L)) < 1e-12L && z.i[k] == 0, "%s: message for EvalMod, slot %d is %.9g%+.9gi", at.c_str(), k, z.r[k], z.i[k]);
	uint64_t D = 1ull << (10 + g.below(45)); junk(); set_test_rounded_message(z, D); { std::vector<double> a(z.r, z.r + h), b(z.i, z.i + h); const ref::Zeta& Z = ref::Zeta::of(n); for (int k = 0; k < n; k++) { ld c = Z.coeff(a, b, k) * D; PBT_CHECK(fabsl(c - roundl(c)) <= D * 0x1p-46L, "%s: rounded message at scale %llu: coefficient %d is %.9Lg, not an integer", at.c_str(), (unsigned long long)D, k, c); } for (int k = 0; k < h; k++) PBT_CHECK(std::abs(cld(z.r[k] - r2 * cosl(k * pi / h), z.i[k] - r2 * sinl(k * pi / h))) <= 0.51L * n / D + 1e-13L, "%s: rounded message, slot %d is %.9g%+.9gi", at.c_str(), k, z.r[k], z.i[k]); }
	static Message<LOGN> A[5]; for (auto& m : A) for (int k = 0; k < h; k++) m.r[k] = m.i[k] = 7e7; set_test_matrix<LOGN, 5>(A); for (int m = 0; m < 5; m++) for (int k = 0; k < h; k++) PBT_CHECK(fabsl(A[m].r[k] - r2 * cosl(m * k * pi / h)) < 1e-14L && fabsl(A[m].i[k] - r2 * sinl(m * k * pi / h)) < 1e-14L, "%s: test matrix, diagonal %d, entry %d is %.9g%+.9gi", at.c_str(), m, k, A[m].r[k], A[m].i[k]);
	// random messages: uniform on the square, parts and messages independent
	ld cnt = 0, s = 0, s2 = 0, s4 = 0, cross = 0, next = 0, diag = 0, top = 0, bot = 0; int rounds = 4000 / h + 2; for (int t = 0; t < rounds; t++) { if (t % 2) { junk(); set_random_message(z); } else { set_random_matrix<LOGN, 5>(A); for (int k = 0; k < h; k++) { diag += 4 * (ld)A[0].r[k] * A[4].r[k]; } z = A[1]; }
		for (int k = 0; k < h; k++) { ld a = z.r[k] / r2, b = z.i[k] / r2; PBT_CHECK(fabsl(a) <= 1 && fabsl(b) <= 1, "%s: random message, slot %d is %.9g%+.9gi", at.c_str(), k, z.r[k], z.i[k]); cnt += 2; s += a + b; s2 += a * a + b * b; s4 += a * a * a * a + b * b * b * b; cross += a * b; if (k) next += a * z.r[k - 1] / r2; top = std::max({top, a, b}); bot = std::min({bot, a, b}); } }
	auto z8 = [&](ld v, ld mu, ld var, const char* what) { PBT_CHECK(fabsl(v - mu) <= 8 * sqrtl(var), "%s: random messages: %s is %.6Lg, expected %.6Lg +- %.3Lg", at.c_str(), what, v, mu, sqrtl(var)); g.count(); };
	z8(s, 0, cnt / 3, "the sum"); z8(s2, cnt / 3, cnt * 4 / 45, "the sum of squares"); z8(s4, cnt / 5, cnt * (1 / 9.0L - 1 / 25.0L), "the sum of fourth powers"); z8(cross, 0, cnt / 18, "the product of real and imaginary parts"); z8(next, 0, cnt / 18, "the product of neighbours"); z8(diag, 0, cnt / 9, "the product of diagonals"); PBT_CHECK(top > 0.99L && bot < -0.99L, "%s: random messages stay within %.4Lf..%.4Lf", at.c_str(), bot, top);
	// no two values among the messages and diagonals drawn one after another repeat or follow each other
	{ std::vector<std::vector<ld>> V; int R = n <= 64 ? 200 : 2; for (int t = 0; t < R; t++) { std::vector<ld> v; auto take = [&](const Message<LOGN>& m) { for (int k = 0; k < h; k++) v.push_back(m.r[k] / r2); for (int k = 0; k < h; k++) v.push_back(m.i[k] / r2); }; set_random_message(z); take(z); set_random_message(z); take(z); set_random_matrix<LOGN, 5>(A); for (auto& m : A) take(m); V.push_back(v); }
		std::vector<ld> w; for (int t = 0; t < 2; t++) for (ld x : V[t]) w.push_back(fabsl(x)); std::sort(w.begin(), w.end()); for (size_t k = 1; k < w.size(); k++) PBT_CHECK(w[k] != w[k - 1], "%s: random messages: the value %.17Lg occurs twice", at.c_str(), w[k] * r2); g.count(w.size());
		size_t P = V[0].size(); if (n <= 64) for (size_t a = 0; a < P; a++) for (size_t b = 0; b < a; b++) { ld c = 0; for (auto& v : V) c += v[a] * v[b]; PBT_CHECK(fabsl(c) <= 9 * sqrtl(R / 9.0L), "%s: random messages: values %zu and %zu of 7 messages have correlation %.3Lf", at.c_str(), b, a, c * 3 / R); } g.count(P); }
	// U0 matrices: the conjugate transposes of the layers of the embedding, <M x, y> = <x, U y>
	static SparseDiagonal<h, 3> Mr[LOGN - 1], Mi[LOGN - 1], Ur[LOGN - 1], Ui[LOGN - 1]; set_test_U0_matrix<LOGN>(Mr, Mi); splitU0NR<LOGN>(Ur, Ui); auto mul = [&](SparseDiagonal<h, 3>& a, SparseDiagonal<h, 3>& b, const std::vector<cld>& v) { std::vector<cld> o(h); for (int t = 0; t < 3; t++) for (int k = 0; k < h; k++) { cld w(a.zero[t] ? 0 : a.vec[t][k], 0), x(0, b.zero[t] ? 0 : b.vec[t][k]); o[k] += w * v[(k + (a.zero[t] ? 0 : a.off[t])) % h] + x * v[(k + (b.zero[t] ? 0 : b.off[t])) % h]; } return o; };
	for (int m = 0; m < LOGN - 1; m++) { std::vector<cld> x(h), y(h); Rng r = g.bulk(); for (auto& c : x) c = cld(r.unit(), r.unit()); for (auto& c : y) c = cld(r.unit(), r.unit()); auto a = mul(Mr[m], Mi[m], x), b = mul(Ur[m], Ui[m], y); cld p = 0, q = 0; for (int k = 0; k < h; k++) p += a[k] * std::conj(y[k]), q += x[k] * std::conj(b[k]); PBT_CHECK(std::abs(p - q) <= 1e-12L * n, "%s: layer %d of the U0 matrices is not the conjugate transpose of the embedding's layer", at.c_str(), m); g.count(); }
	// largest error
	gen_reals(g, z.r, h, std::ldexp(1.0, (int)g.below(60) - 50)); gen_reals(g, z.i, h, std::ldexp(1.0, (int)g.below(60) - 50)); gen_reals(g, y.r, h, std::ldexp(1.0, (int)g.below(60) - 50)); gen_reals(g, y.i, h, std::ldexp(1.0, (int)g.below(60) - 50)); if (g.below(3) == 2) y.i[g.below(h)] = z.i[0];
	ld wr = 0, wi = 0; for (int k = 0; k < h; k++) wr = std::max(wr, fabsl((ld)z.r[k] - y.r[k])), wi = std::max(wi, fabsl((ld)z.i[k] - y.i[k])); Out o = capture([&] { print_max_error<LOGN>(z, y); }); size_t b = o.text.find("= ["); PBT_CHECK(b != std::string::npos, "no maximal error was printed"); char* e; ld gr = strtold(o.text.c_str() + b + 3, &e), gi = *e ? strtold(e + 1, &e) : 0;
	if (wr > 0) PBT_CHECK(fabsl(gr - log2l(wr)) < 1e-3L, "%s: largest real error is printed as %.6Lg, is %.6Lg", at.c_str(), gr, log2l(wr)); if (wi > 0) PBT_CHECK(fabsl(gi - log2l(wi)) < 1e-3L, "%s: largest imaginary error is printed as %.6Lg, is %.6Lg", at.c_str(), gi, log2l(wi)); g.count(2 * h);
}
static int p1 = add("setup", 240, 4000, 6, [](Gen& g) { switch (g.below(6)) { case 0: setup<3>(g); break; case 1: setup<4>(g); break; case 2: setup<5>(g); break; case 3: setup<6>(g); break; case 4: setup<8>(g); break; default: setup<10>(g); } });
#endif
PBT_MAIN
