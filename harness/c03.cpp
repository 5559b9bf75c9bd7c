// C03: conversions of a residue: decimal digits, printing, sign, double, highest used limb.
#include "ref.h"
#include "HEAAN/arith/R_Q_square.h"
#include <utility>
#include <array>
using namespace pbt; using namespace ref;

struct Ops {
	int logq;
	void (*fr)(const char*, mpz_class&); std::string (*to)(const mpz_class&); bool (*half)(const mpz_class&);
	double (*dbl)(const mpz_class&); int (*digit)(const mpz_class&); void (*print)(const mpz_class&);
};
template <int L> struct W {
	static void fr(const char* s, mpz_class& v) { Z_Q<L> z; for (int i = 0; i < limbs<L>(); i++) z[i] = ~0ull;
#ifdef MSAN
		__msan_unpoison_string(s); // made by GMP
#endif
		z.fr_str(s); v = raw(z); }
	static std::string to(const mpz_class& v) { if constexpr (L <= 1300) { Z_Q<L> z; set(z, v); char b[1024]; memset(b, 'x', sizeof b); z.to_str(b); b[1023] = 0;
		PBT_CHECK(raw(z) == v, "to_str changed the value"); return b; } else return ""; }
	static bool half(const mpz_class& v) { Z_Q<L> z; set(z, v); return z.is_bigger_than_halfQ(); }
	static double dbl(const mpz_class& v) { Z_Q<L> z; set(z, v); double d = (double)z; PBT_CHECK(raw(z) == v, "conversion to double changed the value"); return d; }
	static int digit(const mpz_class& v) { Z_Q<L> z; set(z, v); return z.max_valid_digit(); }
	static void print(const mpz_class& v) { if constexpr (L <= 1300) { Z_Q<L> z; set(z, v); z.print_unsigned(); } }
	static constexpr Ops ops() { return {L, fr, to, half, dbl, digit, print}; }
};
static constexpr int EXTRA[] = {159,160,161,180,190,191,192,193,200,216,240,255,256,257,300,319,320,321,384,385,448,449,511,512,513,600,640,641,704,768,769,
	850,896,960,961,1000,1020,1023,1024,1025,1088,1152,1200,1216,1230,1270,1279,1280,1281,1290,1299,1300,1301,1330,1344,1345,1390,1408,1450,1500,1600,1700,2048,2900};
static constexpr int NEXTRA = sizeof EXTRA / sizeof *EXTRA, NSMALL = 136, NC = NSMALL + NEXTRA;
static constexpr int at(int i) { return i < NSMALL ? i + 1 : EXTRA[i - NSMALL]; }
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr Ops entry() { if constexpr (IN_PART(I)) return W<at(I)>::ops(); else return Ops{}; }
template <size_t... I> constexpr std::array<Ops, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<const Ops*> TAB = [] { std::vector<const Ops*> t; for (auto& o : ALL) if (o.logq) t.push_back(&o); return t; }();

static std::string captured(const std::function<void()>& f) { // what f writes to stdout
	fflush(stdout); std::cout.flush();
	int fd = memfd_create("out", 0), old = dup(1); dup2(fd, 1);
	std::string err;
	try { f(); } catch (...) { fflush(stdout); dup2(old, 1); close(old); close(fd); throw; }
	fflush(stdout); std::cout.flush(); dup2(old, 1); close(old);
	std::string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET);
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd); return s;
}

static mpz_class value(Gen& g, int bits) {
	if (g.below(4) == 3) { // near a power of ten, or many zero digits
		mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, g.below((unsigned)(bits * 0.30103) + 1));
		g.label("power of ten"); return mod2(t * (long)(1 + g.below(9)) + (long)g.below(5) - 2, bits);
	}
	return interesting(g, bits);
}

static void text_prop(Gen& g) {
	const Ops& o = *TAB[g.below(TAB.size())]; int L = o.logq;
	if (L > 1700) { g.label("too long for a decimal string"); return; }
	mpz_class v = value(g, L);
	std::string dec = v.get_str(10); int zeros = (int)g.below(4); if (dec.size() + zeros > 510) zeros = 0;
	g.note(fmt("LOGQ=%d %s%s", L, std::string(zeros, '0').c_str(), dec.substr(0, 120).c_str()));
	mpz_class got; o.fr((std::string(zeros, '0') + dec).c_str(), got);
	PBT_CHECK(got == v, "LOGQ=%d fr_str(%s) gave %s", L, dec.substr(0, 200).c_str(), str(got).c_str());
	if (L <= 1300) {
		std::string s = o.to(v);
		PBT_CHECK(s == dec, "LOGQ=%d to_str gave %s for %s", L, s.substr(0, 200).c_str(), dec.substr(0, 200).c_str());
		mpz_class back; o.fr(s.c_str(), back); PBT_CHECK(back == v, "LOGQ=%d fr_str(to_str(x)) != x", L);
		if (g.below(16) == 15) {
			std::string p = captured([&] { o.print(v); });
			PBT_CHECK(p == dec + "\n", "LOGQ=%d print_unsigned printed %s", L, p.substr(0, 200).c_str()); g.label("printed");
		}
		g.count(2);
	}
	g.count(); if (v >= 10) g.nontrivial();
}

static void number_prop(Gen& g) {
	const Ops& o = *TAB[g.below(TAB.size())]; int L = o.logq;
	mpz_class v = interesting(g, L);
	if (g.below(3) == 2) { int b = 1 + (int)g.below(L); v = mod2(g.below(2) ? mpz_class(-interesting(g, b)) : interesting(g, b), L); g.label("short"); }
	g.note(fmt("LOGQ=%d %s", L, str(v).c_str()));
	mpz_class s = centered2(v, L);
	PBT_CHECK(o.half(v) == (s < 0), "LOGQ=%d is_bigger_than_halfQ(%s) = %d", L, str(v).c_str(), o.half(v));
	if (s >= 0) { // index of the highest non-zero limb, -1 for zero
		int want = v == 0 ? -1 : (int)(mpz_sizeinbase(v.get_mpz_t(), 2) - 1) / 64;
		PBT_CHECK(o.digit(v) == want, "LOGQ=%d max_valid_digit(%s) = %d, want %d", L, str(v).c_str(), o.digit(v), want); g.count();
	}
	size_t bits = mpz_sizeinbase(mpz_class(abs(s)).get_mpz_t(), 2);
	if (bits <= 1022) {
		double d = o.dbl(v);
		PBT_CHECK(std::isfinite(d), "LOGQ=%d double(%s) = %g", L, str(s).c_str(), d);
		mpz_class di; mpz_set_d(di.get_mpz_t(), d); mpz_class err = abs(di - s);
		// the signed value, exact up to 53 bits, else within 2^-50 of itself
		PBT_CHECK(err == 0 || (bits > 53 && err <= (abs(s) >> 50)), "LOGQ=%d double(%s) = %.17g", L, str(s).c_str(), d);
		if (bits > 64) g.label("more than 64 bits");
		g.count();
	}
	g.count(); if (s < 0 || bits > 53) g.nontrivial();
}

// the text form of polynomials: "[c0,c1,...]" with every coefficient on its own line
static std::vector<std::string> numbers(const std::string& s) {
	std::vector<std::string> r; std::string cur;
	for (char c : s) { if ((c >= '0' && c <= '9') || c == '-') cur += c; else if (!cur.empty()) { r.push_back(cur); cur.clear(); } }
	if (!cur.empty()) r.push_back(cur);
	return r;
}
template <int L, int N> void poly_prop(Gen& g) {
	static R_Q_square<L, N> x; Poly a[2] = {gen_poly(g, N, L), gen_poly(g, N, L)};
	for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) set(x[c][i], a[c][i]);
	g.note(fmt("LOGQ=%d N=%d", L, N));
	auto u = numbers(captured([&] { x[0].print_unsigned(); })), s = numbers(captured([&] { x[0].print_signed(); })), p = numbers(captured([&] { x.print(); }));
	PBT_CHECK(u.size() == N && s.size() == N && p.size() == 2 * N, "LOGQ=%d N=%d prints %zu/%zu/%zu numbers", L, N, u.size(), s.size(), p.size());
	for (int i = 0; i < N; i++) {
		PBT_CHECK(u[i] == a[0][i].get_str(), "print_unsigned coefficient %d: %s", i, u[i].c_str());
		PBT_CHECK(s[i] == centered2(a[0][i], L).get_str(), "print_signed coefficient %d: %s", i, s[i].c_str());
		PBT_CHECK(p[i] == a[0][i].get_str() && p[N + i] == a[1][i].get_str(), "print of a pair, coefficient %d: %s %s", i, p[i].c_str(), p[N + i].c_str());
		g.count(3);
	}
	g.nontrivial();
}
using F = void (*)(Gen&);
static const F PT[] = {poly_prop<1300, 4>, poly_prop<60, 8>, poly_prop<64, 4>, poly_prop<128, 8>, poly_prop<513, 2>, poly_prop<1280, 16>};
static constexpr int NPT = sizeof PT / sizeof *PT;

static int p1 = add("zq_text", (int)TAB.size() * 500, (int)TAB.size() * 6000, (int)TAB.size(), text_prop);
static int p2 = add("zq_numbers", (int)TAB.size() * 3000, (int)TAB.size() * 60000, (int)TAB.size(), number_prop);
static int p3 = add("poly_text", NPT * 30 / PARTS, NPT * 600 / PARTS, NPT, [](Gen& g) { PT[g.below(NPT)](g); });
PBT_MAIN
