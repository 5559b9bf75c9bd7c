// C02: changes of modulus (resize, shift_left, shift_right, rescaling) against exact integers.
#include "ref.h"
#include "HEAAN/core.h"
#include "HEAAN/bootstrap.h"
#include <utility>
#include <array>
using namespace pbt; using namespace ref;

struct Conv { int fr, to; void (*shr)(const mpz_class&, mpz_class&, uint64_t), (*shl)(const mpz_class&, mpz_class&, uint64_t),
	(*up)(const mpz_class&, mpz_class&, uint64_t), (*down)(const mpz_class&, mpz_class&, uint64_t); };

template <int L> void dirty(Z_Q<L>& b, uint64_t seed) { Rng r(seed); for (int i = 0; i < limbs<L>(); i++) b[i] = seed % 3 == 0 ? ~0ull : r.u64(); }

// fr >= to
template <int FR, int TO> struct P {
	static void shr(const mpz_class& a, mpz_class& b, uint64_t seed) { Z_Q<FR> x; Z_Q<TO> y; set(x, a); dirty(y, seed); shift_right<FR, TO>(x, y); b = raw(y); PBT_CHECK(raw(x) == a, "shift_right<%d,%d> changed its operand", FR, TO); }
	static void shl(const mpz_class& a, mpz_class& b, uint64_t seed) { Z_Q<TO> x; Z_Q<FR> y; set(x, a); dirty(y, seed); shift_left<TO, FR>(x, y); b = raw(y); PBT_CHECK(raw(x) == a, "shift_left<%d,%d> changed its operand", TO, FR); }
	static void down(const mpz_class& a, mpz_class& b, uint64_t seed) { Z_Q<FR> x; Z_Q<TO> y; set(x, a); dirty(y, seed); resize<FR, TO>(x, y); b = raw(y); PBT_CHECK(raw(x) == a, "resize<%d,%d> changed its operand", FR, TO); }
	static void up(const mpz_class& a, mpz_class& b, uint64_t seed) { Z_Q<TO> x; Z_Q<FR> y; set(x, a); dirty(y, seed); resize<TO, FR>(x, y); b = raw(y); PBT_CHECK(raw(x) == a, "resize<%d,%d> changed its operand", TO, FR); }
	static constexpr Conv conv() { return {FR, TO, shr, shl, up, down}; }
};

static constexpr int S[] = {1,2,9,21,31,32,33,50,59,60,62,63,64,65,66,100,126,127,128,129,130,191,192,193,250,256,257,320};
static constexpr int NS = sizeof S / sizeof *S, NTRI = NS * (NS + 1) / 2;
struct Pair { int fr, to; };
static constexpr Pair BIG[] = {{1450,1400},{1450,1390},{2900,1450},{1450,60},{1430,60},{1450,50},{1330,1280},{1280,1230},{1450,1440},{1450,1386},{1450,1408},{1450,1344},
	{1472,1408},{1408,1344},{1300,1250},{2560,1280},{1024,960},{1024,1023},{1025,1024},{1536,1472},{640,576},{513,512},{512,448},{449,384},{850,790},{790,730},{730,670},{2047,1024},{3072,1536},{1450,1},{1450,64},{1450,65}};
static constexpr int NB = sizeof BIG / sizeof *BIG, NP = NTRI + NB;
static constexpr Pair at(int i) {
	if (i >= NTRI) return BIG[i - NTRI];
	int a = 0; while (i > a) { i -= a + 1; a++; }
	return {S[a], S[i]};
}
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr Conv entry() { if constexpr (IN_PART(I)) { constexpr Pair p = at(I); return P<p.fr, p.to>::conv(); } else return Conv{}; }
template <size_t... I> constexpr std::array<Conv, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NP>());
static std::vector<const Conv*> TAB = [] { std::vector<const Conv*> t; for (auto& o : ALL) if (o.fr) t.push_back(&o); return t; }();

// values near the places where rounding, sign and limb borders matter for this pair
static mpz_class value(Gen& g, int bits, int cut) {
	if (g.below(3) < 2 || cut <= 0 || cut >= bits) return interesting(g, bits);
	mpz_class hi = interesting(g, bits - cut), lo;
	switch (g.below(5)) {
	case 0: lo = pow2(cut - 1); break;                                   // exactly half
	case 1: lo = pow2(cut - 1) - 1; break; case 2: lo = pow2(cut - 1) + 1; break;
	case 3: lo = pow2(cut) - 1; break; default: lo = interesting(g, cut);
	}
	g.label("rounding-shaped");
	return mod2((hi << cut) + lo, bits);
}

static void z_prop(Gen& g) {
	const Conv& c = *TAB[g.below(TAB.size())];
	int fr = c.fr, to = c.to, k = fr - to; uint64_t seed = g.below(7); mpz_class b;
	mpz_class a = value(g, fr, k), s = interesting(g, to);
	g.note(fmt("%d<->%d a=%s s=%s", fr, to, str(a).c_str(), str(s).c_str()));
	// rescaling: round to nearest, ties towards +infinity, modulo 2^to
	mpz_class want = k == 0 ? a : mod2(fdiv2(a + pow2(k - 1), k), to);
	c.shr(a, b, seed); PBT_CHECK(b == want, "shift_right<%d,%d>(%s) = %s, want %s", fr, to, str(a).c_str(), str(b).c_str(), str(want).c_str());
	mpz_class e = k == 0 ? mpz_class(0) : mpz_class(centered2((b << k) - a, fr)); // |b 2^k - a| <= 2^(k-1)
	PBT_CHECK(k == 0 || abs(e) <= pow2(k - 1), "shift_right<%d,%d> is not nearest", fr, to);
	if (k && mpz_tstbit(a.get_mpz_t(), k - 1)) g.label("rounds up");
	if (k && mod2(a, k) == pow2(k - 1)) g.label("tie");
	if (k && fdiv2(a + pow2(k - 1), k) == pow2(to)) g.label("rounding wraps");
	// the reduction of the centred representative modulo 2^to
	want = mod2(centered2(a, fr), to); c.down(a, b, seed);
	PBT_CHECK(b == want, "resize<%d,%d>(%s) = %s, want %s", fr, to, str(a).c_str(), str(b).c_str(), str(want).c_str());
	// the centred lift
	want = mod2(centered2(s, to), fr); c.up(s, b, seed);
	PBT_CHECK(b == want, "resize<%d,%d>(%s) = %s, want %s", to, fr, str(s).c_str(), str(b).c_str(), str(want).c_str());
	mpz_class back; c.down(b, back, seed); PBT_CHECK(back == s, "resize %d->%d->%d is not the identity on %s", to, fr, to, str(s).c_str());
	// multiplication by 2^(fr-to), and rescaling undoes it
	want = s << k; c.shl(s, b, seed);
	PBT_CHECK(b == want, "shift_left<%d,%d>(%s) = %s, want %s", to, fr, str(s).c_str(), str(b).c_str(), str(want).c_str());
	c.shr(b, back, seed); PBT_CHECK(back == s, "shift_left then shift_right %d->%d->%d is not the identity on %s", to, fr, to, str(s).c_str());
	g.count(6); if (a != 0 && s != 0) g.nontrivial();
}

// the same on polynomials and pairs of polynomials, with every coefficient different
template <int FR, int TO, int N> void poly_prop(Gen& g) {
	static R_Q_square<FR, N> x, y; static R_Q_square<TO, N> u, v; static R_Q<TO, N> u1; static R_Q<FR, N> y1;
	Poly a[2] = {gen_poly(g, N, FR), gen_poly(g, N, FR)}, s[2] = {gen_poly(g, N, TO), gen_poly(g, N, TO)};
	uint64_t seed = g.below(7); const int k = FR - TO;
	for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) { set(x[c][i], a[c][i]); dirty(u[c][i], seed); dirty(v[c][i], seed); dirty(u1[i], seed); dirty(y1[i], seed); dirty(y[c][i], seed); }
	g.note(fmt("<%d,%d> N=%d", FR, TO, N));
	RS<FR, TO, N>(x, u); resize(x, v);
	for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) {
		mpz_class rs = k == 0 ? a[c][i] : mod2(fdiv2(a[c][i] + pow2(k - 1), k), TO), rz = mod2(centered2(a[c][i], FR), TO);
		PBT_CHECK(raw(u[c][i]) == rs, "RS<%d,%d,%d> component %d coefficient %d", FR, TO, N, c, i);
		PBT_CHECK(raw(v[c][i]) == rz, "resize<%d,%d,%d> component %d coefficient %d", FR, TO, N, c, i);
		PBT_CHECK(raw(x[c][i]) == a[c][i], "RS/resize changed their operand"); g.count(2);
	}
	resize(x[1], u1); for (int i = 0; i < N; i++) PBT_CHECK(raw(u1[i]) == mod2(centered2(a[1][i], FR), TO), "resize of R_Q<%d,%d,%d> coefficient %d", FR, TO, N, i);
	for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) set(u[c][i], s[c][i]);
	if (g.below(2)) resize(u, y); else mod_raise<TO, FR, N>(u, y);
	resize(u[0], y1);
	for (int i = 0; i < N; i++) {
		for (int c = 0; c < 2; c++) PBT_CHECK(raw(y[c][i]) == mod2(centered2(s[c][i], TO), FR), "lift<%d,%d,%d> component %d coefficient %d", TO, FR, N, c, i);
		PBT_CHECK(raw(y1[i]) == mod2(centered2(s[0][i], TO), FR), "lift of R_Q<%d,%d,%d> coefficient %d", TO, FR, N, i); g.count(3);
	}
	if (a[0] != a[1] || s[0] != s[1]) g.nontrivial();
}
using F = void (*)(Gen&);
static const F PT[] = {poly_prop<1450,1390,8>, poly_prop<1450,1400,16>, poly_prop<2900,1450,4>, poly_prop<1450,60,16>, poly_prop<1450,50,32>, poly_prop<120,60,2>, poly_prop<128,64,4>,
	poly_prop<192,128,8>, poly_prop<130,64,8>, poly_prop<64,64,4>, poly_prop<200,136,8>, poly_prop<1280,1230,8>, poly_prop<300,22,64>, poly_prop<400,22,128>, poly_prop<65,1,2>, poly_prop<1536,1472,4>};
static constexpr int NPT = sizeof PT / sizeof *PT;

static int p1 = add("zq_modulus_change", (int)TAB.size() * 5000, (int)TAB.size() * 80000, (int)TAB.size(), z_prop);
static int p2 = add("poly_modulus_change", NPT * 100 / PARTS, NPT * 3000 / PARTS, NPT, [](Gen& g) { PT[g.below(NPT)](g); });
PBT_MAIN
