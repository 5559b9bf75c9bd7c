// C27: the floating-point plaintexts and messages of the error analysis.
#include "he.h"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using M = Message<LOGN>; using P = SimplePlaintext<LOGN>;
	static double magnitude(Gen& g) { return std::ldexp(1.0, (int)g.below(4) ? 0 : (int)g.below(60) - 30); }
	static void gen(Gen& g, M& z, double mag) { gen_reals(g, z.r, H, mag); gen_reals(g, z.i, H, mag); }
	static void gen(Gen& g, P& p, double mag) { gen_reals(g, p.data, N, mag); if (g.below(2)) { for (double& x : p.data) x = std::round(x * 1e6); g.label("integers"); } }
	static M& fill(M& z) { for (int i = 0; i < H; i++) z.r[i] = z.i[i] = 1e99; return z; }
	static P& fill(P& p) { for (int i = 0; i < N; i++) p[i] = -1e99; return p; }
	static ld size(const M& z) { ld s = 0; for (int i = 0; i < H; i++) s += fabsl((ld)z.r[i]) + fabsl((ld)z.i[i]); return s; }
	static bool same(const M& a, const M& b) { return !memcmp(a.r, b.r, sizeof a.r) && !memcmp(a.i, b.i, sizeof a.i); }
	static bool same(const P& a, const P& b) { return !memcmp(a.data, b.data, sizeof a.data); }
	static void close(double got, ld want, ld tol, const char* what, int i) { PBT_CHECK(fabsl((ld)got - want) <= tol, "N=%d %s: entry %d is %.17g, want %.17Lg +- %.3Lg", N, what, i, got, want, tol); }
	static void messages(Gen& g) {
		static M a, b, c, a0, b0; double m1 = magnitude(g), m2 = magnitude(g); gen(g, a, m1); gen(g, b, m2); a0 = a; b0 = b; g.note(fmt("messages N=%d, up to %g and %g", N, m1, m2)); g.label("messages");
		add(a, b, fill(c)); for (int i = 0; i < H; i++) { close(c.r[i], (ld)a.r[i] + b.r[i], EPS * (fabs(a.r[i]) + fabs(b.r[i])), "sum, real part", i); close(c.i[i], (ld)a.i[i] + b.i[i], EPS * (fabs(a.i[i]) + fabs(b.i[i])), "sum, imaginary part", i); }
		sub(a, b, fill(c)); for (int i = 0; i < H; i++) { close(c.r[i], (ld)a.r[i] - b.r[i], EPS * (fabs(a.r[i]) + fabs(b.r[i])), "difference, real part", i); close(c.i[i], (ld)a.i[i] - b.i[i], EPS * (fabs(a.i[i]) + fabs(b.i[i])), "difference, imaginary part", i); }
		mul(a, b, fill(c)); for (int i = 0; i < H; i++) { ld t = 4 * EPS * (fabsl((ld)a.r[i]) + fabsl((ld)a.i[i])) * (fabsl((ld)b.r[i]) + fabsl((ld)b.i[i])); close(c.r[i], (ld)a.r[i] * b.r[i] - (ld)a.i[i] * b.i[i], t, "product, real part", i); close(c.i[i], (ld)a.r[i] * b.i[i] + (ld)a.i[i] * b.r[i], t, "product, imaginary part", i); }
		ld s = 0, top = 0; for (int i = 0; i < H; i++) { ld q = (ld)a.r[i] * a.r[i] + (ld)a.i[i] * a.i[i]; s += q; top = std::max(top, sqrtl(q)); }
		close(square_sum(a), s, s * EPS * (N + 4), "sum of squares", 0); close(norm(a), sqrtl(s), sqrtl(s) * EPS * (N + 4), "norm", 0); close(sup_norm(a), top, top * EPS * 4, "largest absolute value", 0);
		static Message<LOGN + 1> d; for (int i = 0; i < N; i++) d.r[i] = d.i[i] = 1e99; aggregate(a, b, d); for (int i = 0; i < H; i++) PBT_CHECK(d.r[i] == a.r[i] && d.i[i] == a.i[i] && d.r[i + H] == b.r[i] && d.i[i + H] == b.i[i], "N=%d aggregate: entry %d", N, i);
		M copy(a); PBT_CHECK(same(copy, a), "N=%d copy of a message differs", N); PBT_CHECK(same(a, a0) && same(b, b0), "N=%d an operand changed", N); g.count(5 * N); if (size(a) > 0 && size(b) > 0) g.nontrivial();
		M e; for (int i = 0; i < H; i++) PBT_CHECK(e.r[i] == 0 && e.i[i] == 0, "N=%d a new message is not zero", N);
	}
	static void polys(Gen& g) {
		static P a, b, c, a0, b0; double m1 = magnitude(g), m2 = magnitude(g); gen(g, a, m1); gen(g, b, m2); a0 = a; b0 = b; g.note(fmt("polynomials N=%d, up to %g and %g", N, m1, m2)); g.label("polynomials"); ld s = 0, l1a = 0, l1b = 0, mb = 0; for (int i = 0; i < N; i++) { s += (ld)a[i] * a[i]; l1a += fabsl((ld)a[i]); l1b += fabsl((ld)b[i]); mb = std::max(mb, fabsl((ld)b[i])); }
		add(a, b, fill(c)); for (int i = 0; i < N; i++) close(c[i], (ld)a[i] + b[i], EPS * (fabs(a[i]) + fabs(b[i])), "sum", i); sub(a, b, fill(c)); for (int i = 0; i < N; i++) close(c[i], (ld)a[i] - b[i], EPS * (fabs(a[i]) + fabs(b[i])), "difference", i);
		close(square_sum(a), s, s * EPS * (N + 4), "sum of squares of coefficients", 0); close(norm(a), sqrtl(s), sqrtl(s) * EPS * (N + 4), "norm of coefficients", 0);
		if (N <= 1024) { conv(a, b, fill(c)); auto ks = slots_of(g, N, 128, 40); for (int k : ks) { ld w = 0; for (int i = 0; i < N; i++) w += i <= k ? (ld)a[i] * b[k - i] : -(ld)a[i] * b[N + k - i]; close(c[k], w, l1a * mb * EPS * (N + 4), "negacyclic product", k); } }
		int r = (int)g.below(g.below(3) ? 8 : std::min(4 * N, 300)); static P d; rotate(a, fill(d), r); long e = five_pow(r, N); for (int i = 0; i < N; i++) { long j = i * e % (2 * N); double want = j < N ? a[i] : -a[i]; PBT_CHECK(d[(int)(j % N)] == want, "N=%d rotation by %d: coefficient %ld is %.17g, want %.17g", N, r, j % N, d[(int)(j % N)], want); }
		rotate_once(a, fill(d)); for (int i = 0; i < N; i++) { long j = i * 5L % (2 * N); PBT_CHECK(d[(int)(j % N)] == (j < N ? a[i] : -a[i]), "N=%d rotation: coefficient %ld", N, j % N); }
		PBT_CHECK(same(a, a0) && same(b, b0), "N=%d an operand changed", N); g.count(6 * N); if (l1a > 0 && l1b > 0) g.nontrivial(); P z; for (int i = 0; i < N; i++) PBT_CHECK(z[i] == 0, "N=%d a new plaintext is not zero", N);
	}
	static void coding(Gen& g) {
		static M z, z0, y; static P p, q; double mag = magnitude(g); gen(g, z, mag); z0 = z; int k = (int)g.below(61); uint64_t D = g.below(3) ? 1ull << k : (1ull << k) + g.below(1ull << k); g.note(fmt("coding N=%d up to %g at %llu", N, mag, (unsigned long long)D)); g.label("coding"); const Zeta& Z = Zeta::of(N);
		bool tie = g.below(5) == 4; if (tie) { D = 1ull << (k %= 45); double a = ((double)g.below(2000) - 1000 + 0.5) / D, b = ((double)g.below(2000) - 1000 + (g.below(2) ? 0.5 : 0)) / D; for (int i = 0; i < H; i++) { z.r[i] = a; z.i[i] = b; } z0 = z; g.label("halves"); }
		ld S = size(z), u = 2 * S / N * D * EPS * (16 * LOGN + 16); std::vector<double> zr(z.r, z.r + H), zi(z.i, z.i + H); encode(z, D, fill(p)); encode_raw(z, D, fill(q)); auto ks = slots_of(g, N, 128, 40);
		for (int i : ks) { ld w = Z.coeff(zr, zi, i) * D; close(q[i], w, u + 1e-300L, "encoding without rounding", i); close(p[i], w, 0.5L + u + fabsl(w) * EPS, "encoding", i); PBT_CHECK(p[i] == std::floor(p[i]), "N=%d encoding: coefficient %d is %.17g", N, i, p[i]); }
		if (2 * S / N * D < 1e17L) { static R_Q<128, N> x; encode<128, LOGN>(z.r, z.i, D, x); for (int i = 0; i < N; i++) { mpz_class v = sgn(x[i]); PBT_CHECK(fabs(v.get_d() - p[i]) <= 1 + fabs(p[i]) * 4 * EPS && ((!tie && fabs(p[i]) > 1e12) || v.get_d() == p[i] || !tie && fabsl(fabsl((ld)q[i] - floorl((ld)q[i])) - 0.5L) < 1e-3L), "N=%d: the model encodes coefficient %d as %.17g, the ring as %s", N, i, p[i], str(v).c_str()); } g.label("compared with the ring"); }
		PBT_CHECK(same(z, z0), "N=%d encoding changed its input", N);
		decode(q, D, fill(y)); auto hs = slots_of(g, H, 128, 40); for (int i : hs) { ld t = S * EPS * (32 * LOGN + 32) * 2 + 1e-300L; close(y.r[i], z.r[i], t, "decoding of an encoding, real part", i); close(y.i[i], z.i[i], t, "decoding of an encoding, imaginary part", i); }
		gen(g, p, magnitude(g)); std::vector<double> co(p.data, p.data + N); decode(p, D, fill(y)); ld l = l1(co, N); for (int i : hs) { cld w = Z.eval(co, i) / (ld)D; ld t = l / D * EPS * (16 * LOGN + 16) + 1e-300L; close(y.r[i], w.real(), t, "decoding, real part", i); close(y.i[i], w.imag(), t, "decoding, imaginary part", i); }
		g.count(6 * (long)ks.size()); if (S > 0) g.nontrivial();
	}
	static void homomorphism(Gen& g) { // products and rotations of plaintexts are slotwise
		if constexpr (LOGN <= 10) { static M a, b, y; static P p, q, r; gen(g, a, 0.7); gen(g, b, 0.7); uint64_t D = 1ull << (20 + g.below(20)); g.note(fmt("slotwise product and rotation N=%d at %llu", N, (unsigned long long)D)); g.label("slotwise"); encode(a, D, p); encode(b, D, q); conv(p, q, fill(r)); decode(r, D, y); ld t = N * 1.01L * D * 2 + N * (ld)N, u = t + (ld)D * N * N * EPS * 64;
			for (int i = 0; i < H; i++) { cld w = cld(a.r[i], a.i[i]) * cld(b.r[i], b.i[i]) * (ld)D; PBT_CHECK(std::abs(cld(y.r[i], y.i[i]) - w) <= u / D * 1.5L + 2, "N=%d slotwise product: slot %d is %g%+gi, want %Lg%+Lgi", N, i, y.r[i], y.i[i], w.real(), w.imag()); }
			int k = (int)g.below(2 * H); rotate(p, fill(r), k); decode(r, D, y); for (int i = 0; i < H; i++) { int j = (i + k) % H; PBT_CHECK(std::abs(cld(y.r[i], y.i[i]) - cld(a.r[j], a.i[j])) <= 0.51L * N / D + N * EPS * (64 * LOGN + 64), "N=%d rotation by %d: slot %d is %g%+gi, want slot %d = %g%+gi", N, k, i, y.r[i], y.i[i], j, a.r[j], a.i[j]); }
			g.count(2 * N); if (size(a) > 0 && size(b) > 0) g.nontrivial(); } else polys(g);
	}
	static void run(Gen& g) { switch (g.below(4)) { case 0: messages(g); break; case 1: polys(g); break; case 2: coding(g); break; default: homomorphism(g); } }
};
using F = void (*)(Gen&);
static const std::vector<F> SMALL = {T<2>::run, T<3>::run, T<4>::run, T<5>::run, T<6>::run, T<7>::run}, LARGE = {T<8>::run, T<9>::run, T<10>::run, T<12>::run, T<14>::run};
static int p1 = add("model", 60000, 3000000, 6, [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = add("model_large", 1500, 60000, 5, [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
