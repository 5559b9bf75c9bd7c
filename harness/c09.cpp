// C09: the canonical-embedding transforms against direct evaluation in long double.
#include "slots.h"
#include <cstdint>
#include "HEAAN/endecode.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

static uint32_t rev(uint32_t x, int digits) { uint32_t r = 0; for (int i = 0; i < digits; i++) r |= ((x >> i) & 1) << (digits - 1 - i); return r; }
template <int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2;
	static std::vector<double> junk(Gen& g, int n) { return std::vector<double>(n, g.below(2) ? 1e30 : 0.0); }
	static void close(ld got, ld want, ld tol, const char* what, int i) { PBT_CHECK(fabsl(got - want) <= tol, "LOGN=%d %s[%d] = %.17Lg, want %.17Lg +- %.3Lg", LOGN, what, i, got, want, tol); }
	static void forward(Gen& g) {
		const Zeta& Z = Zeta::of(N); std::vector<double> m(N), zr = junk(g, H), zi = junk(g, H);
		double mag = std::ldexp(1.0, g.range(-60, 60)); gen_reals(g, m.data(), N, mag); std::vector<double> m0 = m;
		ld S = l1(m, N); g.note(fmt("forward LOGN=%d |m|_1=%.3Lg m0=%.17g m1=%.17g", LOGN, S, m[0], m[1]));
		fft<LOGN>(m.data(), zr.data(), zi.data());
		PBT_CHECK(m == m0, "LOGN=%d fft changed its input", LOGN);
		ld tol = S * EPS * (8 * LOGN + 8);
		for (int i : slots_of(g, H, 256, 6)) { cld w = Z.eval(m, i); close(zr[i], w.real(), tol, "re fft", i); close(zi[i], w.imag(), tol, "im fft", i); g.count(2); }
		std::vector<double> b = junk(g, N); ifft<LOGN>(zr.data(), zi.data(), b.data());
		ld tolb = S * EPS * (16 * LOGN + 16);
		for (int k = 0; k < N; k++) close(b[k], m[k], tolb, "ifft(fft(m))", k);
		g.count(N);
		// the transform without reordering takes the halves in bit-reversed order
		std::vector<double> p(N), yr = junk(g, H), yi = junk(g, H);
		for (int i = 0; i < H; i++) { p[rev(i, LOGN - 1)] = m[i]; p[rev(i, LOGN - 1) + H] = m[i + H]; }
		fftNR<LOGN>(p.data(), yr.data(), yi.data());
		for (int i = 0; i < H; i++) { close(yr[i], zr[i], tol, "re fftNR", i); close(yi[i], zi[i], tol, "im fftNR", i); }
		if constexpr (LOGN <= 8) { // the defining sums
			std::vector<double> dr = junk(g, H), di = junk(g, H), e = junk(g, N); dft<N>(m.data(), dr.data(), di.data());
			ld told = S * EPS * (16 + N);
			for (int i = 0; i < H; i++) { cld w = Z.eval(m, i); close(dr[i], w.real(), told, "re dft", i); close(di[i], w.imag(), told, "im dft", i); }
			idft<N>(dr.data(), di.data(), e.data());
			for (int k = 0; k < N; k++) close(e[k], m[k], 3 * told, "idft(dft(m))", k);
			g.count(2 * N);
		}
		int nz = 0; for (double v : m) nz += v != 0; if (nz > 1) g.nontrivial();
	}
	static void backward(Gen& g) {
		const Zeta& Z = Zeta::of(N); std::vector<double> zr(H), zi(H), m = junk(g, N);
		double mag = std::ldexp(1.0, g.range(-60, 60)); gen_reals(g, zr.data(), H, mag); gen_reals(g, zi.data(), H, mag); auto zr0 = zr, zi0 = zi;
		ld S = (l1(zr, H) + l1(zi, H)); g.note(fmt("backward LOGN=%d |z|_1=%.3Lg z0=%.17g%+.17gi", LOGN, S, zr[0], zi[0]));
		ifft<LOGN>(zr.data(), zi.data(), m.data());
		PBT_CHECK(zr == zr0 && zi == zi0, "LOGN=%d ifft changed its input", LOGN);
		ld tol = S * 2 / N * EPS * (8 * LOGN + 8);
		for (int k : slots_of(g, N, 512, 6)) { close(m[k], Z.coeff(zr, zi, k), tol, "ifft", k); g.count(); }
		std::vector<double> yr = junk(g, H), yi = junk(g, H); fft<LOGN>(m.data(), yr.data(), yi.data());
		for (int i = 0; i < H; i++) { close(yr[i], zr[i], S * EPS * (32 * LOGN + 32), "re fft(ifft(z))", i); close(yi[i], zi[i], S * EPS * (32 * LOGN + 32), "im fft(ifft(z))", i); }
		g.count(N);
		std::vector<double> p = junk(g, N); ifftNR<LOGN>(zr.data(), zi.data(), p.data());
		for (int i = 0; i < H; i++) { close(p[rev(i, LOGN - 1)], m[i], tol, "ifftNR", i); close(p[rev(i, LOGN - 1) + H], m[i + H], tol, "ifftNR upper", i); }
		if constexpr (LOGN <= 8) { std::vector<double> e = junk(g, N); idft<N>(zr.data(), zi.data(), e.data());
			for (int k = 0; k < N; k++) close(e[k], Z.coeff(zr, zi, k), S * 2 / N * EPS * (16 + N), "idft", k); }
		int nz = 0; for (double v : zr) nz += v != 0; for (double v : zi) nz += v != 0; if (nz > 1) g.nontrivial();
	}
	// the layers multiply up to the matrix of the transform, each with three diagonals
	static void factors(Gen& g) {
		const Zeta& Z = Zeta::of(N); static std::unique_ptr<SparseDiagonal<H, 3>[]> R(new SparseDiagonal<H, 3>[LOGN - 1]), I(new SparseDiagonal<H, 3>[LOGN - 1]);
		for (int d = 0; d < LOGN - 1; d++) for (int s = 0; s < 3; s++) { R[d].off[s] = I[d].off[s] = 77; R[d].zero[s] = I[d].zero[s] = g.below(2); for (int i = 0; i < H; i++) R[d].vec[s][i] = I[d].vec[s][i] = 1e9; }
		splitU0NR<LOGN>(R.get(), I.get());
		int col = (int)g.below(H); g.note(fmt("factors LOGN=%d column %d", LOGN, col));
		std::vector<cld> v(H), w(H); v[col] = 1;
		for (int d = LOGN - 2; d >= 0; d--) {
			for (int s = 0; s < 3; s++) {
				int orr = ((R[d].off[s] % H) + H) % H, oi = ((I[d].off[s] % H) + H) % H; PBT_CHECK(orr == oi, "LOGN=%d layer %d: offsets differ", LOGN, d);
				if (R[d].zero[s]) for (int i = 0; i < H; i++) PBT_CHECK(R[d].vec[s][i] == 0, "LOGN=%d layer %d: real diagonal %d marked zero is not", LOGN, d, s);
				if (I[d].zero[s]) for (int i = 0; i < H; i++) PBT_CHECK(I[d].vec[s][i] == 0, "LOGN=%d layer %d: imaginary diagonal %d marked zero is not", LOGN, d, s);
			}
			for (int i = 0; i < H; i++) { w[i] = 0; for (int s = 0; s < 3; s++) w[i] += cld(R[d].vec[s][i], I[d].vec[s][i]) * v[(((i + R[d].off[s]) % H) + H) % H]; }
			v = w;
		}
		int k = rev(col, LOGN - 1);
		for (int i = 0; i < H; i++) { cld want = Z.t[((long)Z.five[i] * k) & (2 * N - 1)]; close(v[i].real(), want.real(), 8 * LOGN * EPS, "re product of layers, row", i); close(v[i].imag(), want.imag(), 8 * LOGN * EPS, "im product of layers, row", i); }
		g.count(2 * H); if (col) g.nontrivial();
	}
	static void run(Gen& g) { switch (g.below(5)) { case 0: case 1: forward(g); break; case 2: case 3: backward(g); break; default: factors(g); } }
};
using F = void (*)(Gen&);
static const F SMALL[] = {T<2>::run, T<3>::run, T<4>::run, T<5>::run, T<6>::run, T<7>::run, T<8>::run, T<9>::run};
static const F LARGE[] = {T<10>::run, T<11>::run, T<12>::run, T<13>::run, T<14>::run, T<15>::run, T<16>::run, T<17>::run};
static int p1 = add("transform", 8 * 2500, 8 * 40000, 8, [](Gen& g) { SMALL[g.below(8)](g); });
static int p2 = add("transform_large", 8 * 16, 8 * 400, 8, [](Gen& g) { LARGE[g.below(8)](g); });
PBT_MAIN
