// C11: sparse diagonal matrices against dense ones.  Entries are small integers (or dyadic
// fractions), so that every sum is exact and the comparison is equality.
#include "ref.h"
#include <cstdint>
#include "HEAAN/linear_transform.h"
#include "impl/message.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int N> using Dense = std::vector<double>; // N x N, row by row
template <int N, int S> using SD = SparseDiagonal<N, S>;
template <int S> struct Off { int o[S]; int& operator[](int i) { return o[i]; } int operator[](int i) const { return o[i]; } };
template <int N, int S> Dense<N> dense(const SD<N, S>& A) { Dense<N> M(N * N); for (int s = 0; s < S; s++) for (int i = 0; i < N; i++) M[i * N + (((i + A.off[s]) % N) + N) % N] += A.vec[s][i]; return M; }
template <int N, int S> void sound(const SD<N, S>& A, const char* what) { for (int s = 0; s < S; s++) if (A.zero[s]) for (int i = 0; i < N; i++) PBT_CHECK(A.vec[s][i] == 0, "N=%d S=%d after %s: diagonal %d is marked zero, entry %d is %g", N, S, what, s, i, A.vec[s][i]); }
template <int N> void same(const Dense<N>& a, const Dense<N>& b, const char* what) { for (int i = 0; i < N * N; i++) PBT_CHECK(a[i] == b[i], "N=%d %s: entry (%d,%d) is %.17g, want %.17g", N, what, i / N, i % N, a[i], b[i]); }
template <int N> Dense<N> mul(const Dense<N>& a, const Dense<N>& b) { Dense<N> c(N * N); for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) if (a[i * N + k] != 0) for (int j = 0; j < N; j++) c[i * N + j] += a[i * N + k] * b[k * N + j]; return c; }
static double entry(Gen& g, Rng& r) { (void)g; double v = (double)((int)r.below(17) - 8); if (r.below(4) == 0) v /= 4; return v; }
template <int S> Off<S> offsets(Gen& g, int N) {
	Off<S> o; int style = (int)g.below(4);
	for (int s = 0; s < S; s++) o[s] = style == 0 ? s % N : style == 1 ? (int)g.below(N) : style == 2 ? (s == 0 ? 0 : s == 1 ? N / 4 : N - N / 4) % N : (int)(((uint64_t)s * (1 + g.below(N)) + g.below(2)) % N);
	return o;
}
template <int N, int S> void filled(Gen& g, SD<N, S>& A, const Off<S>& off) {
	A.setzero(); Rng r = g.bulk(); sound(A, "setzero"); same<N>(dense(A), Dense<N>(N * N), "setzero");
	for (int s = 0; s < S; s++) {
		A.off[s] = off[s]; int kind = (int)r.below(5);
		if (kind == 0) continue;                                  // stays marked zero
		for (int i = 0; i < N; i++) if (kind == 1) A.vec[s][i] = 0; else if (kind == 2) A.vec[s][i] = r.below(3) ? 0 : entry(g, r); else A.vec[s][i] = entry(g, r);
		A.zero[s] = false;
	}
}
template <int N, int S> void distinct_elements(const SD<N, S>& A, const char* what) { // get_element where offsets are distinct
	for (int s = 0; s < S; s++) for (int t = 0; t < s; t++) if ((A.off[s] - A.off[t]) % N == 0) return;
	auto M = dense(A); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) PBT_CHECK(A.get_element(i, j) == M[i * N + j], "N=%d S=%d after %s: get_element(%d,%d) = %g, want %g", N, S, what, i, j, A.get_element(i, j), M[i * N + j]);
}
template <int N, int S> struct T {
	static void state(Gen& g) {
		static SD<N, S> A[3]; Dense<N> M[3]; auto off = offsets<S>(g, N);
		for (int r = 0; r < 3; r++) { filled(g, A[r], r == 2 && g.below(2) ? offsets<S>(g, N) : off); M[r] = dense(A[r]); }
		int steps = 1 + (int)g.below(8); g.note(fmt("matrix algebra N=%d S=%d steps=%d offsets %d %d..", N, S, steps, off[0], off[S - 1]));
		for (int k = 0; k < steps; k++) {
			int a = (int)g.below(3), b = (int)g.below(3); const char* what = "";
			auto same_off = [&] { for (int s = 0; s < S; s++) if (A[a].off[s] != A[b].off[s]) return false; return true; };
			switch (g.below(7)) {
			case 0: what = "set_element"; { int s = (int)g.below(S), i = (int)g.below(N), j = (((i + A[a].off[s]) % N) + N) % N; Rng r = g.bulk(); double v = entry(g, r);
				double old = 0; for (int t = 0; t < S; t++) if ((j - i - A[a].off[t]) % N == 0) { old = A[a].vec[t][i]; break; }
				A[a].set_element(i, j, v); M[a][i * N + j] += v - old; break; }
			case 1: if (!same_off()) continue; what = "+="; A[a] += A[b]; { auto t = M[b]; for (int i = 0; i < N * N; i++) M[a][i] += t[i]; } break;
			case 2: if (!same_off()) continue; what = "-="; A[a] -= A[b]; { auto t = M[b]; for (int i = 0; i < N * N; i++) M[a][i] -= t[i]; } break;
			case 3: { what = "*="; double f = (double)((int)g.below(9) - 4) / 2; A[a] *= f; for (auto& v : M[a]) v *= f; break; }
			case 4: { what = "transpose"; A[a].transpose(); Dense<N> t(N * N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t[j * N + i] = M[a][i * N + j]; M[a] = t; break; }
			case 5: what = "negate"; A[a].negate(); for (auto& v : M[a]) v = -v; break;
			case 6: what = "="; A[a] = A[b]; M[a] = Dense<N>(M[b]); break;
			}
			g.note(fmt("%s %d,%d", what, a, b));
			for (int r = 0; r < 3; r++) { same<N>(dense(A[r]), M[r], what); sound(A[r], what); distinct_elements(A[r], what); }
			g.count(3 * N * N);
		}
		if (steps > 1) g.nontrivial();
	}
	template <int S2> static void product(Gen& g) {
		static SD<N, S> Ar, Ai; static SD<N, S2> Br, Bi; static SD<N, S * S2> Cr, Ci;
		auto oa = offsets<S>(g, N); auto ob = offsets<S2>(g, N); filled(g, Ar, oa); filled(g, Ai, oa); filled(g, Br, ob); filled(g, Bi, ob);
		for (int s = 0; s < S * S2; s++) { Cr.off[s] = 3; Ci.off[s] = 5; Cr.zero[s] = Ci.zero[s] = g.below(2); for (int i = 0; i < N; i++) Cr.vec[s][i] = Ci.vec[s][i] = 1e9; }
		auto ar = dense(Ar), ai = dense(Ai), br = dense(Br), bi = dense(Bi); g.note(fmt("product N=%d S=%d,%d offsets %d.. x %d..", N, S, S2, oa[0], ob[0]));
		MatMul<N, S, S2>(Ar, Ai, Br, Bi, Cr, Ci);
		auto rr = mul<N>(ar, br), ii = mul<N>(ai, bi), ri = mul<N>(ar, bi), ir = mul<N>(ai, br); Dense<N> wr(N * N), wi(N * N);
		for (int i = 0; i < N * N; i++) { wr[i] = rr[i] - ii[i]; wi[i] = ri[i] + ir[i]; }
		same<N>(dense(Cr), wr, "complex product, real part"); same<N>(dense(Ci), wi, "complex product, imaginary part"); sound(Cr, "complex product"); sound(Ci, "complex product");
		for (int s = 0; s < S * S2; s++) PBT_CHECK(Cr.off[s] == Ci.off[s] && Cr.off[s] >= 0 && Cr.off[s] < N, "N=%d product: offsets of diagonal %d are %d and %d", N, s, Cr.off[s], Ci.off[s]);
		// no diagonal in use twice: the result has at most one vector per offset
		for (int s = 0; s < S * S2; s++) for (int t = 0; t < s; t++) PBT_CHECK(Cr.zero[s] || Cr.zero[t] || Cr.off[s] != Cr.off[t], "N=%d product: diagonals %d and %d in use have the same offset", N, t, s);
		MatMul<N, S, S2>(Ar, Br, Cr); same<N>(dense(Cr), rr, "real product"); sound(Cr, "real product");
		same<N>(dense(Ar), ar, "operand of the product"); same<N>(dense(Bi), bi, "operand of the product");
		// dropping the unused diagonals keeps the matrix
		static SD<N, S * S2 + 2> W; W.setzero(); for (int s = 0; s < S * S2; s++) { W.off[s] = Cr.off[s]; W.zero[s] = Cr.zero[s]; for (int i = 0; i < N; i++) W.vec[s][i] = Cr.vec[s][i]; }
		static SD<N, S * S2> V; for (int s = 0; s < S * S2; s++) { V.off[s] = 1; V.zero[s] = true; for (int i = 0; i < N; i++) V.vec[s][i] = 7; }
		RemoveClutter<N, S * S2 + 2, S * S2>(W, V); same<N>(dense(V), rr, "RemoveClutter"); sound(V, "RemoveClutter");
		// associativity through the dense product of the library
		static double X[N][N], Y[N][N], Z[N][N], U[N][N], R1[N][N], R2[N][N];
		for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { X[i][j] = ar[i * N + j]; Y[i][j] = ai[i * N + j]; Z[i][j] = br[i * N + j]; U[i][j] = bi[i * N + j]; R1[i][j] = R2[i][j] = 5; }
		matrix_product<N>(X, Y, Z, U, R1, R2); Dense<N> d1(N * N), d2(N * N); for (int i = 0; i < N * N; i++) { d1[i] = R1[i / N][i % N]; d2[i] = R2[i / N][i % N]; }
		same<N>(d1, wr, "dense product, real part"); same<N>(d2, wi, "dense product, imaginary part");
		g.count(6 * N * N); g.nontrivial();
	}
	static void run(Gen& g) { if (g.below(2)) { if (g.below(2)) product<S>(g); else if constexpr (S > 1 && S < 9) product<3>(g); else product<2>(g); } else state(g); }
};
// a matrix applied to a vector of slots, in the four ways the library has
template <int LOGN, int S> void apply_prop(Gen& g) {
	const int H = 1 << (LOGN - 1); static SD<H, S> Ar, Ai; auto off = offsets<S>(g, H); filled(g, Ar, off); filled(g, Ai, off);
	static Message<LOGN> z, y, A[S]; Rng r = g.bulk(); for (int i = 0; i < H; i++) { z.r[i] = entry(g, r); z.i[i] = entry(g, r); y.r[i] = y.i[i] = 1e9; }
	auto ar = dense(Ar), ai = dense(Ai); std::vector<double> wr(H), wi(H);
	for (int i = 0; i < H; i++) for (int j = 0; j < H; j++) { wr[i] += ar[i * H + j] * z.r[j] - ai[i * H + j] * z.i[j]; wi[i] += ar[i * H + j] * z.i[j] + ai[i * H + j] * z.r[j]; }
	g.note(fmt("matrix times vector, %d slots, %d diagonals", H, S));
	auto check = [&](const char* what, const double* a, const double* b) { for (int i = 0; i < H; i++) PBT_CHECK(a[i] == wr[i] && b[i] == wi[i], "LOGN=%d S=%d %s: slot %d = %g%+gi, want %g%+gi", LOGN, S, what, i, a[i], b[i], wr[i], wi[i]); g.count(H); };
	matrix_vector_product<LOGN, S>(z, Ar, Ai, y); check("message form", y.r, y.i);
	if constexpr (S == 3) { for (int i = 0; i < H; i++) y.r[i] = y.i[i] = 1e9; matrix_vector_product<LOGN>(z.r, z.i, Ar, Ai, y.r, y.i); check("array form", y.r, y.i); }
	// the form with the diagonals 0..S-1 as messages
	std::fill(wr.begin(), wr.end(), 0); std::fill(wi.begin(), wi.end(), 0);
	for (int s = 0; s < S; s++) for (int i = 0; i < H; i++) { A[s].r[i] = entry(g, r); A[s].i[i] = entry(g, r); int j = (i + s) % H; wr[i] += A[s].r[i] * z.r[j] - A[s].i[i] * z.i[j]; wi[i] += A[s].r[i] * z.i[j] + A[s].i[i] * z.r[j]; }
	for (int i = 0; i < H; i++) y.r[i] = y.i[i] = 1e9; matrix_vector_product<LOGN, S>(z, A, y); check("first diagonals form", y.r, y.i);
	// the diagonals of a dense matrix
	static double D[H][H], V[H][H]; for (int i = 0; i < H; i++) for (int j = 0; j < H; j++) { D[i][j] = entry(g, r); V[i][j] = 1e9; }
	mat_to_vecs<H>(D, V); for (int i = 0; i < H; i++) for (int j = 0; j < H; j++) PBT_CHECK(V[i][j] == D[j][(i + j) % H], "LOGN=%d diagonal %d entry %d", LOGN, i, j);
	g.nontrivial();
}
using F = void (*)(Gen&);
static const F ALL[] = {T<2,1>::run, T<2,3>::run, T<4,3>::run, T<8,3>::run, T<16,3>::run, T<32,3>::run, T<4,2>::run, T<8,5>::run, T<3,2>::run, T<5,3>::run, T<7,4>::run, T<12,3>::run, T<16,9>::run, T<64,3>::run, T<8,1>::run, T<1,2>::run,
	apply_prop<2,3>, apply_prop<3,3>, apply_prop<4,3>, apply_prop<6,3>, apply_prop<5,1>, apply_prop<5,9>, apply_prop<3,2>, apply_prop<7,16>};
static constexpr int NA = sizeof ALL / sizeof *ALL;
static int p1 = add("diagonals", NA * 1500, NA * 30000, NA, [](Gen& g) { ALL[g.below(NA)](g); });
PBT_MAIN
