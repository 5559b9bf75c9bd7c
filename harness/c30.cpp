// C30: inconsistent requests end the program; consistent ones do not.  Every request runs in a process of its own.
#include "boot.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include <array>
#include <utility>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
using namespace pbt; using namespace ref;

template <int N, int S> using SD = SparseDiagonal<N, S>;
enum Fate { ANSWERED, REFUSED };
// what becomes of a request: it answers, it ends the program deliberately (abort, exception, exit status), or something else
template <class F> Fate fate(F f, const std::string& what) {
	fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) throw Discard{};
	if (p == 0) { struct rlimit none = {0, 0}; setrlimit(RLIMIT_CORE, &none); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); signal(SIGABRT, SIG_DFL); alarm(120); try { f(); } catch (...) { _exit(1); } _exit(0); }
	int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st)) return WEXITSTATUS(st) ? REFUSED : ANSWERED;
	PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "%s: the process died of signal %d", what.c_str(), WIFSIGNALED(st) ? WTERMSIG(st) : -1); return REFUSED;
}
template <class F> void ask(Gen& g, bool sound, const std::string& what, F f) {
	g.note(what + (sound ? " (consistent)" : " (inconsistent)")); g.label(sound ? "consistent" : "inconsistent"); Fate r = fate(f, what);
	if (sound) PBT_CHECK(r == ANSWERED, "%s: a consistent request is refused", what.c_str()); else PBT_CHECK(r == REFUSED, "%s: an inconsistent request is answered", what.c_str());
	g.count(); if (!sound) g.nontrivial();
}
template <int N, int S> std::string offs(const SD<N, S>& A) { std::string t = "{"; for (int s = 0; s < S; s++) t += fmt(s ? ",%d" : "%d", A.off[s]); return t + "}"; }
// a matrix of nonzero diagonals at given offsets
template <int N, int S> void filled(Gen& g, SD<N, S>& A, const int* off) { Rng r = g.bulk(); A.setzero(); for (int s = 0; s < S; s++) { A.off[s] = off[s]; A.zero[s] = false; for (int i = 0; i < N; i++) A.vec[s][i] = 1 + (double)r.below(5); } }
template <int N, int S> void offsets(Gen& g, int* off) { int a = (int)g.below(N), step = (int)g.below(N); for (int s = 0; s < S; s++) off[s] = (a + s * step) % N; }
// two matrices of the same diagonals, or with one that differs
// (parts: real and imaginary part of one matrix, where either may be marked zero in a diagonal, the one that differs included)
template <int N, int S> bool pair(Gen& g, SD<N, S>& A, SD<N, S>& B, bool parts = true) {
	int off[S]; offsets<N, S>(g, off); filled(g, A, off); filled(g, B, off);
	if (parts) for (int s = 0; s < S; s++) { int z = (int)g.below(4); if (z > 1) { (z == 2 ? A : B).zero[s] = true; for (double& v : (z == 2 ? A : B).vec[s]) v = 0; } }
	if (g.below(2) == 0) return true;
	int s = (int)g.below(S); B.off[s] = (B.off[s] + 1 + (int)g.below(N - 1)) % N; return false;
}
template <int N, int S> void sums(Gen& g) { static SD<N, S> A, B; bool ok = pair(g, A, B, false); bool minus = g.below(2); ask(g, ok, fmt("N=%d matrices with diagonals %s and %s, %s", N, offs(A).c_str(), offs(B).c_str(), minus ? "difference" : "sum"), [&] { if (minus) A -= B; else A += B; }); }
template <int N, int S> void elements(Gen& g) {
	static SD<N, S> A; int off[S]; offsets<N, S>(g, off); filled(g, A, off); int i = (int)g.below(N), j; bool on = g.below(2); j = (i + off[g.below(S)]) % N;
	if (!on) { j = (int)g.below(N); for (int t = 0; t < N; t++, j = (j + 1) % N) { bool hit = false; for (int s = 0; s < S; s++) hit |= (j - i - off[s]) % N == 0; if (!hit) break; if (t == N - 1) throw Discard{}; } }
	ask(g, on, fmt("N=%d matrix with diagonals %s, setting element (%d,%d)", N, offs(A).c_str(), i, j), [&] { A.set_element(i, j, 3); });
}
template <int N, int S> void products(Gen& g) {
	static SD<N, S> Ar, Ai, Br, Bi; static SD<N, S * S> Cr, Ci; bool a = pair(g, Ar, Ai), b = pair(g, Br, Bi);
	ask(g, a && b, fmt("N=%d product of complex matrices with diagonals %s+i%s and %s+i%s", N, offs(Ar).c_str(), offs(Ai).c_str(), offs(Br).c_str(), offs(Bi).c_str()), [&] { MatMul(Ar, Ai, Br, Bi, Cr, Ci); });
}
template <int N, int S1, int S2> void drops(Gen& g) {
	static SD<N, S1> A; static SD<N, S2> B; int off[S1]; offsets<N, S1>(g, off); filled(g, A, off); bool ok = true; std::string z;
	for (int s = 0; s < S1; s++) { bool clear = s < S2 ? g.below(4) == 3 : g.below(S1 - S2 + 1) != 0; if (clear) { A.zero[s] = true; for (double& v : A.vec[s]) v = 0; } else if (s >= S2) ok = false; z += clear ? '0' : '1'; }
	ask(g, ok, fmt("N=%d keeping %d of the diagonals %s (nonzero: %s)", N, S2, offs(A).c_str(), z.c_str()), [&] { RemoveClutter(A, B); });
}
static constexpr int L = 60, LN = 3, RN = 1 << LN, RH = RN / 2, D = 10;
static int key[RN] = {1, 0, -1, 0, 0, 1, 0, 0};
template <int S> void transforms(Gen& g) {
	static SD<RH, S> A, B; bool ok = pair(g, A, B); static R_Q_square<L, RN> a, b; garbage(a, g);
	ask(g, ok, fmt("linear transform with diagonals %s+i%s", offs(A).c_str(), offs(B).c_str()), [&] { linear_transform<L, LN, D, S>(A, B, a, key, b); });
}
static void plaintexts(Gen& g) {
	static SD<RH, 3> A, B; bool ok = pair(g, A, B); static R_Q<L, RN> a, b; garbage(a, g);
	ask(g, ok, fmt("plaintext product with diagonals %s+i%s", offs(A).c_str(), offs(B).c_str()), [&] { matrix_vector_product<L, LN>(a, A, B, 1ull << D, b); });
}
// layers in groups of G
template <int LAYERS, int G> struct Grouped { static void run(Gen& g) {
	static SD<RH, 3> A[LAYERS], B[LAYERS]; bool ok = G >= 1 && G <= 4 && LAYERS % std::max(G, 1) == 0; std::string t; int odd = g.below(3) == 2 ? (int)g.below(LAYERS) : -1;
	for (int k = 0; k < LAYERS; k++) { int off[3]; offsets<RH, 3>(g, off); filled(g, A[k], off); filled(g, B[k], off); if (k == odd) { int s = (int)g.below(3); B[k].off[s] = (B[k].off[s] + 1 + (int)g.below(RH - 1)) % RH; ok = false; } t += offs(A[k]) + "+i" + offs(B[k]) + " "; }
	static R_Q_square<L, RN> a, b; garbage(a, g);
	ask(g, ok, fmt("%d layers with diagonals %sin groups of %d", LAYERS, t.c_str(), G), [&] { grouped_serial_linear_transform<L, LN, D, 3, LAYERS, G>(A, B, a, key, b); });
} };
template <int LOGN, int G> struct Moves { static void run(Gen& g) {
	constexpr int N = 1 << LOGN, Q = 100; bool ok = G >= 1 && G <= 4 && (LOGN - 1) % std::max(G, 1) == 0, back = g.below(2); static R_Q_square<Q, N> a, b, c[2]; static int s[N]; garbage(a, g); garbage(b, g); for (int i = 0; i < N; i += 3) s[i] = i % 2 ? 1 : -1;
	ask(g, ok, fmt("ring of degree %d, %s in groups of %d", N, back ? "slots to coefficients" : "coefficients to slots", G), [&] { if (back) SlotToCoeff<Q, LOGN, D, G>(a, b, s, c[0]); else CoeffToSlot<Q, LOGN, D, G>(a, s, c); });
} };
using F = void (*)(Gen&);
static const F MATRICES[] = {sums<4, 1>, sums<4, 3>, sums<8, 5>, sums<2, 2>, elements<4, 1>, elements<8, 3>, elements<16, 5>, products<4, 1>, products<4, 2>, products<8, 3>, drops<4, 3, 2>, drops<8, 5, 2>, drops<4, 6, 5>, transforms<1>, transforms<3>, transforms<4>, plaintexts};
static const F LAYERED[] = {Grouped<1,1>::run, Grouped<1,2>::run, Grouped<2,2>::run, Grouped<3,2>::run, Grouped<3,3>::run, Grouped<4,3>::run, Grouped<4,4>::run, Grouped<2,4>::run, Grouped<6,4>::run, Grouped<5,5>::run, Grouped<2,0>::run, Grouped<5,3>::run, Grouped<6,3>::run,
	Moves<3,1>::run, Moves<3,2>::run, Moves<4,2>::run, Moves<4,3>::run, Moves<5,3>::run, Moves<5,4>::run, Moves<6,5>::run, Moves<4,4>::run, Moves<6,2>::run};
static int p1 = add("matrices", 17 * 60, 17 * 1000, 17, [](Gen& g) { MATRICES[g.below(17)](g); });
static int p2 = add("layers", 22 * 8, 22 * 100, 22, [](Gen& g) { LAYERED[g.below(22)](g); });
PBT_MAIN
