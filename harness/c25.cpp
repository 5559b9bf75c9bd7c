// C25: results do not depend on the number of threads, their schedule, earlier calls or what outputs held before.
// Every job (an operation of one shape on inputs that follow from a seed) runs in a process of its own with one thread
// for reference, and again as part of a generated sequence of jobs in one process.
#ifdef SHIM
#include "gomp.h"
#else
#ifdef _OPENMP
#include <omp.h>
#else
static void omp_set_dynamic(int) {} static void omp_set_num_threads(int) {}
#endif
#endif
#include "lt.h"
#include "HEAAN/bootstrap.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
#include <malloc.h>
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

#ifdef __clang__
#define CLANG_STRICT 1 // clang rejects the zero-length arrays of unused groupings in small rings
#else
#define CLANG_STRICT 0
#endif
struct Job { int shape, op, seed; }; struct Setting { int threads, pattern, serial; uint64_t order; };
#ifdef MSAN
static void scribble(void* p, size_t n, int) { __msan_poison(p, n); }
#else
static void scribble(void* p, size_t n, int pattern) { uint64_t x = 0x9e3779b97f4a7c15ull; unsigned char* c = (unsigned char*)p; if (pattern == 0) memset(p, 0, n); else if (pattern == 1) memset(p, 0xff, n); else for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + pattern; memcpy(c + i, &x, 8); } }
#endif
static int pattern; // what outputs and stacks hold beforehand
template <class X> struct Obj { X* p; explicit Obj(int n = 1) { p = (X*)malloc(sizeof(X) * n); scribble(p, sizeof(X) * n, pattern); } ~Obj() { free(p); } X& operator*() { return *p; } X& operator[](int i) { return p[i]; } };
__attribute__((noinline, no_sanitize("thread"))) static void smear() { volatile unsigned char b[6 << 20]; scribble((void*)b, sizeof b, pattern); }
struct Digest { uint64_t h = 0xcbf29ce484222325ull; void word(uint64_t w) { h = (h ^ w) * 0x100000001b3ull; h ^= h >> 29; }
	template <int L> void add(const Z_Q<L>& z) { for (int j = 0; j < limbs<L>(); j++) word(z[j]); } template <int L, int N> void add(const R_Q<L, N>& x) { for (int i = 0; i < N; i++) add(x[i]); } template <int L, int N> void add(const R_Q_square<L, N>& x) { add(x[0]); add(x[1]); }
	void add(const double* x, int n) { for (int i = 0; i < n; i++) { uint64_t w; memcpy(&w, x + i, 8); word(w); } } };
template <int L, int N> void fill(Rng& r, R_Q<L, N>& x) { for (int i = 0; i < N; i++) { for (int j = 0; j < limbs<L>(); j++) x[i][j] = r.u64(); if (L % 64) x[i][limbs<L>() - 1] &= (1ull << (L % 64)) - 1; } }
template <int L, int N> void fill(Rng& r, R_Q_square<L, N>& x) { fill(r, x[0]); fill(r, x[1]); }
static void fill(Rng& r, double* x, int n) { for (int i = 0; i < n; i++) x[i] = r.unit(); }
template <int N> void fill_key(Rng& r, int* s) { for (int i = 0; i < N; i++) s[i] = N > 64 && r.below(N) > 48 ? 0 : (int)r.below(3) - 1; }

static const char* const OPS[] = {"product of polynomials", "product with a key", "keygen and enc", "dec", "swkgen", "ks", "Mul", "rot_ct", "conj", "RS and resize", "encode", "decode", "linear_transform", "CoeffToSlot", "SlotToCoeff", "EvalMod", "polynomial of degree 7", "sparse matrices", "plaintext matrix product", "floating-point plaintext", "grouped CoeffToSlot", "grouped SlotToCoeff", "polynomial of degree 15", "dense transform", "message arithmetic", "negation and copies", "ring sum"};
static constexpr int NOPS = sizeof OPS / sizeof *OPS;
template <int L, int LOGN, int D> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using P = R_Q<L, N>; using C = R_Q_square<L, N>; using K = R_Q_square<2 * L, N>; static constexpr bool SMALL = LOGN <= 5, GROUPS = SMALL && (LOGN == 5 || CLANG_STRICT == 0);
	static uint64_t run(int op, int seed) {
		Rng r(1000003ull * seed + op); Digest d; static int s[N], s2[N], s3[N]; fill_key<N>(r, s); fill_key<N>(r, s2); scribble(s3, sizeof s3, pattern ? 1 : 0); srand(seed + 1); smear();
		switch (op) {
		case 0: { Obj<P> a, b, c; fill(r, *a); fill(r, *b); conv<L, N>(*a, *b, *c); d.add(*c); break; }
		case 1: { Obj<P> a, c; fill(r, *a); conv<L, N>(s, *a, *c); d.add(*c); if (N <= 1024) { void (*f)(const int*, const int*, int*) = &conv<N>; f(s, s2, s3); for (int i = 0; i < N; i++) d.word(s3[i]); } break; }
		case 2: { Obj<P> a; Obj<C> c; fill(r, *a); HEAAN<L, N>::keygen(N / 2, s3); for (int i = 0; i < N; i++) d.word(s3[i]); HEAAN<L, N>::enc(*a, s, *c); d.add(*c); break; }
		case 3: { Obj<P> a; Obj<C> c; fill(r, *c); HEAAN<L, N>::dec(*c, s, *a); d.add(*a); break; }
		case 4: { Obj<K> k; HEAAN<L, N>::swkgen(s2, s, *k); d.add(*k); break; }
		case 5: { Obj<K> k; Obj<C> c; fill(r, *k); fill(r, *c); HEAAN<L, N>::ks(*k, *c); d.add(*c); break; }
		case 6: { Obj<K> k; Obj<C> a, b, c; fill(r, *k); fill(r, *a); fill(r, *b); Mul<L, N>(*a, *b, *k, *c); d.add(*c); break; }
		case 7: { Obj<K> k; Obj<C> a, c; fill(r, *k); fill(r, *a); rot_ct<L, N>(*a, (int)r.below(H + 2), *k, *c); d.add(*c); rot<N>(s, s3, (int)r.below(H)); for (int i = 0; i < N; i++) d.word(s3[i]); break; }
		case 8: { Obj<K> k; Obj<C> a, c; fill(r, *k); fill(r, *a); conj<L, N>(*a, *k, *c); d.add(*c); conj<N>(s, s3); for (int i = 0; i < N; i++) d.word(s3[i]); break; }
		case 9: { Obj<C> a; Obj<R_Q_square<L / 2, N>> b; Obj<R_Q_square<L + 37, N>> c; fill(r, *a); RS<L, L / 2, N>(*a, *b); d.add(*b); resize<L, L + 37, N>(*a, *c); d.add(*c); resize<L, L / 2, N>(*a, *b); d.add(*b); mod_raise<L, L + 37, N>(*a, *c); d.add(*c); break; }
		case 10: { Obj<P> a; static double x[H], y[H]; fill(r, x, H); fill(r, y, H); encode<L, LOGN>(x, y, 1ull << D, *a); d.add(*a); break; }
		case 11: { Obj<P> a; static double x[H], y[H]; fill(r, *a); scribble(x, sizeof x, 2); decode<L, LOGN>(*a, 1ull << D, x, y); d.add(x, H); d.add(y, H); decode_log<L, LOGN>(*a, D, x, y); d.add(x, H); d.add(y, H); break; }
		case 12: if constexpr (SMALL) { static SparseDiagonal<H, 3> A[2], B[2]; for (int m = 0; m < 2; m++) for (int t = 0; t < 3; t++) { A[m].off[t] = B[m].off[t] = (t + m) % H; A[m].zero[t] = B[m].zero[t] = r.below(4) == 0; fill(r, A[m].vec[t], H); fill(r, B[m].vec[t], H); } Obj<C> a, c; fill(r, *a); serial_linear_transform<L, LOGN, D, 3, 2>(A, B, *a, s, *c); d.add(*c); Obj<K> k; fill(r, *k); const K* ks[3] = {k.p, k.p, k.p}; linear_transform<L, LOGN, D, 3>(A[0], B[0], *a, ks, *c); d.add(*c); } break;
		case 13: if constexpr (GROUPS) { Obj<C> a, c(2); fill(r, *a); CoeffToSlot<L, LOGN, D>(*a, s, c.p); d.add(c[0]); d.add(c[1]); } break;
		case 14: if constexpr (GROUPS) { Obj<C> a, b, c; fill(r, *a); fill(r, *b); SlotToCoeff<L, LOGN, D, 1>(*a, *b, s, *c); d.add(*c); } break;
		case 15: if constexpr (SMALL && L > 12 * D + 20) { Obj<C> a; Obj<R_Q_square<L - 12 * D, N>> c; fill(r, *a); EvalMod<L, N, D, 24>(*a, s, *c); d.add(*c); } break;
		case 16: if constexpr (SMALL && L > 4 * D + 20) { double u[8]; fill(r, u, 8); Obj<C> a; fill(r, *a); Obj<R_Q_square<2 * (L - D * 1), N>> k1; Obj<R_Q_square<2 * (L - D * 2), N>> k2; (void)k1; (void)k2; poly(r, d, *a, u); } break;
		case 17: if constexpr (LOGN >= 2 && LOGN <= 6) { static SparseDiagonal<H, 3> A[LOGN], B[LOGN]; for (auto& m : A) scribble(m.vec, sizeof m.vec, pattern); splitU0NR<LOGN>(A, B); for (int m = 0; m < LOGN - 1; m++) for (int t = 0; t < 3; t++) { d.word(A[m].off[t]); d.word(A[m].zero[t]); if (!A[m].zero[t]) d.add(A[m].vec[t], H); if (!B[m].zero[t]) d.add(B[m].vec[t], H); } if constexpr (LOGN >= 3) { static SparseDiagonal<H, 9> U, V; MatMul(A[1], B[1], A[0], B[0], U, V); for (int t = 0; t < 9; t++) { d.word(U.zero[t] && V.zero[t]); if (!U.zero[t]) { d.word(U.off[t]); d.add(U.vec[t], H); } if (!V.zero[t]) d.add(V.vec[t], H); } } } break;
		case 18: if constexpr (SMALL) { static Message<LOGN> A[3], x, y; for (auto& m : A) { fill(r, m.r, H); fill(r, m.i, H); } fill(r, x.r, H); fill(r, x.i, H); Obj<P> p, q; encode(x, 1ull << D, *p); matrix_vector_product<L, LOGN, 3>(*p, A, 1ull << D, *q); d.add(*q); matrix_vector_product<LOGN, 3>(x, A, y); d.add(y.r, H); d.add(y.i, H); } break;
		case 19: { static Message<LOGN> x, y; static SimplePlaintext<LOGN> p, q, t; fill(r, x.r, H); fill(r, x.i, H); encode(x, 1ull << D, p); encode_raw(x, 1ull << D, q); if (N <= 1024) { conv(p, q, t); d.add(t.data, N); } rotate(p, t, 3); d.add(t.data, N); decode(q, 1ull << D, y); d.add(y.r, H); d.add(y.i, H); double z = norm(p) + sup_norm(x); d.add(&z, 1); break; }
		case 20: if constexpr (GROUPS && LOGN % 2 == 1 && LOGN >= 3) { Obj<C> a, c(2); fill(r, *a); CoeffToSlot<L, LOGN, D, 2>(*a, s, c.p); d.add(c[0]); d.add(c[1]); } break;
		case 21: if constexpr (GROUPS && LOGN % 2 == 1 && LOGN >= 3) { Obj<C> a, b, c; fill(r, *a); fill(r, *b); SlotToCoeff<L, LOGN, D, 2>(*a, *b, s, *c); d.add(*c); } break;
		case 22: if constexpr (SMALL && L > 5 * D) { double u[16]; fill(r, u, 16); Obj<C> a; Obj<K> k1; Obj<R_Q_square<2 * (L - D), N>> k2; Obj<R_Q_square<2 * (L - 2 * D), N>> k3; Obj<R_Q_square<2 * (L - 3 * D), N>> k4; Obj<R_Q_square<L - 3 * D, N>> o7; Obj<R_Q_square<L - 4 * D, N>> o15; fill(r, *a); fill(r, *k1); fill(r, *k2); fill(r, *k3); fill(r, *k4); eval_poly_deg7<L, N, D>(u, *a, *k1, *k2, *k3, *o7); d.add(*o7); eval_poly_deg15<L, N, D>(u, *a, *k1, *k2, *k3, *k4, *o15); d.add(*o15); } break;
		case 23: if constexpr (LOGN <= 4) { static double Ar[H][H], Ai[H][H]; fill(r, &Ar[0][0], H * H); fill(r, &Ai[0][0], H * H); Obj<C> a, c; Obj<K> k; fill(r, *a); fill(r, *k); linear_transform<L, LOGN, D>(Ar, Ai, *a, *k, *c); d.add(*c); } break;
		case 24: { static Message<LOGN> x, y, z; fill(r, x.r, H); fill(r, x.i, H); fill(r, y.r, H); fill(r, y.i, H); scribble(&z, sizeof z, pattern); add(x, y, z); d.add(z.r, H); d.add(z.i, H); sub(x, y, z); d.add(z.r, H); d.add(z.i, H); mul(x, y, z); d.add(z.r, H); d.add(z.i, H); double v[3] = {norm(x), square_sum(y), sup_norm(z)}; d.add(v, 3); break; }
		case 25: { Obj<P> a, b, c; fill(r, *a); *b = *a; for (int i = 0; i < N; i++) (*b)[i].negate(); d.add(*b); *c = *b; *c -= *a; d.add(*c); P e(*c); d.add(e); for (int t = 0; t < 3; t++) { rot<L, N>(*a, *b, (int)r.below(N)); d.add(*b); conj<L, N>(*b, *c); d.add(*c); } break; }
		default: { Obj<P> a, b; fill(r, *a); fill(r, *b); *a += *b; d.add(*a); *b -= *a; d.add(*b); *a *= (uint64_t)r.u64(); d.add(*a); } }
		return d.h;
	}
	static void poly(Rng& r, Digest& d, const C& a, const double* u) { // squares of the key, and the powers evaluated from them
		static int sq[N]; void (*f)(const int*, const int*, int*) = &conv<N>; const int* key = keyof(r); f(key, key, sq); (void)u; for (int i = 0; i < N; i++) d.word(sq[i]);
		Obj<R_Q_square<2 * L, N>> evk; fill(r, *evk); Obj<C> x, y; Mul<L, N>(a, a, *evk, *x); Mul<L, N>(*x, a, *evk, *y); d.add(*y); Obj<R_Q_square<L - D, N>> z; RS<L, L - D, N>(*y, *z); d.add(*z); double c[16], e[16]; fill(r, c, 16); scribble(e, sizeof e, pattern); convert_frc_tou(c, e, 16); d.add(e, 16);
	}
	static const int* keyof(Rng& r) { static int k[N]; fill_key<N>(r, k); return k; }
};
using F = uint64_t (*)(int, int);
struct Conf { int L, LOGN, D; };
static constexpr Conf C[] = {{120,3,20},{120,4,20},{121,3,20},{120,3,42},{64,2,15},{250,5,20},{250,4,45},{300,4,22},{620,3,50},{65,6,20},{150,10,30},{850,8,40},{60,12,30}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
// shapes of one part share a process: neighbours in the table, so that equal LOGQ, equal rings and equal scales meet
template <int I> constexpr F entry() { if constexpr (I * PARTS / NC == PART) return &T<C[I].L, C[I].LOGN, C[I].D>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<int> HERE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) HERE.push_back(i); return true; }();

static void apply(const Setting& s) { pattern = s.pattern; mallopt(M_PERTURB, s.pattern == 0 ? 0 : 0x5a + s.pattern); omp_set_dynamic(0); omp_set_num_threads(s.threads);
#ifdef SHIM
	gomp::serial = s.serial; gomp::seed = s.order;
#endif
}
// the digests of a sequence of jobs run in a new process
struct Run { std::vector<uint64_t> d; int status = 0; };
static Run in_process(const std::vector<Job>& jobs, const std::vector<Setting>& set) {
	Run r; int fd[2]; if (pipe(fd)) throw Discard{}; fflush(stdout); pid_t p = fork();
	if (p == 0) { close(fd[0]); alarm(300); for (size_t i = 0; i < jobs.size(); i++) { apply(set[i]); uint64_t h = ALL[jobs[i].shape](jobs[i].op, jobs[i].seed); if (write(fd[1], &h, 8) != 8) _exit(3); } _exit(0); }
	close(fd[1]); uint64_t h; for (;;) { ssize_t k = read(fd[0], &h, 8); if (k == 8) r.d.push_back(h); else if (k < 0 && errno == EINTR) continue; else break; }
	close(fd[0]); waitpid(p, &r.status, 0); return r;
}
static std::string name(const Job& j) { return fmt("%s (LOGQ=%d N=%d LOGDELTA=%d seed %d)", OPS[j.op], C[j.shape].L, 1 << C[j.shape].LOGN, C[j.shape].D, j.seed); }
static uint64_t reference(const Job& j) {
	static std::map<std::array<int, 3>, uint64_t> cache; std::array<int, 3> k{j.shape, j.op, j.seed}; auto it = cache.find(k); if (it != cache.end()) return it->second;
	Run r = in_process({j}, {{1, 0, 1, 1}}); PBT_CHECK(r.d.size() == 1, "%s alone ended with status %x", name(j).c_str(), r.status); return cache[k] = r.d[0];
}
static Setting setting(Gen& g, bool shim) { Setting s; s.threads = 1 + (int)g.below(shim && g.below(4) == 3 ? 33 : 8); s.pattern = (int)g.below(5); s.serial = (int)g.below(2); s.order = g.u64(); return s; }
static bool SLOW(int op) { return (op >= 12 && op <= 15) || (op >= 20 && op <= 23); }
static void sequence(Gen& g) {
#ifdef SHIM
	const bool shim = true;
#else
	const bool shim = false;
#endif
	int first = (int)g.below(NOPS), n = 2 + (int)g.below(7); std::vector<Job> jobs; std::vector<Setting> set; bool one_op = g.below(3) == 2, far = g.below(12) == 11; if (far) { n = g.range(20, 150); g.label("long history"); }
	for (int i = 0; i < n; i++) {
		Job j{HERE[g.below(HERE.size())], i == 0 || one_op ? first : (int)g.below(NOPS), (int)g.below(4)}; while (far && SLOW(j.op)) j.op = (j.op + 3) % NOPS; if (far && one_op) j.shape = jobs.empty() ? j.shape : jobs[0].shape; if (i && g.below(5) == 4) { int k = (int)g.below(i); j = jobs[k]; g.label("the same job again"); }
		jobs.push_back(j); set.push_back(setting(g, shim)); if (i < 10) g.note(fmt("%s with %d threads%s, outputs %d", name(j).c_str(), set[i].threads, shim ? set[i].serial ? " one at a time" : " in parallel" : "", set[i].pattern)); g.label(OPS[j.op]);
	}
	std::vector<uint64_t> want; for (auto& j : jobs) want.push_back(reference(j));
	Run r = in_process(jobs, set); bool threads = false;
	for (size_t i = 0; i < jobs.size(); i++) {
		PBT_CHECK(i < r.d.size(), "%s, job %zu of the sequence, ended the process with status %x", name(jobs[i]).c_str(), i, r.status);
		PBT_CHECK(r.d[i] == want[i], "%s, job %zu of the sequence, with %d threads and outputs filled with pattern %d: result differs from the one in a process of its own with one thread", name(jobs[i]).c_str(), i, set[i].threads, set[i].pattern); g.count(); if (set[i].threads > 1) threads = true; }
	if (threads) g.nontrivial();
}
#ifdef MEMORY
// one job in this process; the sanitizers watch
static int p1 = add("jobs", NOPS * 8, NOPS * 200, NOPS, [](Gen& g) { Job j{0, (int)g.below(NOPS), 0}; j.shape = HERE[g.below(HERE.size())]; j.seed = (int)g.below(1000); Setting s{1 + (int)g.below(3), 1 + (int)g.below(4), 0, 1}; g.note(fmt("%s with %d threads", name(j).c_str(), s.threads)); g.label(OPS[j.op]); apply(s); if (ALL[j.shape](j.op, j.seed) != Digest().h) g.nontrivial(); g.count(); });
#elif defined(RACES)
// one job in this process; ThreadSanitizer watches
static int p1 = add("races", NOPS * 6, NOPS * 60, NOPS, [](Gen& g) { Job j{0, (int)g.below(NOPS), 0}; j.shape = HERE[g.below(HERE.size())]; j.seed = (int)g.below(100); Setting s{2 + (int)g.below(5), (int)g.below(5), 0, g.u64()}; g.note(fmt("%s with %d threads", name(j).c_str(), s.threads)); g.label(OPS[j.op]); apply(s); long before = gomp::parallel_regions; ALL[j.shape](j.op, j.seed); if (gomp::parallel_regions > before) g.nontrivial(); g.count(); });
#else
static int p1 = add("sequences", 40 * NOPS, 1500 * NOPS, NOPS, [](Gen& g) { sequence(g); });
#endif
PBT_MAIN
