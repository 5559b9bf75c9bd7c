// A small property-based testing engine.
//
// A case is a pure function of its choice sequence: every random decision is a call to
// Gen::below(), which is answered by a PRNG (generation), by a recorded list (replay,
// shrinking) or by the bytes of a libFuzzer input, and is recorded.  Shrinking edits the
// recorded list (internal shrinking), each attempt in a forked child, so that crashes,
// hangs and process-global state of the code under test do not disturb it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/mman.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif
namespace pbt {

// the text of a string; under MemorySanitizer strings filled by the C++ library count as undefined
inline const char* cs(const std::string& s) {
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
	__msan_unpoison(s.c_str(), s.size() + 1);
#endif
#endif
	return s.c_str();
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
	va_list ap; va_start(ap, f);
	char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}

struct Fail { std::string msg; };
struct Discard {};

// splitmix / xoshiro256**
struct Rng {
	uint64_t s[4];
	explicit Rng(uint64_t seed) {
		for (int i = 0; i < 4; i++) {
			seed += 0x9e3779b97f4a7c15ULL;
			uint64_t z = seed;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
			s[i] = z ^ (z >> 31);
		}
	}
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t u64() {
		uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	uint64_t below(uint64_t n) { return n ? u64() % n : u64(); } // n == 0: all 64 bits
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
	bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
	double unit() { return (double)(u64() >> 11) / 4503599627370496.0 - 1; } // [-1, 1)
	double gauss() { double a = 0; for (int i = 0; i < 12; i++) a += (u64() >> 11) * 0x1p-53; return a - 6; }
};

struct Gen {
	enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
	Rng rng{0};
	std::vector<uint64_t> in;      // REPLAY (and, in RANDOM, forced first choices)
	size_t pos = 0;
	const uint8_t* data = nullptr; size_t left = 0;
	std::vector<uint64_t> rec;
	std::map<std::string, long> labels;
	bool nontriv = false;
	long compared = 0;
	std::string desc;

	// 0 is always the simplest answer
	uint64_t below(uint64_t n) {
		uint64_t v = 0;
		if (mode == RANDOM) {
			if (pos < in.size()) { v = in[pos]; if (n) v %= n; }
			else v = rng.below(n);
		} else if (mode == REPLAY) {
			if (pos < in.size()) v = in[pos];
			if (n && v >= n) v = n - 1;
		} else {
			int bytes = n == 0 || n > (1ull << 32) ? 8 : n > 65536 ? 4 : n > 256 ? 2 : 1;
			for (int i = 0; i < bytes && left; i++, left--) v |= (uint64_t)*data++ << (8 * i);
			if (n) v %= n;
		}
		pos++;
		rec.push_back(v);
		return v;
	}
	uint64_t u64() { return below(0); }
	int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
	// true with probability num/den; false is the simple answer
	bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
	double unit() { return (double)((int64_t)(below(1ull << 53)) - (int64_t)(1ull << 52)) / 4503599627370496.0; }
	Rng bulk() { return Rng(u64()); }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	void label(const std::string& s) { labels[s]++; }
	void nontrivial() { nontriv = true; }
	void note(const std::string& s) { if (desc.size() < 1500) { if (!desc.empty()) desc += "; "; desc += s; } }
	void count(long k = 1) { compared += k; }
};

// The shapes of this binary: every PARTS-th of the table, or those listed in SEL.
#ifdef SEL
static constexpr bool in_part(int i) { for (int k : {SEL}) if (k == i) return true; return false; }
#define IN_PART(I) (in_part(I))
#else
#define IN_PART(I) ((I) % PARTS == PART)
#endif
#define PBT_CHECK(cond, ...) do { if (!(cond)) throw pbt::Fail{pbt::fmt(__VA_ARGS__)}; } while (0)

// how close the errors come to their bounds: the largest quotient, reported in the evidence
inline std::map<std::string, double>& tightness() { static std::map<std::string, double> t; return t; }
inline void tight(const std::string& what, long double err, long double bound) { if (bound > 0) { double q = (double)(err / bound), &b = tightness()[what]; if (q > b) b = q; } }

struct Prop {
	std::string name;
	int quick, thorough;           // number of cases
	int strata;                    // the first choice of case i is i % strata
	std::function<void(Gen&)> fn;
};
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
inline int add(const char* name, int quick, int thorough, int strata, std::function<void(Gen&)> fn) {
	props().push_back({name, quick, thorough, strata, fn}); return 0;
}

inline uint64_t hash(const std::vector<uint64_t>& v, uint64_t h = 0xcbf29ce484222325ULL) {
	for (uint64_t x : v) for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 255; h *= 0x100000001b3ULL; }
	return h;
}
inline uint64_t hash_str(const std::string& s) { return hash(std::vector<uint64_t>(s.begin(), s.end())); }

inline std::string json(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}

#ifdef PART // binaries of one source that cover different configurations draw different cases
static const uint64_t salt = PART + 1;
#else
static const uint64_t salt = 0;
#endif
inline Gen make_case(const Prop& p, uint64_t seed, long idx) {
	Gen g;
	g.mode = Gen::RANDOM;
	g.rng = Rng(hash({seed, hash_str(p.name), (uint64_t)idx, salt}));
	if (p.strata > 0) g.in.push_back((uint64_t)(idx % p.strata));
	return g;
}

// Runs one case; returns true if it held.
inline bool run_case(const Prop& p, Gen& g, std::string& msg) {
	srand(1);
	try { p.fn(g); }
#ifdef SANITIZE // here only the sanitizers judge
	catch (const Fail&) { g.label("oracle disagreed"); return true; }
#else
	catch (const Fail& f) { msg = f.msg; return false; }
#endif
	catch (const Discard&) { g.label("discarded"); return true; }
	return true;
}

inline bool write_replay(const std::string& path, const Prop& p, const std::string& mode,
                         const std::vector<uint64_t>& ch, uint64_t seed, long idx, int shard, int shards,
                         const std::string& tier, const std::string& msg, const std::string& desc) {
	FILE* f = fopen(cs(path), "w"); if (!f) return false;
	fprintf(f, "prop %s\nmode %s\nseed %llu\nindex %ld\nshard %d %d\ntier %s\n", p.name.c_str(), mode.c_str(),
	        (unsigned long long)seed, idx, shard, shards, tier.c_str());
	fprintf(f, "choices %zu", ch.size());
	for (uint64_t c : ch) fprintf(f, " %llu", (unsigned long long)c);
	std::string m = msg, d = desc;
	for (char& c : m) if (c == '\n') c = ' ';
	for (char& c : d) if (c == '\n') c = ' ';
	fprintf(f, "\nmessage %s\ncase %s\n", m.c_str(), d.c_str());
	fclose(f);
	return true;
}

struct Replay { std::string prop, mode, tier; uint64_t seed = 0; long idx = 0; int shard = 0, shards = 1; std::vector<uint64_t> ch; };
inline bool read_replay(const std::string& path, Replay& r) {
	FILE* f = fopen(cs(path), "r"); if (!f) return false;
	char key[64], buf[256];
	while (fscanf(f, "%63s", key) == 1) {
		std::string k = key;
		if (k == "prop") { if (fscanf(f, "%255s", buf) == 1) r.prop = buf; }
		else if (k == "mode") { if (fscanf(f, "%255s", buf) == 1) r.mode = buf; }
		else if (k == "tier") { if (fscanf(f, "%255s", buf) == 1) r.tier = buf; }
		else if (k == "seed") { unsigned long long x; if (fscanf(f, "%llu", &x) == 1) r.seed = x; }
		else if (k == "index") { if (fscanf(f, "%ld", &r.idx) != 1) break; }
		else if (k == "shard") { if (fscanf(f, "%d %d", &r.shard, &r.shards) != 2) break; }
		else if (k == "choices") {
			size_t n; if (fscanf(f, "%zu", &n) != 1) break;
			r.ch.clear();
			for (size_t i = 0; i < n; i++) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) break; r.ch.push_back(x); }
		} else { int c; while ((c = fgetc(f)) != EOF && c != '\n') {} }
	}
	fclose(f);
	return !r.prop.empty();
}

// ---- a case in a forked child -------------------------------------------------------
struct Outcome { bool failed = false; std::string msg, desc; std::vector<uint64_t> rec; };
inline Outcome in_child(const Prop& p, const std::vector<uint64_t>& ch, int secs) {
	Outcome o;
	int pfd[2]; if (pipe(pfd)) return o;
	pid_t pid = fork();
	if (pid == 0) {
		close(pfd[0]);
		int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); dup2(nul, 2); }
		Gen g; g.mode = Gen::REPLAY; g.in = ch;
		std::string msg; bool ok = run_case(p, g, msg);
		if (!ok) {
			uint64_t n = g.rec.size(), m = msg.size(), d = g.desc.size();
			auto w = [&](const void* b, size_t k) { const char* c = (const char*)b; while (k) { ssize_t r = ::write(pfd[1], c, k); if (r <= 0) break; c += r; k -= r; } };
			w(&n, 8); w(g.rec.data(), 8 * n); w(&m, 8); w(msg.data(), m); w(&d, 8); w(g.desc.data(), d);
		}
		_exit(ok ? 0 : 1);
	}
	close(pfd[1]);
	std::string buf; char tmp[65536];
	auto t0 = std::chrono::steady_clock::now();
	bool hung = false;
	fcntl(pfd[0], F_SETFL, O_NONBLOCK);
	int st = 0;
	for (;;) {
		ssize_t r = read(pfd[0], tmp, sizeof tmp);
		if (r > 0) { buf.append(tmp, r); continue; }
		if (r == 0) { waitpid(pid, &st, 0); break; }
		if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(secs)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
		usleep(500);
	}
	close(pfd[0]);
	if (hung) { o.failed = true; o.msg = fmt("the case did not finish within %d s", secs); o.rec = ch; return o; }
	if (WIFSIGNALED(st)) { o.failed = true; o.msg = fmt("the code under test died with signal %d", WTERMSIG(st)); o.rec = ch; return o; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
	o.failed = true;
	if (WEXITSTATUS(st) != 1) { o.msg = fmt("the code under test ended with status %d", WEXITSTATUS(st)); o.rec = ch; return o; }
	size_t at = 0; auto get64 = [&]() -> uint64_t { uint64_t x = 0; if (at + 8 <= buf.size()) { memcpy(&x, buf.data() + at, 8); at += 8; } return x; };
	uint64_t n = get64(); for (uint64_t i = 0; i < n && at + 8 <= buf.size(); i++) o.rec.push_back(get64());
	uint64_t m = get64(); if (at + m <= buf.size()) { o.msg = buf.substr(at, m); at += m; }
	uint64_t d = get64(); if (at + d <= buf.size()) { o.desc = buf.substr(at, d); at += d; }
	return o;
}

inline bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

inline Outcome shrink(const Prop& p, Outcome best, int budget_s, int max_runs, int case_s) {
	auto t0 = std::chrono::steady_clock::now();
	int runs = 0;
	auto spent = [&] { return runs >= max_runs || std::chrono::steady_clock::now() - t0 > std::chrono::seconds(budget_s); };
	auto attempt = [&](const std::vector<uint64_t>& c) {
		if (spent() || !simpler(c, best.rec)) return false;
		runs++;
		Outcome o = in_child(p, c, case_s);
		if (!o.failed) return false;
		if (o.rec.empty()) o.rec = c;
		if (!simpler(o.rec, best.rec)) o.rec = c;
		best = o; return true;
	};
	bool progress = true;
	while (progress && !spent()) {
		progress = false;
		for (size_t k = best.rec.size(); k >= 1 && !spent(); k /= 2)          // drop chunks
			for (size_t i = best.rec.size(); i-- > 0 && !spent();) {
				if (i + k > best.rec.size()) continue;
				std::vector<uint64_t> c = best.rec; c.erase(c.begin() + i, c.begin() + i + k);
				if (attempt(c)) progress = true;
			}
		for (size_t k = 8; k >= 1 && !spent(); k /= 2)                         // zero chunks
			for (size_t i = 0; i < best.rec.size() && !spent(); i++) {
				std::vector<uint64_t> c = best.rec; bool any = false;
				for (size_t j = i; j < std::min(i + k, c.size()); j++) { if (c[j]) any = true; c[j] = 0; }
				if (any && attempt(c)) progress = true;
			}
		for (size_t i = 0; i < best.rec.size() && !spent(); i++) {             // lower single choices
			uint64_t lo = 0, hi = best.rec[i];
			while (lo < hi && !spent()) {
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> c = best.rec; if (i >= c.size()) break; c[i] = mid;
				if (attempt(c)) { progress = true; if (i >= best.rec.size()) break; hi = best.rec[i]; } else lo = mid + 1;
			}
		}
	}
	return best;
}

// ---- main --------------------------------------------------------------------------
struct Args {
	std::string out, tier = "quick", replay, shrink_to, only, progress; uint64_t seed = 1; int shard = 0, shards = 1; int scale_num = 1, scale_den = 1;
	int budget = 60, case_s = 60; bool list = false;
};
inline Args& args() { static Args a; return a; }

inline int real_main() {
	Args& A = args();
	auto find = [&](const std::string& n) -> const Prop* { for (auto& p : props()) if (p.name == n) return &p; return nullptr; };
	if (!A.replay.empty()) {
		Replay r; if (!read_replay(A.replay, r)) { fprintf(stderr, "cannot read %s\n", A.replay.c_str()); return 3; }
		const Prop* p = find(r.prop); if (!p) { fprintf(stderr, "no property %s\n", r.prop.c_str()); return 3; }
		if (!A.shrink_to.empty()) {
			Outcome o = in_child(*p, r.ch, A.case_s);
			if (!o.failed) { printf("NOT-REPRODUCED\n"); return 0; }
			if (o.rec.empty()) o.rec = r.ch;
			o = shrink(*p, o, A.budget, 4000, A.case_s);
			write_replay(A.shrink_to, *p, "case", o.rec, r.seed, r.idx, r.shard, r.shards, r.tier, o.msg, o.desc);
			printf("SHRUNK %zu choices: %s\n", o.rec.size(), o.msg.c_str());
			return 1;
		}
		if (r.mode == "history") { // every case of that shard up to and including the failing one
			for (auto& q : props()) {
				int n = r.tier == "thorough" ? q.thorough : q.quick;
				for (long i = r.shard; i < n; i += r.shards) {
					if (!A.only.empty() && q.name != A.only) continue;
					Gen g = make_case(q, r.seed, i); std::string msg;
					if (!run_case(q, g, msg)) { printf("FAIL prop=%s case=%ld %s\n  %s\n", q.name.c_str(), i, msg.c_str(), g.desc.c_str()); return 1; }
					if (q.name == r.prop && i >= r.idx) { printf("HELD\n"); return 0; }
				}
			}
			printf("HELD\n"); return 0;
		}
		Gen g; g.mode = Gen::REPLAY; g.in = r.ch; std::string msg;
		if (!run_case(*p, g, msg)) { printf("FAIL prop=%s %s\n  %s\n", p->name.c_str(), msg.c_str(), g.desc.c_str()); return 1; }
		printf("HELD %s\n", g.desc.c_str()); return 0;
	}
	// generation
	uint64_t* cur = nullptr;
	if (!A.progress.empty()) { // [prop index, case index, count] readable by the driver if this process dies
		int fd = open(cs(A.progress), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, 64) == 0) { void* m = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) cur = (uint64_t*)m; }
		if (fd >= 0) close(fd);
	}
	FILE* f = A.out.empty() ? stdout : fopen(cs(A.out), "w"); if (!f) return 3;
	long evals = 0, compared = 0, nontriv = 0; std::vector<uint64_t> hashes; std::map<std::string, long> labels, per;
	std::vector<std::string> samples; bool failed = false; std::string fmsg, fdesc, fprop; long fidx = 0; std::vector<uint64_t> frec;
	for (size_t pi = 0; pi < props().size() && !failed; pi++) {
		Prop& p = props()[pi];
		if (!A.only.empty() && p.name != A.only) continue;
		long n = A.tier == "thorough" ? p.thorough : p.quick;
		n = n * A.scale_num / A.scale_den; if (n < 1) n = 1;
		int psamples = 0;
		for (long i = A.shard; i < n; i += A.shards) {
			if (cur) { cur[0] = pi; cur[1] = (uint64_t)i; cur[2]++; }
			Gen g = make_case(p, A.seed, i); std::string msg;
			bool ok = run_case(p, g, msg);
			evals++; compared += g.compared; per[p.name]++;
			for (auto& l : g.labels) labels[p.name + "/" + l.first] += l.second;
			if (!ok) { failed = true; fmsg = msg; fdesc = g.desc; fprop = p.name; fidx = i; frec = g.rec; break; }
			if (g.nontriv) {
				nontriv++; if (hashes.size() < 500000) hashes.push_back(hash(g.rec, hash({hash_str(p.name), salt})));
				if (psamples < 1) { samples.push_back(p.name + "#" + std::to_string(i) + ": " + g.desc); psamples++; }
			}
		}
	}
	if (cur) cur[3] = 1; // finished
	fprintf(f, "{\"evaluations\": %ld, \"compared\": %ld, \"nontrivial\": %ld, \"hashes\": [", evals, compared, nontriv);
	for (size_t i = 0; i < hashes.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)hashes[i]);
	fprintf(f, "], \"labels\": {");
	bool first = true; for (auto& l : labels) { fprintf(f, "%s%s: %ld", first ? "" : ", ", json(l.first).c_str(), l.second); first = false; }
	fprintf(f, "}, \"per_prop\": {"); first = true;
	for (auto& l : per) { fprintf(f, "%s%s: %ld", first ? "" : ", ", json(l.first).c_str(), l.second); first = false; }
	fprintf(f, "}, \"tight\": {"); first = true;
	for (auto& l : tightness()) { fprintf(f, "%s%s: %.6g", first ? "" : ", ", json(l.first).c_str(), l.second); first = false; }
	fprintf(f, "}, \"samples\": ["); first = true;
	for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ", ", json(s).c_str()); first = false; }
	fprintf(f, "]");
	if (failed) {
		std::string rp = A.out + ".replay";
		write_replay(rp, *find(fprop), "case", frec, A.seed, fidx, A.shard, A.shards, A.tier, fmsg, fdesc);
		fprintf(f, ", \"failure\": {\"prop\": %s, \"index\": %ld, \"message\": %s, \"case\": %s, \"replay\": %s}", json(fprop).c_str(), fidx, json(fmsg).c_str(), json(fdesc).c_str(), json(rp).c_str());
	}
	fprintf(f, "}\n"); if (f != stdout) fclose(f);
	return failed ? 1 : 0;
}

inline void* thread_main(void* r) { *(int*)r = real_main(); return nullptr; }

inline int main_(int argc, char** argv) {
	Args& A = args();
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--out") A.out = val(); else if (a == "--tier") A.tier = val();
		else if (a == "--seed") A.seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--shard") { if (sscanf(val().c_str(), "%d/%d", &A.shard, &A.shards) != 2) return 3; }
		else if (a == "--scale") { if (sscanf(val().c_str(), "%d/%d", &A.scale_num, &A.scale_den) != 2) return 3; }
		else if (a == "--replay") A.replay = val(); else if (a == "--shrink-to") A.shrink_to = val();
		else if (a == "--budget") A.budget = atoi(val().c_str()); else if (a == "--case-s") A.case_s = atoi(val().c_str());
		else if (a == "--only") A.only = val(); else if (a == "--progress") A.progress = val();
		else if (a == "--list") { for (auto& p : props()) printf("%s %d %d\n", p.name.c_str(), p.quick, p.thorough); return 0; }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
	}
	// the code under test keeps whole ciphertexts on the stack
	pthread_attr_t at; pthread_attr_init(&at);
	size_t mb = 3072; if (const char* e = getenv("PBT_STACK_MB")) mb = atoi(e);
	while (pthread_attr_setstacksize(&at, mb << 20) && mb > 64) mb /= 2;
	int rc = 3; pthread_t t;
	while (pthread_create(&t, &at, thread_main, &rc)) { mb /= 2; if (mb < 64) return 3; pthread_attr_setstacksize(&at, mb << 20); }
	pthread_join(t, nullptr);
	return rc;
}

} // namespace pbt

#ifdef PBT_FUZZ
#ifndef PBT_FUZZ_PROP
#define PBT_FUZZ_PROP 0
#endif
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	static const char* only = getenv("PBT_FUZZ_PROP_NAME");
	for (auto& p : pbt::props()) {
		if (only && p.name != only) continue;
		pbt::Gen g; g.mode = pbt::Gen::BYTES; g.data = data; g.left = size;
		std::string msg;
		if (!pbt::run_case(p, g, msg)) {
			const char* out = getenv("PBT_FUZZ_REPLAY");
			pbt::write_replay(out ? out : "fuzz.replay", p, "case", g.rec, 0, 0, 0, 1, "fuzz", msg, g.desc);
			fprintf(stderr, "FUZZ-FAIL %s\n", msg.c_str());
			_exit(77);
		}
		break;
	}
	return 0;
}
#define PBT_MAIN
#else
#define PBT_MAIN int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
