// Driver: deterministic multi-process search, shrinking, replay.
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace pbt;

// ---- coverage of the library under test (inline 8-bit counters) -------------
// (called before the static constructors, so no container here)
struct Region { uint8_t *first, *second; };
static struct Regions { Region r[256]; size_t n; Region* begin() { return r; } Region* end() { return r + n; } } cov_regions;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=1024:hard_rss_limit_mb=2500:quarantine_size_mb=32:malloc_context_size=6:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" void __sanitizer_cov_8bit_counters_init(char* start, char* stop)
{
	for (auto& r : cov_regions) if (r.first == (uint8_t*)start) return;
	if (start != stop && cov_regions.n < 256) cov_regions.r[cov_regions.n++] = {(uint8_t*)start, (uint8_t*)stop};
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
static std::vector<uint8_t> cov_seen;
static size_t cov_features = 0;
static inline uint8_t bucket(uint8_t c)
{
	return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}
static void cov_reset() { for (auto& r : cov_regions) memset(r.first, 0, (size_t)(r.second - r.first)); }
static bool cov_collect()
{
	bool isnew = false; size_t off = 0;
	for (auto& r : cov_regions)
	{
		size_t n = (size_t)(r.second - r.first);
		if (cov_seen.size() < off + n) cov_seen.resize(off + n, 0);
		for (size_t i = 0; i < n; ++i)
			if (r.first[i]) { uint8_t b = bucket(r.first[i]); if (!(cov_seen[off + i] & b)) { cov_seen[off + i] |= b; isnew = true; ++cov_features; } }
		off += n;
	}
	return isnew;
}

// ---- shared state ------------------------------------------------------------
struct Shm {
	volatile u64 nrec; u64 rec[Src::MAXDRAWS];
	volatile u64 idx; volatile int state; // 0 running, 1 done, 2 failed, 3 timeout
	char msg[8192];
	u64 evals, features, corpus, cov_total;
};
static Shm* new_shm()
{
	void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
	return (Shm*)p;
}
static Shm* cur = nullptr;
static unsigned cpu_limit = 20;
static void on_prof(int) { if (cur) { cur->state = 3; strcpy(cur->msg, "does not terminate: CPU limit for one case exceeded"); } _exit(78); }
static void arm(unsigned sec)
{
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, nullptr);
}
static double mono() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9; }

// Runs one case; on a failed property stores the message and exits 77.
static void run_one(Src& s, Ctx& c, Shm* shm)
{
	c.begin();
	fake_now = -1;
	errno = 0;
	try { prop_run(s, c); }
	catch (Fail& f) { shm->state = 2; strncpy(shm->msg, f.msg.c_str(), sizeof shm->msg - 1); goto bad; }
	catch (std::exception& e) { shm->state = 2; snprintf(shm->msg, sizeof shm->msg, "unexpected exception: %s", e.what()); goto bad; }
	catch (...) { shm->state = 2; strcpy(shm->msg, "unexpected exception of unknown type"); goto bad; }
	return;
bad:
	if (c.verbose) for (auto& n : c.notes) fprintf(stderr, "  %s: %s\n", n.first.c_str(), n.second.c_str());
	fflush(nullptr);
	_exit(77);
}

static std::string json_str(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char ch : s)
		if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
		else if (ch < 0x20 || ch >= 0x7f) r += fmt("\\u%04x", ch);
		else r += (char)ch;
	return r + "\"";
}

struct Opt { u64 seed = 1; u64 cases = 1000; unsigned workers = 8; unsigned mutate = 40; std::string out; std::string replaydir; std::string dictfile; bool any = false; double maxwall = 0; };
static Opt opt;

static void load_dict(const std::string& path)
{
	std::ifstream f(path); std::string line;
	while (std::getline(f, line))
	{
		if (line.compare(0, 2, "N ") == 0) dict.nums.push_back(strtoull(line.c_str() + 2, nullptr, 10));
		else if (line.compare(0, 2, "S ") == 0)
		{
			std::string s; for (size_t i = 2; i + 1 < line.size(); i += 2) s += (char)strtoul(line.substr(i, 2).c_str(), nullptr, 16);
			dict.strs.push_back(s);
		}
	}
}

static std::vector<u64> mutate(const std::vector<std::vector<u64>>& corpus, Rng& r)
{
	std::vector<u64> v = corpus[r.next() % corpus.size()];
	unsigned n = 1 + (unsigned)(r.next() % 4);
	for (unsigned k = 0; k < n; ++k)
	{
		size_t L = v.size();
		switch (r.next() % 7)
		{
			case 0: case 1: if (L) v[r.next() % L] = r.next() >> (r.next() % 64); break;
			case 2: if (L) { size_t i = r.next() % L; v[i] += (r.next() & 1) ? 1 : (u64)-1; } break;
			case 3: if (L) { size_t i = r.next() % L, m = 1 + r.next() % 12; v.erase(v.begin() + (long)i, v.begin() + (long)std::min(L, i + m)); } break;
			case 4: if (L && L < 20000) { size_t i = r.next() % L, m = std::min<size_t>(L - i, 1 + r.next() % 24); std::vector<u64> sp(v.begin() + (long)i, v.begin() + (long)(i + m)); size_t at = r.next() % (L + 1); v.insert(v.begin() + (long)at, sp.begin(), sp.end()); } break;
			case 5: if (L) { const auto& o = corpus[r.next() % corpus.size()]; if (!o.empty()) { size_t i = r.next() % o.size(), m = std::min<size_t>(o.size() - i, 1 + r.next() % 40); size_t at = r.next() % L; for (size_t q = 0; q < m && at + q < v.size(); ++q) v[at + q] = o[i + q]; } } break;
			case 6: if (L) { size_t i = r.next() % L; v.resize(i); } break; // keep a prefix, regrow at random
		}
	}
	return v;
}

// One worker's whole deterministic run, up to and including case index `upto`.
static void worker(unsigned w, Shm* shm, u64 upto, bool report)
{
	cur = shm; shm->state = 0;
	signal(SIGPROF, on_prof);
	Ctx c; std::vector<std::vector<u64>> corpus; std::unordered_set<u64> hashes; std::vector<std::string> samples;
	u64 base = mix(opt.seed * 1000003ULL + hash_str(prop_id));
	u64 evals = 0, nsample = 0; double t0 = mono();
	for (u64 i = w; i < opt.cases && i <= upto; i += opt.workers)
	{
		if (report && opt.maxwall > 0 && mono() - t0 > opt.maxwall) break;
		shm->idx = i;
		Rng r(mix(base ^ mix(i)));
		Src s(shm->rec, &shm->nrec);
		std::vector<u64> m; bool mutated = false;
		if (!corpus.empty() && r.next() % 100 < opt.mutate) { m = mutate(corpus, r); s.use_seq(&m, true, r.next()); mutated = true; }
		else s.use_rng(r.next());
		c.verbose = report && nsample < 3 && w < 2;
		cov_reset();
		arm(cpu_limit);
		run_one(s, c, shm);
		++evals;
		if (cov_collect() && shm->nrec < 20000) { if (corpus.size() < 4000) corpus.emplace_back(shm->rec, shm->rec + shm->nrec); else corpus[r.next() % corpus.size()].assign(shm->rec, shm->rec + shm->nrec); }
		if (mutated) c.labels["engine:mutated"]++; else c.labels["engine:random"]++;
		if (c.nt && report)
		{
			if (hashes.size() < 3000000) hashes.insert(c.nthash);
			c.labels["engine:nontrivial"]++;
			if (c.verbose)
			{
				std::string j = "{";
				for (auto& n : c.notes) { if (j.size() > 1) j += ", "; j += json_str(n.first) + ": " + json_str(n.second.substr(0, 700)); }
				samples.push_back(j + "}"); ++nsample;
			}
		}
	}
	arm(0);
	shm->evals = evals; shm->features = cov_features; shm->corpus = corpus.size(); shm->cov_total = cov_seen.size();
	if (report)
	{
		FILE* f = fopen((opt.out + fmt("/w%u.hash", w)).c_str(), "wb");
		for (u64 h : hashes) fwrite(&h, sizeof h, 1, f);
		fclose(f);
		f = fopen((opt.out + fmt("/w%u.txt", w)).c_str(), "wb");
		for (auto& l : c.labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
		for (auto& sm : samples) fprintf(f, "S %s\n", sm.c_str());
		fclose(f);
	}
	shm->state = 1;
}

static void quiet_child(const std::string& errfile)
{
	int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

// Exit class of running one sequence in a child: 0 passes, 77 property failed, 78 timeout, 79 crash
static int try_seq(const std::vector<u64>& seq, std::vector<u64>* used, std::string* msg, const std::string& errfile, bool verbose = false)
{
	static Shm* shm = new_shm();
	shm->state = 0; shm->msg[0] = 0; shm->nrec = 0;
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0)
	{
		if (!verbose) quiet_child(errfile);
		cur = shm; signal(SIGPROF, on_prof);
		Src s(shm->rec, &shm->nrec); s.use_seq(&seq);
		Ctx c; c.verbose = verbose || !errfile.empty();
		arm(cpu_limit);
		run_one(s, c, shm);
		if (verbose) for (auto& n : c.notes) fprintf(stderr, "  %s: %s\n", n.first.c_str(), n.second.c_str());
		_exit(0);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (used) used->assign(shm->rec, shm->rec + shm->nrec);
	if (msg) *msg = shm->msg;
	if (WIFEXITED(st)) { int rc = WEXITSTATUS(st); if (rc == 0 || rc == 77 || rc == 78) return rc; }
	if (msg) *msg = WIFSIGNALED(st) ? fmt("crash: signal %d", WTERMSIG(st)) : fmt("crash: sanitizer report or abort (exit status %d)", WEXITSTATUS(st));
	return 79;
}

static int try_run(unsigned w, u64 upto, std::string* msg, const std::string& errfile)
{
	static Shm* shm = new_shm();
	shm->state = 0; shm->msg[0] = 0;
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) { quiet_child(errfile); worker(w, shm, upto, false); _exit(0); }
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	*msg = shm->msg;
	if (WIFEXITED(st)) { int rc = WEXITSTATUS(st); if (rc == 0 || rc == 77 || rc == 78) return rc; }
	*msg = WIFSIGNALED(st) ? fmt("crash: signal %d", WTERMSIG(st)) : fmt("crash: sanitizer report or abort (exit status %d)", WEXITSTATUS(st));
	return 79;
}

static bool simpler(const std::vector<u64>& a, const std::vector<u64>& b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

static std::vector<u64> shrink(std::vector<u64> best, int cls)
{
	double t0 = mono(); unsigned tries = 0;
	auto budget = [&] { return mono() - t0 < 60 && tries < 4000; };
	auto attempt = [&](const std::vector<u64>& cand) {
		if (!budget()) return false;
		++tries;
		std::vector<u64> used;
		if (try_seq(cand, &used, nullptr, "") != cls) return false;
		while (!used.empty() && used.back() == 0) used.pop_back();
		if (!simpler(used, best)) return false;
		best = used; return true;
	};
	if (cls == 78) return best;
	{ std::vector<u64> b = best; attempt(b); }
	bool progress = true;
	while (progress && budget())
	{
		progress = false;
		for (size_t chunk = std::max<size_t>(1, best.size() / 2); ; chunk /= 2)
		{
			for (size_t i = 0; i + chunk <= best.size() && budget();)
			{
				std::vector<u64> c = best; c.erase(c.begin() + (long)i, c.begin() + (long)(i + chunk));
				if (attempt(c)) progress = true; else i += chunk;
			}
			for (size_t i = 0; i < best.size() && budget(); i += chunk)
			{
				std::vector<u64> c = best; bool ch = false;
				for (size_t k = i; k < std::min(best.size(), i + chunk); ++k) { ch |= c[k] != 0; c[k] = 0; }
				if (ch && attempt(c)) progress = true;
			}
			if (chunk <= 1) break;
		}
		for (size_t i = 0; i < best.size() && budget(); ++i)
		{
			u64 lo = 0, hi = best[i];
			while (lo < hi && budget() && i < best.size())
			{
				u64 mid = lo + (hi - lo) / 2;
				std::vector<u64> c = best; c[i] = mid;
				if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = std::min(mid, best[i]); } else lo = mid + 1;
			}
		}
	}
	return best;
}

static std::string slurp_tail(const std::string& f, size_t n)
{
	std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
	return s.size() > n ? s.substr(0, n) : s;
}

static std::string write_replay(const std::string& kind, const std::vector<u64>& seq, unsigned w, u64 upto, const std::string& msg, const std::string& detail)
{
	mkdir(opt.replaydir.c_str(), 0755);
	u64 h = 7; for (u64 v : seq) h = mix(h ^ v); h = mix(h ^ w ^ (upto << 8));
	std::string path = opt.replaydir + fmt("/%s-%08llx.replay", prop_id, (unsigned long long)(h & 0xffffffff));
	FILE* f = fopen(path.c_str(), "w");
	if (!f) return path;
	fprintf(f, "property %s\nkind %s\n", prop_id, kind.c_str());
	if (kind == "run") fprintf(f, "run %llu %llu %u %u %u %llu\n", (unsigned long long)opt.seed, (unsigned long long)opt.cases, opt.workers, opt.mutate, w, (unsigned long long)upto);
	fprintf(f, "choices");
	for (u64 v : seq) fprintf(f, " %llu", (unsigned long long)v);
	fprintf(f, "\n");
	for (u64 n : dict.nums) fprintf(f, "N %llu\n", (unsigned long long)n);
	for (auto& s : dict.strs) { fprintf(f, "S "); for (unsigned char ch : s) fprintf(f, "%02x", ch); fprintf(f, "\n"); }
	fprintf(f, "# %s\n", printable(msg).c_str());
	std::istringstream ds(detail); std::string line;
	while (std::getline(ds, line)) fprintf(f, "# %s\n", line.c_str());
	fclose(f);
	return path;
}

static int do_replay(const std::string& path, bool bytes)
{
	std::vector<u64> seq; std::string kind = "choices"; unsigned w = 0; u64 upto = 0;
	if (!bytes)
	{
		dict = Dict(); load_dict(path);
		std::ifstream f(path); std::string line;
		while (std::getline(f, line))
		{
			if (line.compare(0, 5, "kind ") == 0) kind = line.substr(5);
			if (line.compare(0, 4, "run ") == 0) { unsigned long long a, b, e; unsigned cc, d, ww; sscanf(line.c_str() + 4, "%llu %llu %u %u %u %llu", &a, &b, &cc, &d, &ww, &e); opt.seed = a; opt.cases = b; opt.workers = cc; opt.mutate = d; w = ww; upto = e; }
			if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); u64 v; while (is >> v) seq.push_back(v); }
		}
	}
	else
	{
		// record the draws a libFuzzer input makes
		Shm* shm = new_shm(); std::ifstream in(path, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string d = ss.str();
		fflush(nullptr);
		pid_t p = fork();
		if (p == 0) { quiet_child(""); Src s(shm->rec, &shm->nrec); s.use_bytes((const uint8_t*)d.data(), d.size()); Ctx c; cur = shm; run_one(s, c, shm); _exit(0); }
		int st; waitpid(p, &st, 0);
		seq.assign(shm->rec, shm->rec + shm->nrec);
	}
	std::string msg;
	if (kind == "run")
	{
		int rc = try_run(w, upto, &msg, "");
		printf("replay (whole run): %s %s\n", rc ? "FAILS" : "passes", msg.c_str());
		return rc ? 1 : 0;
	}
	if (bytes)
	{
		int rc = try_seq(seq, nullptr, &msg, "");
		if (!rc) { printf("libFuzzer input passes\n"); return 0; }
		for (int k = 0; k < 2; ++k) if (try_seq(seq, nullptr, &msg, "") != rc) { printf("libFuzzer input is not reproducible\n"); return 0; }
		seq = shrink(seq, rc);
		std::string err = opt.replaydir + "/err.txt"; mkdir(opt.replaydir.c_str(), 0755);
		try_seq(seq, nullptr, &msg, err);
		std::string rp = write_replay("choices", seq, 0, 0, msg, slurp_tail(err, 12000)); unlink(err.c_str());
		printf("%s\n", msg.c_str());
		printf("VIOLATION property=%s replay=%s\n", prop_id, rp.c_str());
		return 1;
	}
	int rc = try_seq(seq, nullptr, &msg, "", true);
	printf("replay: %s %s\n", rc ? "FAILS" : "passes", msg.c_str());
	return rc ? 1 : 0;
}

int main(int argc, char** argv)
{
	std::string replay; bool bytes = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--cases") opt.cases = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--workers") opt.workers = (unsigned)atoi(val().c_str());
		else if (a == "--mutate") opt.mutate = (unsigned)atoi(val().c_str());
		else if (a == "--out") opt.out = val();
		else if (a == "--replaydir") opt.replaydir = val();
		else if (a == "--dict") opt.dictfile = val();
		else if (a == "--maxwall") opt.maxwall = atof(val().c_str());
		else if (a == "--any") opt.any = true;
		else if (a == "--cpu") cpu_limit = (unsigned)atoi(val().c_str());
		else if (a == "--replay") replay = val();
		else if (a == "--bytes") { replay = val(); bytes = true; }
	}
	if (!opt.dictfile.empty()) load_dict(opt.dictfile);
	prop_setup();
	if (!replay.empty()) return do_replay(replay, bytes);

	double t0 = mono();
	std::vector<Shm*> shms; std::vector<pid_t> pids;
	for (unsigned w = 0; w < opt.workers; ++w) shms.push_back(new_shm());
	fflush(nullptr);
	for (unsigned w = 0; w < opt.workers; ++w)
	{
		pid_t p = fork();
		if (p == 0) { quiet_child(opt.out + fmt("/w%u.err", w)); worker(w, shms[w], ~0ULL, true); _exit(0); }
		pids.push_back(p);
	}
	// wait; on the first failure stop the others
	std::vector<int> st(opt.workers, 0); unsigned left = opt.workers; bool bad = false;
	std::vector<bool> killed(opt.workers, false);
	while (left)
	{
		int s; pid_t p = wait(&s);
		if (p < 0) { if (errno == EINTR) continue; break; }
		for (unsigned w = 0; w < opt.workers; ++w)
			if (pids[w] == p)
			{
				pids[w] = 0; --left; st[w] = s;
				if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0) && !killed[w] && !bad)
				{
					bad = true;
					for (unsigned k = 0; k < opt.workers; ++k) if (pids[k]) { killed[k] = true; kill(pids[k], SIGKILL); }
				}
			}
	}
	int rc = 0; std::string viol, vmsg; u64 evals = 0; bool flaky = false;
	for (unsigned w = 0; w < opt.workers; ++w)
	{
		if (killed[w]) continue;
		if (WIFEXITED(st[w]) && WEXITSTATUS(st[w]) == 0) { evals += shms[w]->evals; continue; }
		if (!viol.empty()) continue;
		std::vector<u64> seq(shms[w]->rec, shms[w]->rec + shms[w]->nrec);
		u64 idx = shms[w]->idx; std::string m0 = shms[w]->msg;
		fprintf(stderr, "worker %u: case %llu failed: %s\n%s\n", w, (unsigned long long)idx, m0.c_str(), slurp_tail(opt.out + fmt("/w%u.err", w), 3000).c_str());
		std::string msg; int cls = try_seq(seq, nullptr, &msg, ""), n = cls != 0;
		unsigned reps = opt.any ? 12 : 3;
		for (unsigned k = 1; k < reps; ++k) { int c2 = try_seq(seq, nullptr, &msg, ""); if (c2 && !cls) cls = c2; n += c2 != 0; }
		if (opt.any ? n > 0 : n == (int)reps)
		{
			if (!opt.any) seq = shrink(seq, cls);
			std::string err = opt.out + "/final.err"; std::string fm;
			if (try_seq(seq, nullptr, &fm, err)) msg = fm;
			viol = write_replay("choices", seq, w, idx, msg, slurp_tail(err, 12000)); vmsg = msg;
		}
		else
		{
			// depends on what ran before it: replay the worker's whole (deterministic) run
			std::string err = opt.out + "/final.err"; int all = 0;
			for (int k = 0; k < 2; ++k) all += try_run(w, idx, &msg, err) != 0;
			if (all == 2) { viol = write_replay("run", seq, w, idx, msg, slurp_tail(err, 12000)); vmsg = "(only after the preceding cases of the run) " + msg; }
			else { flaky = true; fprintf(stderr, "failure did not reproduce; not reported\n"); }
		}
	}
	if (!viol.empty()) rc = 1; else if (flaky) rc = 3;

	// merge
	std::map<std::string, u64> labels; std::unordered_set<u64> hashes; std::vector<std::string> samples; u64 feat = 0, corp = 0, cov = 0;
	for (unsigned w = 0; w < opt.workers; ++w)
	{
		std::ifstream f(opt.out + fmt("/w%u.txt", w)); std::string line;
		while (std::getline(f, line))
		{
			if (line.compare(0, 2, "L ") == 0) { size_t sp = line.find(' ', 2); labels[line.substr(sp + 1)] += strtoull(line.c_str() + 2, nullptr, 10); }
			else if (line.compare(0, 2, "S ") == 0 && samples.size() < 4) samples.push_back(line.substr(2));
		}
		std::ifstream h(opt.out + fmt("/w%u.hash", w), std::ios::binary); u64 v;
		while (h.read((char*)&v, sizeof v)) hashes.insert(v);
		feat = std::max<u64>(feat, shms[w]->features); corp += shms[w]->corpus; cov = std::max<u64>(cov, shms[w]->cov_total);
	}
	std::ofstream o(opt.out + "/result.json");
	o << "{\"property\": " << json_str(prop_id) << ", \"rc\": " << rc << ", \"evaluations\": " << evals << ", \"distinct_nontrivial\": " << hashes.size()
	  << ", \"rule\": " << json_str(prop_rule) << ", \"wall\": " << fmt("%.2f", mono() - t0)
	  << ", \"coverage_features\": " << feat << ", \"coverage_counters\": " << cov << ", \"corpus\": " << corp
	  << ", \"replay\": " << json_str(viol) << ", \"message\": " << json_str(vmsg) << ", \"labels\": {";
	bool first = true; for (auto& l : labels) { o << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
	o << "}, \"samples\": ["; first = true; for (auto& s : samples) { o << (first ? "" : ", ") << s; first = false; }
	o << "]}\n"; o.close();
	if (!viol.empty()) { printf("%s\n", printable(vmsg).c_str()); printf("VIOLATION property=%s replay=%s\n", prop_id, viol.c_str()); }
	return rc;
}
