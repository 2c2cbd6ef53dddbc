// Choice-sequence property-based testing engine.
//
// A property is a function of a stream of bounded integers (Src). The stream
// is drawn from a seeded PRNG, from a mutated earlier stream (coverage
// feedback), from libFuzzer bytes or from a replay file; whatever the origin,
// the drawn values are recorded, so every failing case is one vector of
// integers, which the driver shrinks and stores. Zero is always the simplest
// choice.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

typedef uint64_t u64;

struct Fail { std::string msg; };

#define PBT_CAT2(a, b) a##b
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const std::string& msg);
#define REQUIRE(cond, msg) do { if (!(cond)) pbt::fail(std::string(#cond) + ": " + (msg)); } while (0)

struct Dict { std::vector<u64> nums; std::vector<std::string> strs; };
extern Dict dict;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
u64 hash_str(const std::string& s, u64 h = 1469598103934665603ULL);

struct Rng { u64 s; explicit Rng(u64 seed) : s(mix(seed)) {} u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); } };

class Src {
public:
	enum { MAXDRAWS = 1 << 16 };
	// rec: where drawn values are recorded (may be shared memory); nrec: their number
	Src(u64* rec, volatile u64* nrec) : rec_(rec), nrec_(nrec), rng_(0) { *nrec_ = 0; }
	void use_rng(u64 seed) { mode_ = RNG; rng_ = Rng(seed); }
	void use_seq(const std::vector<u64>* seq, bool then_rng = false, u64 seed = 0) { mode_ = SEQ; seq_ = seq; pos_ = 0; tail_rng_ = then_rng; rng_ = Rng(seed); }
	void use_bytes(const uint8_t* p, size_t n) { mode_ = BYTES; p_ = p; n_ = n; }

	u64 below(u64 n);                          // [0, n)
	int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // 0 => false
	bool coin() { return below(2) == 1; }
	bool more(unsigned avg) { return chance(avg, avg + 1); } // geometric with mean avg
	size_t size(size_t max);                   // boundary-biased size in [0, max]
	size_t small(size_t max) { size_t m = below(8) < 6 ? (max < 6 ? max : 6) : max; return (size_t)below(m + 1); }
	char ch(const std::string& alphabet) { return alphabet[below(alphabet.size())]; }
	std::string str(const std::string& alphabet, size_t lo, size_t hi) { size_t n = lo + small(hi - lo); std::string r; for (size_t i = 0; i < n; ++i) r += ch(alphabet); return r; }
	std::string bytes(size_t hi) { size_t n = small(hi); std::string r; for (size_t i = 0; i < n; ++i) r += (char)below(256); return r; }
	std::string dictstr() { return dict.strs.empty() ? std::string() : dict.strs[below(dict.strs.size())]; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template <class T> T pickv(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }
	// weighted choice: returns index
	size_t weighted(std::initializer_list<unsigned> w);
	bool exhausted() const { return mode_ == SEQ && !tail_rng_ && pos_ >= seq_->size(); }
private:
	enum { RNG, SEQ, BYTES } mode_ = RNG;
	u64* rec_; volatile u64* nrec_;
	Rng rng_;
	const std::vector<u64>* seq_ = nullptr; size_t pos_ = 0; bool tail_rng_ = false;
	const uint8_t* p_ = nullptr; size_t n_ = 0;
};

class Ctx {
public:
	bool verbose = false;
	void label(const std::string& l) { labels[l]++; }
	void nontrivial(const std::string& key) { nt = true; nthash = hash_str(key, nthash); }
	void note(const std::string& k, const std::string& v) { if (verbose) notes.push_back({k, v}); }
	// results of the current case
	bool nt = false; u64 nthash = 0;
	std::vector<std::pair<std::string, std::string>> notes;
	// accumulated over the worker's run
	std::map<std::string, u64> labels;
	void begin() { nt = false; nthash = 1469598103934665603ULL; notes.clear(); }
};

std::string printable(const std::string& s, size_t max = 4000);

// Controlled wall clock (time(), gettimeofday(), clock_gettime(CLOCK_REALTIME))
extern volatile long long fake_now, fake_step;  // < 0: the real clock
} // namespace pbt

// provided by each property
extern const char* const prop_id;
extern const char* const prop_rule;
void prop_setup();
void prop_run(pbt::Src& s, pbt::Ctx& c);
