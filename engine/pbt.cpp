#include "pbt.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>

namespace pbt {
Dict dict;

std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}
void fail(const std::string& msg) { throw Fail{msg}; }

u64 hash_str(const std::string& s, u64 h)
{
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	return mix(h);
}

u64 Src::below(u64 n)
{
	if (n == 0) n = 1;
	u64 v = 0;
	if (*nrec_ < MAXDRAWS)
		switch (mode_)
		{
			case RNG: v = rng_.next() % n; break;
			case SEQ:
				if (pos_ < seq_->size()) v = (*seq_)[pos_++] % n;
				else if (tail_rng_) v = rng_.next() % n;
				break;
			case BYTES:
			{
				unsigned need = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
				for (unsigned i = 0; i < need; ++i) { v <<= 8; if (n_) { v |= *p_++; --n_; } }
				v %= n;
			}
			break;
		}
	if (*nrec_ < MAXDRAWS) { rec_[*nrec_] = v; *nrec_ = *nrec_ + 1; }
	return v;
}

size_t Src::weighted(std::initializer_list<unsigned> w)
{
	u64 tot = 0; for (unsigned x : w) tot += x;
	u64 r = below(tot); size_t i = 0;
	for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
	return 0;
}

// Sizes: mostly small, sometimes medium, sometimes right at a number that
// occurs in the source code (buffer sizes, line limits), give or take three.
size_t Src::size(size_t max)
{
	switch (weighted({10, 4, 3, 3}))
	{
		case 0: return std::min<size_t>(max, below(9));
		case 1: return std::min<size_t>(max, below(81));
		case 2: return (size_t)below((max > 4000 ? 4000 : max) + 1);
		default:
		{
			static const u64 base[] = {76, 80, 128, 255, 256, 512, 998, 1000, 1024, 2048, 4096, 8096, 8192, 16192, 24288, 32768, 65535, 65536};
			u64 nb = sizeof base / sizeof *base;
			u64 k = below(nb + dict.nums.size());
			long long v = (long long)(k < nb ? base[k] : dict.nums[k - nb]);
			v += (long long)below(7) - 3;
			if (v < 0) v = 0;
			if ((u64)v > max) v = (long long)((u64)v % (max + 1));
			return (size_t)v;
		}
	}
}

std::string printable(const std::string& s, size_t max)
{
	std::string r;
	for (size_t i = 0; i < s.size(); ++i)
	{
		if (r.size() > max) { r += fmt("...(%zu bytes)", s.size()); break; }
		unsigned char c = (unsigned char)s[i];
		// run-length for long runs
		size_t j = i; while (j < s.size() && s[j] == s[i]) ++j;
		size_t run = j - i;
		std::string one;
		if (c == '\r') one = "\\r"; else if (c == '\n') one = "\\n"; else if (c == '\t') one = "\\t";
		else if (c == '\\') one = "\\\\";
		else if (c < 0x20 || c >= 0x7f) one = fmt("\\x%02x", c);
		else one = std::string(1, (char)c);
		if (run > 24) { r += "{" + one + fmt("}*%zu", run); i = j - 1; }
		else r += one;
	}
	return r;
}
} // namespace pbt
