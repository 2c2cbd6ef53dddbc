// The library under test, wrapped for the checks, and the generators.
#pragma once
#include "../engine/pbt.hpp"
#include "ref.hpp"
#include <functional>
#include <istream>
#include <memory>
#include <sstream>
#include <src/Canonicalization.hpp>
#include <src/Exception.hpp>
#include <src/MailParser.hpp>
#include <src/PublicKey.hpp>
#include <src/Signatory.hpp>
#include <src/Signature.hpp>
#include <src/TagList.hpp>
#include <src/Tokenizer.hpp>
#include <src/Validatory.hpp>
#include <streambuf>

typedef std::string str;
typedef std::vector<str> strs;
using pbt::Src; using pbt::Ctx; using pbt::fmt; using pbt::fail; using pbt::printable;

namespace lib {
// Outcome of a library call: the Authentication-Results class and where it arose.
struct Out { str cls; int stage = 0; str what; bool pass() const { return cls == "pass"; } };
// Runs f; PermanentError/TemporaryError become an Out, anything else propagates.
Out guard(int stage, const std::function<void()>& f);

// A seekable stream whose buffer holds `chunk` bytes at a time and whose
// first byte is at position `base` (there is nothing before it).
class ChunkStream : public std::istream {
public:
	ChunkStream(const str& d, size_t chunk, long long base = 0) : std::istream(nullptr), buf_(d, chunk, base) { rdbuf(&buf_); }
private:
	struct Buf : std::streambuf {
		str d; size_t chunk; off_type base;
		Buf(const str& s, size_t c, long long b) : d(s), chunk(c ? c : 1), base(b) { char* p = &d[0]; setg(p, p, p); }
		int_type underflow() override {
			char* p = &d[0]; size_t at = (size_t)(gptr() - p);
			if (at >= d.size()) return traits_type::eof();
			setg(p + at, p + at, p + std::min(d.size(), at + chunk));
			return traits_type::to_int_type(*gptr());
		}
		std::streamsize xsgetn(char* o, std::streamsize n) override {
			std::streamsize got = 0;
			while (got < n) { if (gptr() == egptr() && underflow() == traits_type::eof()) break; std::streamsize k = std::min<std::streamsize>(n - got, egptr() - gptr()); memcpy(o + got, gptr(), (size_t)k); got += k; setg(eback(), gptr() + k, egptr()); }
			return got;
		}
		pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
			char* p = &d[0]; off_type cur = gptr() - p;
			off_type t = dir == std::ios_base::beg ? off - base : dir == std::ios_base::cur ? cur + off : (off_type)d.size() + off;
			if (t < 0 || t > (off_type)d.size()) return pos_type(off_type(-1));
			setg(p + t, p + t, p + t); return pos_type(t + base);
		}
		pos_type seekpos(pos_type pos, std::ios_base::openmode m) override { return seekoff(off_type(pos), std::ios_base::beg, m); }
	};
	Buf buf_;
};
std::unique_ptr<std::istream> stream(const str& d, Src& s); // stringstream or ChunkStream
// The same, at times with the message further on in the stream, which is at its beginning; start: its position
std::unique_ptr<std::istream> stream_at(const str& d, Src& s, long long* start = nullptr);

struct Dns : ref::Dns { int calls = 0; strs names; void* data = nullptr; };
void set_dns(DKIM::Validatory& v, Dns& d);

// Verifies signature number k (in order of appearance) of an opened message.
Out verify_nth(DKIM::Validatory& v, size_t k, Dns& d, DKIM::Signature* osig = nullptr, DKIM::PublicKey* okey = nullptr);
Out verify(const str& raw, size_t k, const ref::Dns& dns, bool arc = false);
size_t signature_count(const str& raw, bool arc);
// index into ref::Msg headers of the k-th signature field
size_t nth_sig_index(const ref::Msg& m, size_t k, bool arc);
// Key records by query name, for messages with several signatures
struct Zone { std::map<str, str> rec; bool add(const str& sel, const str& dom, const str& r); ref::Dns get(const ref::Sig& s) const; };
// Every signature of a message: what the reference and the library say
struct Both { ref::Result r; Out l; };
std::vector<Both> judge(std::istream& in, const str& raw, bool arc, const Zone& z, long long now);
} // namespace lib

namespace gen {
str word(Src& s);                 // printable, no blanks
str wsp(Src& s, size_t lo = 1);   // blanks, mostly short
str fws(Src& s);                  // possibly empty folding white space, unfolded or folded
str domain(Src& s);               // valid domain name
str randcase(Src& s, str v);
str many(Src& s, const strs& pool, size_t max = 200); // a colon list, now and then a long one
void odd(Src& s, str& v, const strs& bad, bool list); // replaces a tag value by a listed odd one, a word of the sources, or a value one edit away
str hname(Src& s);                // header field name
str hvalue(Src& s);               // unstructured value incl. leading blank, CRLF+WSP folds
str body(Src& s);
struct Message {
	strs headers;                  // CRLF folds inside, no final line end
	bool sep = true; str body; int eol = 0;  // of the header block: 0 CRLF, 1 LF, 2 mixed
	str raw() const;
};
Message message(Src& s);          // has at least one From field; never starts with a blank
bool has_name(const str& hdr, const str& lname);
str name_of(const str& hdr);      // lower case

struct SigReq { size_t key; str dom, sel; };
struct Cfg {
	std::vector<SigReq> sigs; bool hrel = false, brel = false, sha256 = true;
	int hmode = 0;                 // 0 default list, 1 explicit list, 2 everything
	strs headers, add, del, over;
	bool limited = false; unsigned long limit = 0;
	unsigned long arc = 0; bool ts = false; long long tsv = -1; bool ex = false; long long exv = 0; bool exabs = true; str identity;
	bool has_identity = false, late = false; // late: the primary signature is set up after the additional ones
	void apply(DKIM::SignatoryOptions& o) const;
	str text() const;
	std::vector<str> selected() const; // lower-case names to sign; empty: all (hmode 2)
};
// Options fit for message m. multi: several signatures allowed. now: the clock the signature is made and verified at
Cfg cfg(Src& s, const Message& m, bool multi, long long now);
// Signs m with the library under a clock of `now`; full = signature on top of the message
struct Signed { lib::Out out; str sig, msg, full; bool arc = false; };
Signed sign(Src& s, const Message& m, const Cfg& c, long long now);
bool refusable(const Message& m, const Cfg& c); // the signer may report an error (bare CR under relaxed)
size_t key(Src& s, bool ed_ok = true, bool big_ok = true);
void set_key(DKIM::SignatoryOptions& o, const ref::Pair& k);
void set_key(DKIM::AdditionalSignaturesOptions& o, const ref::Pair& k);

// Independent signer with free formatting
struct Fmt { bool simple = false; };
struct Made { str header; str raw; ref::Dns dns; ref::Sig sig; };
struct ThirdParty {
	bool arc = false; size_t key = 0; bool sha256 = true, hrel = false, brel = false;
	bool limited = false; unsigned long limit = 0; strs h; str d, sel; str i; bool has_i = false; unsigned long arc_i = 1;
	std::vector<std::pair<str, str>> extra; // further tags (t, x, q, z, unknown)
	bool omit_c = false;
	int b_mod = 0; // defect in the signature itself, see ref::sign_wrong
	int bh_mod = 0; // defect in the body hash: 1 further octets behind, 2 before, 3 shorter at the end, 4 at the front, 5 one bit, 6 hash with the other algorithm, 7 of the other canonicalization, 8 of the whole body
	std::vector<std::pair<str, str>> override_; strs drop, dup; // defects, signed as if they were right
};
ThirdParty third_party(Src& s, const Message& m, long long now);
// A signature header (no line end at its end) for m, signed by the reference; formatting drawn from s
str ref_sign(Src& s, const Message& m, const ThirdParty& t);
// A random neutral re-formatting of a tag list given as (name, value) pairs
str format_tags(Src& s, const std::vector<std::pair<str, str>>& tags, const strs& foldable);
str key_record(Src& s, const ref::Pair& k);
Message with_signatures(const Message& m, const str& sig); // the fields of sig on top of m
// Random modifications. tamper: aims at covered content; neutral: aims at what canonicalization allows.
// What a modification really does to a signature is decided by the reference afterwards.
str tamper(Src& s, Message& m, bool arc);
str neutral(Src& s, Message& m, bool arc, bool hrel, bool brel);
} // namespace gen
