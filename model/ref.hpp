// Independent reference model of the parts of RFC 6376 (DKIM), RFC 8463
// (Ed25519), RFC 8617 (ARC message signatures), RFC 2045/2047/5322 that the
// library implements. Written from the RFCs on plain strings; it shares no code
// with the library, and Ed25519 goes through OpenSSL instead of libsodium.
#pragma once
#include <map>
#include <string>
#include <vector>

namespace ref {
typedef std::string str;
typedef std::vector<str> strs;

// What the specification says about an input: accept, reject, or nothing
// (implementations may differ; the checks then demand nothing).
enum Verdict { ACCEPT, REJECT, UNSPEC };

str lower(str s);
str strip_wsp(const str& s);               // SP, TAB, CR, LF at both ends
str b64enc(const str& d);
// ACCEPT: canonical base64 (white space allowed), UNSPEC: anything else
Verdict b64dec(const str& s, str& out);
Verdict qpdec(const str& s, str& out);     // dkim-quoted-printable
str digest(const str& d, bool sha256);

struct Hdr { str raw; str name; bool colon; size_t value; }; // lines joined by CRLF; name: as written, trimmed
struct Msg { std::vector<Hdr> headers; bool separator = false; size_t body_at = 0; str body; };
Msg split(const str& raw);

str canon_body(const str& body, bool relaxed);
// UNSPEC: the header holds a bare CR or LF
Verdict canon_header(const str& raw, bool relaxed, str& out);

struct Tag { str name, value; size_t begin, end; }; // [begin,end): everything between '=' and ';' in the input
Verdict taglist(const str& in, std::vector<Tag>& out);
const Tag* find(const std::vector<Tag>& t, const str& name);
Verdict colonlist(const str& in, strs& out);

struct Sig {
	Verdict v = UNSPEC; str why;
	bool arc = false; unsigned long arc_i = 0;
	bool sha256 = true, ed = false, hrelaxed = false, brelaxed = false, limited = false;
	unsigned long limit = 0;
	str b, bh, d, s, ilocal, idomain; strs h;
	bool b_known = false, bh_known = false;
	size_t bbegin = 0, bend = 0; // of the b= value, in the raw header
};
Sig parse_sig(const Hdr& h, long long now);

struct Key {
	Verdict v = UNSPEC; str why;
	bool ed = false, any_hash = true, sha1 = false, sha256 = false, strict = false, testing = false;
	str data; // SPKI DER or 32 bytes
	strs flags;
};
Key parse_key(const str& rec);

// The header part that is hashed for signature header number `self` of the message.
Verdict signed_data(const Msg& m, size_t self, const Sig& sig, str& out);

// keys
struct Pair { str name; bool ed; str pem; str der_b64; str spki; str seed; str sk64; str pub; int bits; };
const std::vector<Pair>& keys();   // fixed key pool
str key_p(const Pair& k);          // value of p=
str key_record(const Pair& k);     // minimal valid record
str sign(const Pair& k, bool sha256, const str& data);                    // data: what is hashed
// A wrong signature of the right data. 1: octets behind, 2: in front, 3: shorter at the end, 4: at the front, 5: one bit, 6: other padding or form,
// 7: another hash, 8: all zero, 9: plus the order of the group or the modulus, 10: of the hash's hash
str sign_wrong(const Pair& k, bool sha256, const str& data, int mod, unsigned n);
bool verify_raw(bool ed, const str& pub, bool sha256, const str& data, const str& sig);

// Whole verification. DNS answers: state 0 = record in `rec`, 1 = no such record, 2 = failure
struct Dns { int state = 0; str rec; };
enum Stage { ST_PASS, ST_POLICY, ST_BODYHASH, ST_DNSTEMP, ST_NOKEY, ST_KEY, ST_RESTRICT, ST_CRYPTO, ST_UNSPEC };
const char* stage_name(Stage s);
const char* ar_class(Stage s); // "pass", "permerror", "fail", "temperror"
struct Result { Stage st = ST_UNSPEC; str why; Sig sig; Key key; };
Result verify(const Msg& m, size_t self, const Dns& dns, long long now);
str limited_body(const Msg& m, const Sig& s, bool& exceeds);
} // namespace ref
