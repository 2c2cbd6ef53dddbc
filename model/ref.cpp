#include "ref.hpp"
#include "keys.inc"
#include <algorithm>
#include <cstring>
#include <memory>
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <stdexcept>

namespace ref {

str lower(str s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
str strip_wsp(const str& s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
str b64enc(const str& d)
{
	str o;
	for (size_t i = 0; i < d.size(); i += 3)
	{
		unsigned v = 0; size_t n = std::min<size_t>(3, d.size() - i);
		for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)d[i + k] : 0);
		o += B64[v >> 18]; o += B64[v >> 12 & 63];
		o += n > 1 ? B64[v >> 6 & 63] : '='; o += n > 2 ? B64[v & 63] : '=';
	}
	return o;
}
Verdict b64dec(const str& in, str& out)
{
	str s; out.clear();
	for (char c : in) if (!ws(c)) s += c;
	if (s.size() % 4) return UNSPEC;
	for (size_t i = 0; i < s.size(); i += 4)
	{
		unsigned v = 0; int pad = 0;
		for (int k = 0; k < 4; ++k)
		{
			const char* p = s[i + k] ? strchr(B64, s[i + k]) : nullptr;
			if (s[i + k] == '=' && i + 4 == s.size() && k >= 2) { ++pad; v <<= 6; }
			else if (p && !pad) v = v << 6 | (unsigned)(p - B64);
			else return UNSPEC;
		}
		if ((pad == 1 && (v & 0xff)) || (pad == 2 && (v & 0xffff))) return UNSPEC;
		out += (char)(v >> 16); if (pad < 2) out += (char)(v >> 8 & 255); if (pad < 1) out += (char)(v & 255);
	}
	return ACCEPT;
}
Verdict qpdec(const str& s, str& out)
{
	out.clear(); Verdict v = ACCEPT;
	auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
	for (size_t i = 0; i < s.size(); ++i)
	{
		unsigned char c = (unsigned char)s[i];
		if (c == '=')
		{
			int a = i + 1 < s.size() ? hex(s[i + 1]) : -1, b = i + 2 < s.size() ? hex(s[i + 2]) : -1;
			if (a < 0 || b < 0)
			{
				return REJECT;
			}
			out += (char)(a * 16 + b); i += 2;
		}
		else if (c == ' ' || c == '\t') {}
		else if (c == '\r')
		{
			if (i + 2 < s.size() && s[i + 1] == '\n' && (s[i + 2] == ' ' || s[i + 2] == '\t')) i += 1;
			else return REJECT;
		}
		else if (c > 0x20 && c < 0x7f && c != ';') out += (char)c;
		else return REJECT;
	}
	return v;
}
str digest(const str& d, bool sha256)
{
	unsigned char md[64]; unsigned n = 0;
	EVP_Digest(d.data(), d.size(), md, &n, sha256 ? EVP_sha256() : EVP_sha1(), nullptr);
	return str((char*)md, n);
}

Msg split(const str& raw)
{
	Msg m; size_t at = 0; std::vector<strs> groups;
	while (at < raw.size())
	{
		size_t nl = raw.find('\n', at);
		str line = raw.substr(at, nl == str::npos ? str::npos : nl - at);
		at = nl == str::npos ? raw.size() : nl + 1;
		if (!line.empty() && line.back() == '\r') line.pop_back();
		if (line.empty()) { m.separator = true; m.body_at = at; m.body = raw.substr(at); break; }
		if ((line[0] == ' ' || line[0] == '\t') && !groups.empty()) groups.back().push_back(line);
		else groups.push_back({line});
	}
	for (auto& g : groups)
	{
		Hdr h;
		for (size_t i = 0; i < g.size(); ++i) h.raw += (i ? "\r\n" : "") + g[i];
		size_t c = h.raw.find(':');
		h.colon = c != str::npos; h.value = h.colon ? c + 1 : 0;
		if (h.colon)
		{
			size_t a = 0, b = c;
			while (a < b && (h.raw[a] == ' ' || h.raw[a] == '\t')) ++a;
			while (b > a && (h.raw[b - 1] == ' ' || h.raw[b - 1] == '\t')) --b;
			h.name = h.raw.substr(a, b - a);
		}
		m.headers.push_back(h);
	}
	return m;
}

str canon_body(const str& body, bool relaxed)
{
	strs lines; str cur; bool open = false;
	for (char c : body)
	{
		if (c == '\r') continue;
		if (c == '\n') { lines.push_back(cur); cur.clear(); open = false; continue; }
		cur += c; open = true;
	}
	if (open) lines.push_back(cur);
	if (relaxed)
		for (auto& l : lines)
		{
			str o;
			for (char c : l)
				if (c == ' ' || c == '\t') { if (o.empty() || o.back() != ' ') o += ' '; }
				else o += c;
			while (!o.empty() && o.back() == ' ') o.pop_back();
			l = o;
		}
	while (!lines.empty() && lines.back().empty()) lines.pop_back();
	if (lines.empty()) return relaxed ? "" : "\r\n";
	str out; for (auto& l : lines) { out += l; out += "\r\n"; }
	return out;
}

Verdict canon_header(const str& raw, bool relaxed, str& out)
{
	if (!relaxed) { out = raw; return ACCEPT; }
	size_t c = raw.find(':');
	if (c == str::npos) return REJECT;
	str unf;
	for (size_t i = 0; i < raw.size(); ++i)
	{
		if (raw[i] == '\n') return UNSPEC;
		if (raw[i] == '\r')
		{
			if (i + 2 < raw.size() && raw[i + 1] == '\n' && (raw[i + 2] == ' ' || raw[i + 2] == '\t')) { ++i; continue; }
			return UNSPEC;
		}
		unf += raw[i];
	}
	c = unf.find(':');
	str name = lower(unf.substr(0, c)), val = unf.substr(c + 1);
	if (!name.empty() && (name[0] == ' ' || name[0] == '\t')) return UNSPEC; // not a header field
	while (!name.empty() && (name.back() == ' ' || name.back() == '\t')) name.pop_back();
	auto collapse = [](const str& s) { str o; for (char ch : s) { if (ch == '\t') ch = ' '; if (ch == ' ' && !o.empty() && o.back() == ' ') continue; o += ch; } return o; };
	name = collapse(name); val = collapse(val);
	while (!val.empty() && val[0] == ' ') val.erase(0, 1);
	while (!val.empty() && val.back() == ' ') val.pop_back();
	out = name + ":" + val;
	return ACCEPT;
}

Verdict taglist(const str& in, std::vector<Tag>& out)
{
	Verdict v = ACCEPT; size_t at = 0; out.clear();
	if (strip_wsp(in).empty()) return UNSPEC;
	while (true)
	{
		size_t semi = in.find(';', at), end = semi == str::npos ? in.size() : semi;
		str spec = in.substr(at, end - at);
		if (strip_wsp(spec).empty())
		{
			if (semi == str::npos) break;   // trailing ';'
			return REJECT;                  // empty tag-spec
		}
		size_t eq = spec.find('=');
		if (eq == str::npos) return REJECT;
		str name = strip_wsp(spec.substr(0, eq)), val = strip_wsp(spec.substr(eq + 1));
		if (name.empty()) return REJECT;
		for (unsigned char c : name) if (!(isalnum(c) || c == '_') || c >= 0x80) return REJECT;
		if (name[0] == '_' || isdigit((unsigned char)name[0])) v = UNSPEC; // not in the grammar, widely tolerated
		for (unsigned char c : val) if (!ws((char)c) && (c < 0x21 || c > 0x7e)) return REJECT;
		for (auto& t : out) if (t.name == name) return REJECT;
		Tag t; t.name = name; t.value = val; t.begin = at + eq + 1; t.end = end; out.push_back(t);
		if (semi == str::npos) break;
		at = semi + 1;
		if (at >= in.size()) break;
	}
	return v;
}
const Tag* find(const std::vector<Tag>& t, const str& name) { for (auto& x : t) if (x.name == name) return &x; return nullptr; }

// Elements separated by ':', FWS around them. Trailing colon, inner white space
// and bare CR or LF: unspecified.
Verdict colonlist(const str& in, strs& out)
{
	out.clear(); Verdict v = ACCEPT; size_t at = 0;
	if (strip_wsp(in).empty()) return UNSPEC;
	for (size_t i = 0; i < in.size(); ++i)
		if ((in[i] == '\r' && !(i + 2 < in.size() && in[i + 1] == '\n' && (in[i + 2] == ' ' || in[i + 2] == '\t'))) || (in[i] == '\n' && !(i && in[i - 1] == '\r')))
			v = UNSPEC;
	while (true)
	{
		size_t c = in.find(':', at);
		str e = strip_wsp(in.substr(at, c == str::npos ? str::npos : c - at));
		if (e.empty()) { if (c == str::npos) return UNSPEC; return v == UNSPEC ? UNSPEC : REJECT; }
		for (char ch : e) if (ws(ch)) v = UNSPEC;
		out.push_back(e);
		if (c == str::npos) break;
		at = c + 1;
	}
	return v;
}

static bool digits(const str& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
// value of a digit string, saturating at 10^30 (as a decimal string comparison)
static int cmp_dec(str a, str b) { a.erase(0, std::min(a.find_first_not_of('0'), a.size())); b.erase(0, std::min(b.find_first_not_of('0'), b.size())); if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; int c = a.compare(b); return c < 0 ? -1 : c > 0; }

Sig parse_sig(const Hdr& h, long long now)
{
	Sig s; bool unspec = false; std::vector<Tag> t;
	auto rej = [&](const str& w) { s.v = REJECT; s.why = w; return s; };
	str val = h.raw.substr(h.value);
	Verdict tv = taglist(val, t);
	if (tv == REJECT) return rej("tag list");
	if (tv == UNSPEC) unspec = true;
	s.arc = lower(h.name) == "arc-message-signature";
	const Tag* d = find(t, "d"); if (!d || d->value.empty()) return rej("no d=");
	s.d = lower(d->value);
	if (!s.arc) { const Tag* v = find(t, "v"); if (!v || v->value != "1") return rej("v="); }
	const Tag* a = find(t, "a"); if (!a) return rej("no a=");
	if (a->value == "rsa-sha256") {}
	else if (a->value == "rsa-sha1") s.sha256 = false;
	else if (a->value == "ed25519-sha256") s.ed = true;
	else return rej("a=");
	const Tag* b = find(t, "b"); if (!b || b->value.empty()) return rej("b=");
	s.b_known = b64dec(b->value, s.b) == ACCEPT;
	s.bbegin = h.value + b->begin; s.bend = h.value + b->end;
	const Tag* bh = find(t, "bh"); if (!bh) return rej("no bh=");
	s.bh_known = b64dec(bh->value, s.bh) == ACCEPT;
	if (const Tag* c = find(t, "c"))
	{
		size_t sl = c->value.find('/');
		str hc = c->value.substr(0, sl), bc = sl == str::npos ? "simple" : c->value.substr(sl + 1);
		if ((hc != "simple" && hc != "relaxed") || (bc != "simple" && bc != "relaxed")) return rej("c=");
		s.hrelaxed = hc == "relaxed"; s.brelaxed = bc == "relaxed";
	}
	const Tag* hh = find(t, "h"); if (!hh) return rej("no h=");
	{
		Verdict lv = colonlist(hh->value, s.h);
		if (lv == REJECT) return rej("h= syntax");
		bool from = false; for (auto& n : s.h) from |= lower(n) == "from";
		if (lv == UNSPEC) { if (lower(hh->value).find("from") == str::npos) return rej("From not signed"); unspec = true; }
		else if (!from) return rej("From not signed");
	}
	const Tag* i = find(t, "i");
	if (s.arc)
	{
		if (!i) return rej("no i=");
		if (digits(i->value)) { if (cmp_dec(i->value, "1") < 0 || cmp_dec(i->value, "50") > 0) return rej("i= range"); s.arc_i = strtoul(i->value.c_str(), nullptr, 10); if (i->value.size() > 2) unspec = true; }
		else return rej("i= not a number");
	}
	else if (!i) s.idomain = s.d;
	else
	{
		str m; Verdict qv = qpdec(i->value, m);
		if (qv == REJECT) return rej("i= encoding");
		if (qv == UNSPEC) unspec = true;
		else
		{
			size_t at = m.rfind('@');
			if (at == str::npos) return rej("i= without @");
			s.ilocal = m.substr(0, at); s.idomain = lower(m.substr(at + 1));
			bool sub = s.idomain.size() > s.d.size() && s.idomain.compare(s.idomain.size() - s.d.size() - 1, str::npos, "." + s.d) == 0;
			if (s.idomain != s.d && !sub) return rej("i= not under d=");
		}
	}
	if (const Tag* l = find(t, "l"))
	{
		if (!digits(l->value) || l->value.size() > 76 || cmp_dec(l->value, "9223372036854775807") > 0) return rej("l=");
		s.limited = true; s.limit = strtoul(l->value.c_str(), nullptr, 10);
	}
	if (const Tag* q = find(t, "q"))
	{
		strs ql; Verdict lv = colonlist(q->value, ql);
		if (lv == REJECT) return rej("q= syntax");
		bool ok = std::find(ql.begin(), ql.end(), "dns/txt") != ql.end();
		if (lv == UNSPEC) { if (q->value.find("dns/txt") == str::npos) return rej("q="); unspec = true; }
		else if (!ok) return rej("q=");
	}
	const Tag* se = find(t, "s"); if (!se || se->value.empty()) return rej("no s=");
	s.s = se->value;
	if (const Tag* x = find(t, "x"))
	{
		if (!digits(x->value)) return rej("x= not a number");
		if (cmp_dec(x->value, std::to_string(now)) < 0) return rej("expired");
	}
	if (!s.b_known || !s.bh_known) unspec = true;
	s.v = unspec ? UNSPEC : ACCEPT;
	return s;
}

Key parse_key(const str& rec)
{
	Key k; bool unspec = false; std::vector<Tag> t;
	auto rej = [&](const str& w) { k.v = REJECT; k.why = w; return k; };
	Verdict tv = taglist(rec, t);
	if (tv == REJECT) return rej("tag list");
	if (tv == UNSPEC) unspec = true;
	if (const Tag* v = find(t, "v")) { if (v->value != "DKIM1") return rej("v="); if (t[0].name != "v") unspec = true; }
	if (const Tag* h = find(t, "h"))
	{
		if (h->value.empty()) return rej("h= empty");
		strs l; Verdict lv = colonlist(h->value, l);
		if (lv == REJECT) return rej("h= syntax");
		k.any_hash = false;
		for (auto& e : l) { if (e == "sha1") k.sha1 = true; if (e == "sha256") k.sha256 = true; }
		if (lv == UNSPEC) unspec = true;
		else if (!k.sha1 && !k.sha256) return rej("h= nothing usable");
	}
	if (const Tag* kt = find(t, "k")) { if (kt->value == "ed25519") k.ed = true; else if (kt->value != "rsa") return rej("k="); }
	const Tag* p = find(t, "p"); if (!p) return rej("no p=");
	if (p->value.empty()) return rej("revoked");
	str d;
	if (b64dec(p->value, d) == ACCEPT)
	{
		if (k.ed) { if (d.size() != 32) return rej("p= size"); k.data = d; }
		else
		{
			const unsigned char* q = (const unsigned char*)d.data();
			EVP_PKEY* pk = d2i_PUBKEY(nullptr, &q, (long)d.size());
			if (!pk) return rej("p= not a key");
			int id = EVP_PKEY_base_id(pk); bool whole = q == (const unsigned char*)d.data() + d.size();
			EVP_PKEY_free(pk);
			if (id != EVP_PKEY_RSA) { if (id == EVP_PKEY_RSA_PSS) unspec = true; else return rej("p= not RSA"); }
			if (!whole) unspec = true;
			k.data = d;
		}
	}
	else unspec = true;
	if (const Tag* s = find(t, "s"))
	{
		if (s->value.empty()) return rej("s= empty");
		strs l; Verdict lv = colonlist(s->value, l);
		if (lv == REJECT) return rej("s= syntax");
		if (lv == UNSPEC) unspec = true;
		else if (std::find(l.begin(), l.end(), "email") == l.end() && std::find(l.begin(), l.end(), "*") == l.end()) return rej("s= not email");
	}
	if (const Tag* f = find(t, "t"))
		if (!f->value.empty())
		{
			Verdict lv = colonlist(f->value, k.flags);
			if (lv == REJECT) return rej("t= syntax");
			if (lv == UNSPEC) unspec = true;
			k.strict = std::find(k.flags.begin(), k.flags.end(), "s") != k.flags.end();
			k.testing = std::find(k.flags.begin(), k.flags.end(), "y") != k.flags.end();
		}
	k.v = unspec ? UNSPEC : ACCEPT;
	return k;
}

Verdict signed_data(const Msg& m, size_t self, const Sig& sig, str& out)
{
	out.clear(); std::vector<bool> used(m.headers.size(), false);
	for (auto& n : sig.h)
		for (size_t i = m.headers.size(); i-- > 0;)
			if (i != self && !used[i] && m.headers[i].colon && lower(m.headers[i].name) == lower(n))
			{
				used[i] = true; str c;
				if (canon_header(m.headers[i].raw, sig.hrelaxed, c) != ACCEPT) return UNSPEC;
				out += c + "\r\n"; break;
			}
	str own = m.headers[self].raw, c;
	own.erase(sig.bbegin, sig.bend - sig.bbegin);
	if (canon_header(own, sig.hrelaxed, c) != ACCEPT) return UNSPEC;
	out += c;
	return ACCEPT;
}

// ---- keys ----------------------------------------------------------------------
static EVP_PKEY* load_pem(const str& pem)
{
	BIO* b = BIO_new_mem_buf(pem.data(), (int)pem.size());
	EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
	BIO_free(b);
	if (!k) throw std::runtime_error("reference key unusable");
	return k;
}
static std::vector<Pair> make_keys()
{
	std::vector<Pair> v;
	auto rsa = [&](const char* pem)
	{
		Pair p; p.pem = pem; EVP_PKEY* k = load_pem(pem);
		p.ed = false; p.bits = EVP_PKEY_bits(k); p.name = "rsa" + std::to_string(p.bits);
		unsigned char* d = nullptr; int n = i2d_PUBKEY(k, &d); p.spki = str((char*)d, (size_t)n); OPENSSL_free(d);
		d = nullptr; n = i2d_PrivateKey(k, &d); p.der_b64 = b64enc(str((char*)d, (size_t)n)); OPENSSL_free(d);
		p.pub = p.spki;
		EVP_PKEY_free(k); v.push_back(p);
	};
	for (auto pem : KEYS_PEM) rsa(pem);
	for (int i = 0; i < 4; ++i)
	{
		Pair p; p.ed = true; p.bits = 256; p.name = "ed25519-" + std::to_string(i);
		p.seed = digest("ed25519 key " + std::to_string(i), true);
		EVP_PKEY* k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)p.seed.data(), 32);
		unsigned char pub[32]; size_t n = 32; EVP_PKEY_get_raw_public_key(k, pub, &n); EVP_PKEY_free(k);
		p.pub = str((char*)pub, 32); p.sk64 = p.seed + p.pub; v.push_back(p);
	}
	rsa(KEY_8192);
	return v;
}
const std::vector<Pair>& keys() { static const std::vector<Pair> k = make_keys(); return k; }
str key_p(const Pair& k) { return b64enc(k.pub); }
str key_record(const Pair& k) { return str("v=DKIM1; ") + (k.ed ? "k=ed25519; " : "") + "p=" + key_p(k); }

str sign(const Pair& k, bool sha256, const str& data)
{
	str md = digest(data, sha256);
	if (k.ed)
	{
		EVP_PKEY* pk = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)k.seed.data(), 32);
		EVP_MD_CTX* c = EVP_MD_CTX_new(); unsigned char sig[64]; size_t n = 64;
		bool ok = EVP_DigestSignInit(c, nullptr, nullptr, nullptr, pk) == 1 && EVP_DigestSign(c, sig, &n, (const unsigned char*)md.data(), md.size()) == 1;
		EVP_MD_CTX_free(c); EVP_PKEY_free(pk);
		if (!ok) throw std::runtime_error("reference Ed25519 signing failed");
		return str((char*)sig, n);
	}
	static std::map<str, EVP_PKEY*> cache;
	EVP_PKEY*& pk = cache[k.pem]; if (!pk) pk = load_pem(k.pem);
	EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pk, nullptr); std::vector<unsigned char> sig(1024); size_t n = sig.size();
	bool ok = EVP_PKEY_sign_init(c) == 1 && EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(c, sha256 ? EVP_sha256() : EVP_sha1()) == 1
		&& EVP_PKEY_sign(c, sig.data(), &n, (const unsigned char*)md.data(), md.size()) == 1;
	EVP_PKEY_CTX_free(c);
	if (!ok) throw std::runtime_error("reference RSA signing failed");
	return str((char*)sig.data(), n);
}
str sign_wrong(const Pair& k, bool sha256, const str& data, int mod, unsigned n)
{
	str s = sign(k, sha256, data);
	switch (mod)
	{
		case 1: return s + str(1 + n % 40, (char)(n >> 8));
		case 2: return str(1 + n % 40, (char)(n >> 8)) + s;
		case 3: return s.substr(0, s.size() - 1 - n % std::min<size_t>(s.size() - 1, 40));
		case 4: return s.substr(1 + n % std::min<size_t>(s.size() - 1, 40));
		case 5: s[(n >> 3) % s.size()] ^= (char)(1 << (n & 7)); return s;
		case 6:
		{
			if (k.ed) // over the text itself instead of its hash
			{
				EVP_PKEY* pk = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)k.seed.data(), 32); EVP_MD_CTX* c = EVP_MD_CTX_new(); unsigned char sig[64]; size_t m = 64;
				EVP_DigestSignInit(c, nullptr, nullptr, nullptr, pk); EVP_DigestSign(c, sig, &m, (const unsigned char*)data.data(), data.size()); EVP_MD_CTX_free(c); EVP_PKEY_free(pk); return str((char*)sig, m);
			}
			EVP_PKEY* pk = load_pem(k.pem); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pk, nullptr); std::vector<unsigned char> sig(1024); size_t m = sig.size(); str md = digest(data, sha256); EVP_PKEY_sign_init(c);
			bool ok;
			if (n % 2) ok = EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1; // no DigestInfo
			else ok = EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(c, sha256 ? EVP_sha256() : EVP_sha1()) == 1;
			ok = ok && EVP_PKEY_sign(c, sig.data(), &m, (const unsigned char*)md.data(), md.size()) == 1; EVP_PKEY_CTX_free(c); EVP_PKEY_free(pk);
			return ok ? str((char*)sig.data(), m) : s + "x";
		}
		case 7: return k.ed ? sign(k, false, data) : sign(k, !sha256, data);
		case 8: return str(s.size(), 0);
		case 9:
			if (k.ed) // S + L
			{
				static const unsigned char L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
				unsigned carry = 0; for (int i = 0; i < 32; ++i) { carry += (unsigned char)s[32 + i] + L[i]; s[32 + i] = (char)carry; carry >>= 8; }
				return s;
			}
			else
			{
				EVP_PKEY* pk = load_pem(k.pem); BIGNUM* m = nullptr; EVP_PKEY_get_bn_param(pk, "n", &m); BIGNUM* v = BN_bin2bn((const unsigned char*)s.data(), (int)s.size(), nullptr); BN_add(v, v, m);
				std::vector<unsigned char> o((size_t)BN_num_bytes(v)); BN_bn2bin(v, o.data()); BN_free(v); BN_free(m); EVP_PKEY_free(pk); return str((char*)o.data(), o.size());
			}
		default: return sign(k, sha256, digest(data, sha256));
	}
}
bool verify_raw(bool ed, const str& pub, bool sha256, const str& data, const str& sig)
{
	str md = digest(data, sha256); bool ok = false;
	if (ed)
	{
		if (pub.size() != 32 || sig.size() != 64) return false;
		EVP_PKEY* pk = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)pub.data(), 32);
		if (!pk) return false;
		EVP_MD_CTX* c = EVP_MD_CTX_new();
		ok = EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, pk) == 1 && EVP_DigestVerify(c, (const unsigned char*)sig.data(), 64, (const unsigned char*)md.data(), md.size()) == 1;
		EVP_MD_CTX_free(c); EVP_PKEY_free(pk);
		return ok;
	}
	const unsigned char* q = (const unsigned char*)pub.data();
	EVP_PKEY* pk = d2i_PUBKEY(nullptr, &q, (long)pub.size()); if (!pk) return false;
	EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pk, nullptr);
	ok = EVP_PKEY_verify_init(c) == 1 && EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(c, sha256 ? EVP_sha256() : EVP_sha1()) == 1
		&& EVP_PKEY_verify(c, (const unsigned char*)sig.data(), sig.size(), (const unsigned char*)md.data(), md.size()) == 1;
	EVP_PKEY_CTX_free(c); EVP_PKEY_free(pk);
	return ok;
}

const char* stage_name(Stage s)
{
	static const char* n[] = {"pass", "policy", "body-hash", "dns-failure", "no-key", "key-record", "key-restriction", "signature", "unspecified"};
	return n[s];
}
const char* ar_class(Stage s)
{
	switch (s) { case ST_PASS: return "pass"; case ST_BODYHASH: case ST_CRYPTO: return "fail"; case ST_DNSTEMP: return "temperror"; default: return "permerror"; }
}
str limited_body(const Msg& m, const Sig& s, bool& exceeds)
{
	str b = canon_body(m.body, s.brelaxed); exceeds = s.limited && s.limit > b.size();
	return s.limited && s.limit < b.size() ? b.substr(0, s.limit) : b;
}
Result verify(const Msg& m, size_t self, const Dns& dns, long long now)
{
	Result r; r.sig = parse_sig(m.headers[self], now);
	auto done = [&](Stage s, const str& w) { r.st = s; r.why = w; return r; };
	if (r.sig.v == REJECT) return done(ST_POLICY, r.sig.why);
	if (r.sig.v == UNSPEC) return done(ST_UNSPEC, "signature header");
	bool exceeds; str body = limited_body(m, r.sig, exceeds);
	if (digest(body, r.sig.sha256) != r.sig.bh) return done(ST_BODYHASH, "");
	if (exceeds) return done(ST_UNSPEC, "l= beyond the body");
	if (dns.state == 2) return done(ST_DNSTEMP, "");
	if (dns.state == 1 || dns.rec.empty()) return done(ST_NOKEY, "");
	r.key = parse_key(dns.rec);
	if (r.key.v == REJECT) return done(ST_KEY, r.key.why);
	if (r.key.v == UNSPEC) return done(ST_UNSPEC, "key record");
	if (!r.key.any_hash && !(r.sig.sha256 ? r.key.sha256 : r.key.sha1)) return done(ST_RESTRICT, "hash algorithm");
	if (r.key.ed != r.sig.ed) return done(ST_RESTRICT, "key type");
	if (!r.sig.arc && r.key.strict && r.sig.idomain != r.sig.d) return done(ST_RESTRICT, "t=s");
	str data; if (signed_data(m, self, r.sig, data) == UNSPEC) return done(ST_UNSPEC, "signed headers");
	if (!verify_raw(r.key.ed, r.key.data, r.sig.sha256, data, r.sig.b)) return done(ST_CRYPTO, "");
	return done(ST_PASS, "");
}
} // namespace ref
