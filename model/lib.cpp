#include "lib.hpp"
#include <algorithm>

namespace lib {
Out guard(int stage, const std::function<void()>& f)
{
	Out o; o.stage = stage;
	try { f(); o.cls = "pass"; }
	catch (DKIM::TemporaryError& e) { o.cls = e.getAuthenticationResult(); o.what = str("TemporaryError: ") + e.what(); if (o.cls == "pass") o.cls = "!pass-thrown"; }
	catch (DKIM::PermanentError& e) { o.cls = e.getAuthenticationResult(); o.what = str("PermanentError: ") + e.what(); if (o.cls == "pass") o.cls = "!pass-thrown"; }
	return o;
}
std::unique_ptr<std::istream> stream(const str& d, Src& s)
{
	switch (s.below(3))
	{
		case 1: { static const size_t c[] = {1, 7, 64, 1000, 4096, 8095, 8096, 8097}; return std::unique_ptr<std::istream>(new ChunkStream(d, c[s.below(8)])); }
		default: return std::unique_ptr<std::istream>(new std::istringstream(d));
	}
}
std::unique_ptr<std::istream> stream_at(const str& d, Src& s, long long* start)
{
	long long at = 0; std::unique_ptr<std::istream> r;
	switch (s.below(8))
	{
		case 6: { str pre = s.pickv<str>({"x", "From: other@example.net\r\nSubject: other\r\n\r\nother\r\n", "\r\n", "envelope\n", "DKIM-Signature: v=1\r\n\r\n"}); if (s.chance(1, 4)) pre += str(s.size(9000), 'e'); at = (long long)pre.size(); r.reset(s.coin() ? (std::istream*)new std::istringstream(pre + d) : (std::istream*)new ChunkStream(pre + d, 1 + s.size(9000))); r->seekg(at); } break;
		case 7: { static const size_t c[] = {1, 7, 64, 1000, 4096, 8095, 8096, 8097}; at = s.pickv<long long>({1, 100, 8096, 32760, 65530, 2147483640LL, 2147483700LL, 4294967290LL, 4294967296LL, 8589934592LL, 1000000000000LL}); r.reset(new ChunkStream(d, c[s.below(8)], at)); } break;
		default: r = stream(d, s);
	}
	if (start) *start = at;
	return r;
}
void set_dns(DKIM::Validatory& v, Dns& d)
{
	Dns* p = &d;
	v.CustomDNSData = p;
	v.CustomDNSResolver = [p](const str& name, str& result, void* data) {
		++p->calls; p->names.push_back(name); p->data = data;
		if (p->state == 2) return false;
		if (p->state == 0) result = p->rec;
		return true;
	};
}
Out verify_nth(DKIM::Validatory& v, size_t k, Dns& d, DKIM::Signature* osig, DKIM::PublicKey* okey)
{
	auto it = v.GetSignatures().begin();
	if (k >= v.GetSignatures().size()) fail(fmt("the verifier lists %zu signatures, number %zu expected", v.GetSignatures().size(), k));
	std::advance(it, (long)k);
	DKIM::Signature sig0; DKIM::PublicKey key0; DKIM::Signature& sig = osig ? *osig : sig0; DKIM::PublicKey& key = okey ? *okey : key0;
	set_dns(v, d);
	Out o = guard(1, [&] { v.GetSignature(it, sig); });
	if (!o.pass()) return o;
	o = guard(2, [&] { v.GetPublicKey(sig, key); });
	if (!o.pass()) return o;
	o = guard(3, [&] { v.CheckSignature(it, sig, key); });
	return o;
}
Out verify(const str& raw, size_t k, const ref::Dns& dns, bool arc)
{
	std::istringstream in(raw);
	DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	Dns d; d.state = dns.state; d.rec = dns.rec;
	return verify_nth(v, k, d);
}
size_t signature_count(const str& raw, bool arc) { std::istringstream in(raw); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); return v.GetSignatures().size(); }
size_t nth_sig_index(const ref::Msg& m, size_t k, bool arc)
{
	for (size_t i = 0; i < m.headers.size(); ++i)
		if (ref::lower(m.headers[i].name) == (arc ? "arc-message-signature" : "dkim-signature")) { if (k == 0) return i; --k; }
	return str::npos;
}
} // namespace lib

namespace gen {
static const str ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static const str PRINT = "abcXYZ019.,-_:;=<>@\"()[]/\\!#$%&'*+?^`{|}~";

str word(Src& s)
{
	switch (s.weighted({12, 3, 2, 1}))
	{
		case 0: return s.str(ALNUM, 1, 10);
		case 1: return s.str(PRINT, 1, 16);
		case 2: { str r = s.dictstr(); for (auto& c : r) if ((unsigned char)c <= ' ' || (unsigned char)c > '~') c = 'q'; return r.empty() ? "w" : r; }
		default: { size_t n = 60 + s.below(900); return str(n, 'a' + (char)s.below(26)); }
	}
}
str wsp(Src& s, size_t lo)
{
	size_t n = lo + (s.chance(1, 12) ? s.below(100) : s.below(3)); str r;
	for (size_t i = 0; i < n; ++i) r += s.below(4) == 3 ? '\t' : ' ';
	return r;
}
str fws(Src& s)
{
	switch (s.weighted({5, 4, 3, 1}))
	{
		case 0: return "";
		case 1: return " ";
		case 2: return wsp(s, 0) + "\r\n" + wsp(s, 1);
		default: return wsp(s, 0);
	}
}
str domain(Src& s)
{
	static const char* fixed[] = {"example.com", "halon.se", "a.b", "x", "mail.EXAMPLE.org", "sub.sub.example.co.uk", "1and1.com", "xn--bcher-kva.example"};
	if (s.below(2) == 0) return fixed[s.below(8)];
	str r; size_t n = 1 + s.below(4); bool big = s.chance(1, 25); if (big) n = 1 + s.below(40);
	for (size_t i = 0; i < n && r.size() < 190; ++i)
	{
		if (i) r += '.';
		str l = s.str(ALNUM, 1, 20); if (big && s.coin()) l += str(s.below(44), s.ch("aZ0"));
		if (s.chance(1, 4)) l += "-" + s.str(ALNUM + "-", 0, 5) + s.ch(ALNUM);
		r += l;
	}
	return r;
}
str many(Src& s, const strs& pool, size_t max)
{
	size_t n = 1 + (s.chance(1, 6) ? s.size(max) : s.small(12)), rare = s.below(pool.size()); bool once = s.coin(); str r;
	size_t at = s.below(n);
	for (size_t i = 0; i < n; ++i) r += (i ? ":" : "") + (once ? i == at ? pool[rare] : s.str("xyz9-", 1, 3) : pool[s.below(pool.size())]);
	return r;
}
static str plain(const str& d) { for (unsigned char ch : d) if (ch < 0x21 || ch > 0x7e || ch == ';') return str(); return d; }
void odd(Src& s, str& v, const strs& bad, bool list)
{
	size_t k = s.weighted({6, 2, 3}); str d = k == 1 ? plain(s.dictstr()) : str();
	if (k == 1 && d.size()) { v = list && v.size() && s.coin() ? s.coin() ? v + ":" + d : d + ":" + v : d; return; }
	if (k == 2 && v.size())
	{
		size_t i = s.below(v.size()); char ch = (char)(0x21 + s.below(0x5e)); if (ch == ';') ch = '1';
		switch (s.below(5)) { case 0: v.erase(i, 1); break; case 1: v.insert(i, 1, ch); break; case 2: v += ch; break; case 3: v.insert(i, 1, v[i]); break; default: v[i] = ch; }
		return;
	}
	v = bad[s.below(bad.size())];
}
str randcase(Src& s, str v)
{
	switch (s.below(4))
	{
		case 0: case 1: break;
		case 2: for (auto& c : v) c = (char)toupper((unsigned char)c); break;
		default: for (auto& c : v) if (s.coin()) c = (char)(isupper((unsigned char)c) ? tolower((unsigned char)c) : toupper((unsigned char)c));
	}
	return v;
}
str hname(Src& s)
{
	static const char* n[] = {"From", "To", "Subject", "Date", "Message-ID", "Received", "Cc", "Reply-To", "X-Test", "List-Unsubscribe", "Content-Type", "MIME-Version", "Sender", "In-Reply-To", "References", "Resent-From", "X", "Fro", "Froma", "Content-Transfer-Encoding"};
	switch (s.weighted({14, 3, 1}))
	{
		case 0: return randcase(s, n[s.below(sizeof n / sizeof *n)]);
		case 1: return s.str(ALNUM + "-_!#$%&'*+.^`|~", 1, 12);
		default: if (s.chance(1, 5)) return s.str(ALNUM, 1, 3) + str(s.size(1500), s.ch("xY-")); return s.str(ALNUM + "-", 1, 90);
	}
}
str hvalue(Src& s)
{
	str r = s.below(8) ? str(" ") : (s.coin() ? str("") : fws(s));
	size_t n = s.small(14);
	for (size_t i = 0; i < n; ++i)
	{
		if (i) { if (s.below(4)) r += " "; else { str f = fws(s); r += f.empty() ? "\t" : f; } }
		switch (s.weighted({14, 1, 1}))
		{
			case 0: r += word(s); break;
			case 1: { str b = s.bytes(8); for (auto& c : b) if (c == '\r' || c == '\n') c = 'z'; r += b; } break;
			default: r += s.pickv<str>({":", ";", "=", "a:b", " :", "\xff\xfe", "\xc3\xa5", "b=", "dkim"});
		}
	}
	if (s.chance(1, 6)) r += s.coin() ? wsp(s, 1) : " \r\n\t";
	return r;
}

str body(Src& s)
{
	str b; const size_t MAX = 80000;
	size_t nops = s.weighted({1, 8}) == 0 ? 0 : 1 + s.small(24);
	int mode = (int)s.below(3); // line ends: CRLF, LF, mixed
	auto eol = [&]() -> str { int m = mode == 2 ? (int)s.below(2) : mode; return m ? "\n" : "\r\n"; };
	auto pad = [&] {
		// bring the size to a block boundary, give or take a few
		static const size_t base[] = {8096, 8096, 8096, 4096, 1024, 256, 8192, 512, 2048, 16192, 65536};
		size_t k = s.below(11 + pbt::dict.nums.size());
		size_t B = k < 11 ? base[k] : (size_t)pbt::dict.nums[k - 11];
		if (B < 64 || B > 40000) B = 8096;
		size_t t = (b.size() / B + 1) * B + s.below(9); t = t >= 4 ? t - 4 : 0;
		if (t <= b.size() || t > MAX) return;
		size_t n = t - b.size();
		switch (s.below(5))
		{
			case 0: b += str(n, 'x'); break;
			case 1: b += str(n, ' '); break;
			case 2: b += str(n, '\t'); break;
			case 3: b += str(n, '\n'); break;
			default: { str u = s.pickv<str>({"line of text\r\n", "\r\n", "a \r\n", " \n", "word \t ", "0123456789"}); str p; while (p.size() < n) p += u; b += p.substr(p.size() - n); }
		}
	};
	for (size_t i = 0; i < nops && b.size() < MAX; ++i)
		switch (s.weighted({10, 6, 8, 3, 2, 2, 2, 1, 2}))
		{
			case 0: b += word(s); break;
			case 1: b += wsp(s); break;
			case 2: b += eol(); break;
			case 3: { size_t n = s.size(s.chance(1, 6) ? 20000 : 40); str e = eol(); for (size_t k = 0; k < n; ++k) b += e; } break;
			case 4: pad(); break;
			case 5: b += s.bytes(12); break;
			case 6: { str r = s.pickv<str>({"\r", " \r\n", "\r\r\n", "\n\r", ".\r\n", "\r\n ", "\t\n", "\0x\r", "--b\r\nContent-Type: x\r\n\r\n", ":", "From: body\r\n"}); b += r; } break;
			case 7: b += str(s.size(20000), s.coin() ? ' ' : 'y'); break;
			default: b += word(s) + " " + word(s) + eol();
		}
	if (s.chance(1, 300)) { str u = s.pickv<str>({"a\r\n", "\r\n", " ", "0123456789", "a b\n"}); size_t n = s.size(1500000 / u.size()); str x; x.reserve(n * u.size()); while (n--) x += u; b += x; if (s.coin()) b += word(s); }
	if (s.below(3)) b += eol();
	return b;
}

str name_of(const str& h)
{
	size_t c = h.find(':'); if (c == str::npos) return "";
	str n = h.substr(0, c);
	while (!n.empty() && (n[0] == ' ' || n[0] == '\t')) n.erase(0, 1);
	while (!n.empty() && (n.back() == ' ' || n.back() == '\t')) n.pop_back();
	return ref::lower(n);
}
bool has_name(const str& h, const str& l) { return name_of(h) == l; }

str Message::raw() const
{
	str r; size_t i = 0;
	auto put = [&](const str& line) { r += line; r += eol == 0 ? "\r\n" : eol == 1 ? "\n" : (++i % 3 ? "\r\n" : "\n"); };
	for (auto& h : headers)
	{
		size_t at = 0, p;
		while ((p = h.find("\r\n", at)) != str::npos) { put(h.substr(at, p - at)); at = p + 2; }
		put(h.substr(at));
	}
	if (sep) { put(""); r += body; }
	return r;
}
Message message(Src& s)
{
	Message m; size_t n = s.small(14);
	auto one = [&](const str& name) { str sp = s.chance(1, 14) ? wsp(s) : ""; return name + sp + ":" + hvalue(s); };
	size_t from = s.below(n + 1);
	for (size_t i = 0; i <= n; ++i)
	{
		if (i == from) { m.headers.push_back(one(randcase(s, "From"))); continue; }
		switch (s.weighted({20, 4, 1, 1, 1, 1}))
		{
			case 0: m.headers.push_back(one(hname(s))); break;
			case 1: { str d = m.headers.empty() ? str() : name_of(m.headers[s.below(m.headers.size())]); m.headers.push_back(one(d.empty() ? hname(s) : randcase(s, d))); } break;
			case 2: m.headers.push_back(one(s.coin() ? "DKIM-Signature" : "ARC-Message-Signature")); break;
			case 4: m.headers.push_back(one(s.pickv<str>({"X;Y", "\xc3\xa5", "A B", "A\tB", "X\x01", "a=b", "From;", "X\x7f", "To\xa0", "A  B", "X;", "(c)", "\"q\"", "To\x0b"}))); break;
			case 3: m.headers.push_back(word(s) + "nocolon"); for (auto& c : m.headers.back()) if (c == ':') c = '.'; break;
			default: m.headers.push_back("Received: from a by b;\r\n\tMon, 1 Jan 2024 00:00:00 +0000"); break;
		}
	}
	if (s.chance(1, 40)) // large: beyond any limit that a reader might have
	{
		size_t at = s.below(m.headers.size()); str& h = m.headers[at]; str n = h.find(':') == str::npos ? "X-Large" : h.substr(0, h.find(':'));
		switch (s.below(4))
		{
			case 0: h += str(s.size(200000), (char)('a' + s.below(26))) + word(s); break;
			case 1: { str u = s.pickv<str>({"\r\n\t", "\r\n ", " \r\n ", " "}) + word(s); size_t k = s.size(std::min<size_t>(3000, 200000 / u.size())); str x; while (k--) x += u; h += x; } break;
			case 2: { size_t k = s.size(1500); strs more; for (size_t i = 0; i < k; ++i) more.push_back(n + ": " + std::to_string(i)); m.headers.insert(m.headers.begin() + (long)s.below(m.headers.size() + 1), more.begin(), more.end()); } break;
			default: { size_t k = s.size(1500); strs more; for (size_t i = 0; i < k; ++i) more.push_back("X-" + std::to_string(i) + ": x"); m.headers.insert(m.headers.begin() + (long)s.below(m.headers.size() + 1), more.begin(), more.end()); }
		}
	}
	for (auto& h : m.headers) if (h.empty() || h[0] == ' ' || h[0] == '\t' || h[0] == ':') h = "X" + h;
	for (auto& h : m.headers) { size_t p; while ((p = h.find("\r\n\r\n")) != str::npos) h.erase(p, 2); }
	m.eol = (int)s.weighted({6, 2, 1});
	m.sep = s.below(24) != 23;
	if (m.sep) m.body = body(s);
	return m;
}

size_t key(Src& s, bool ed_ok, bool big_ok)
{
	// 0:512 1:768(e=3) 2,3:1024 4:1032 5:1536 6:2048 7:2048(e=3) 8:4096, 9..12: ed25519 13:8192
	size_t w = s.weighted({6, 3, 3, 2, 3, 1, 1, 1, 0, 0});
	if (ed_ok && s.chance(1, 3)) return 9 + s.below(4);
	if (!big_ok && w > 4) w = 0;
	if (big_ok && s.chance(1, 100)) w = s.below(12) ? 8 : 13;
	return w;
}
static str pick_key_form(const ref::Pair& k)
{
	return k.ed ? k.seed : k.pem;
}
void set_key(DKIM::SignatoryOptions& o, const ref::Pair& k)
{
	o.SetSignatureAlgorithm(k.ed ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA); o.SetPrivateKey(pick_key_form(k));
}
void set_key(DKIM::AdditionalSignaturesOptions& o, const ref::Pair& k)
{
	o.SetSignatureAlgorithm(k.ed ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA); o.SetPrivateKey(pick_key_form(k));
}

Signed sign(Src& s, const Message& m, const Cfg& c, long long now)
{
	Signed r; r.msg = m.raw(); r.arc = c.arc != 0;
	pbt::fake_now = now;
	DKIM::SignatoryOptions o; c.apply(o);
	auto in = lib::stream_at(r.msg, s);
	r.out = lib::guard(0, [&] { DKIM::Signatory g(*in); r.sig = g.CreateSignature(o); });
	if (r.out.pass()) r.full = r.sig + "\r\n" + r.msg;
	return r;
}
bool refusable(const Message& m, const Cfg& c)
{
	if (!c.sha256) for (auto& q : c.sigs) if (ref::keys()[q.key].ed) return true; // there is no ed25519-sha1
	if (!c.hrel) return false;
	for (auto& h : m.headers)
		for (size_t i = 0; i < h.size(); ++i) if (h[i] == '\r' && !(i + 2 < h.size() && h[i + 1] == '\n' && (h[i + 2] == ' ' || h[i + 2] == '\t'))) return true;
	return false;
}

static const char* const DEFHEADERS[] = {"from", "sender", "reply-to", "subject", "date", "message-id", "to", "cc", "mime-version", "content-type", "content-transfer-encoding", "content-id", "content-description", "resent-date", "resent-from", "resent-sender", "resent-to", "resent-cc", "resent-message-id", "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-unsubscribe-post", "list-subscribe", "list-post", "list-owner", "list-archive", "cfbl-address", "cfbl-feedback-id"};

Cfg cfg(Src& s, const Message& m, bool multi, long long now)
{
	Cfg c;
	c.hrel = s.coin(); c.brel = s.coin();
	size_t n = multi ? 1 + s.weighted({6, 2, 1, 1}) : 1; if (multi && s.chance(1, 120)) n += s.size(16);
	c.sha256 = !s.chance(1, 5);
	for (size_t i = 0; i < n; ++i) { SigReq q; q.key = key(s, c.sha256); if (!c.sha256 && s.chance(1, 30)) q.key = 9 + s.below(4); q.dom = domain(s); q.sel = s.below(2) ? s.pickv<str>({"s", "sel1", "a.b", "20240101", "K-1"}) : domain(s); c.sigs.push_back(q); }
	auto anyname = [&]() -> str { if (!m.headers.empty() && s.below(3)) { str x = name_of(m.headers[s.below(m.headers.size())]); bool odd = x.empty(); for (char ch : x) odd |= ch <= ' ' || ch > '~' || ch == ';'; if (!odd) return x; } return hname(s); };
	c.hmode = (int)s.weighted({4, 4, 3});
	if (c.hmode == 1) { c.headers.push_back(randcase(s, "from")); size_t k = s.small(8); for (size_t i = 0; i < k; ++i) c.headers.push_back(randcase(s, anyname())); }
	if (c.hmode != 2 && s.chance(1, 5)) { size_t k = 1 + s.below(3); for (size_t i = 0; i < k; ++i) c.add.push_back(randcase(s, anyname())); }
	if (c.hmode == 0 && s.chance(1, 5)) { size_t k = 1 + s.below(3); for (size_t i = 0; i < k; ++i) { str d = s.coin() ? str(DEFHEADERS[1 + s.below(30)]) : anyname(); if (ref::lower(d) != "from") c.del.push_back(d); } }
	if (s.chance(1, 3)) { size_t k = 1 + s.small(5); for (size_t i = 0; i < k; ++i) { str o = s.below(4) == 0 ? str("from") : s.chance(1, 10) ? str("dkim-signature") : anyname(); if (n == 1 || (ref::lower(o) != "dkim-signature" && ref::lower(o) != "arc-message-signature")) c.over.push_back(randcase(s, o)); } }
	if (s.chance(1, 4))
	{
		str cb = ref::canon_body(m.sep ? m.body : "", c.brel);
		c.limited = true;
		c.limit = s.below(3) == 0 ? (unsigned long)cb.size() : (unsigned long)s.below(cb.size() + 1);
	}
	if (s.chance(1, 6)) c.arc = s.coin() ? 1 : 1 + s.below(50);
	if (s.chance(1, 3)) { c.ts = true; switch (s.below(3)) { case 0: c.tsv = -1; break; case 1: c.tsv = now; break; default: c.tsv = (long long)s.below(4000000000ULL); } }
	if (s.chance(1, 3))
	{
		c.ex = true; c.exabs = s.coin();
		long long basis = c.exabs ? 0 : (c.ts && c.tsv != -1 ? c.tsv : now);
		long long want = now + (long long)s.size(100000); // not expired at `now`
		c.exv = want - basis; if (c.exv < 0) { c.exabs = true; c.exv = want; }
	}
	if (s.chance(1, 4))
	{
		c.has_identity = true;
		str local = s.below(3) == 0 ? s.bytes(10) : s.str("abcXYZ.+=;-_@\" \\\t", 0, 12); if (s.chance(1, 15)) local += str(s.size(1500), s.ch("a;=\xe5 "));
		str sub = s.below(2) ? "" : s.pickv<str>({"sub.", "A.b.", "x-1."});
		bool same = true; for (auto& q : c.sigs) same &= ref::lower(q.dom) == ref::lower(c.sigs[0].dom);
		if (!same) for (auto& q : c.sigs) q.dom = c.sigs[0].dom;
		c.identity = local + "@" + sub + randcase(s, c.sigs[0].dom);
	}
	c.late = s.chance(1, 3);
	return c;
}
void Cfg::apply(DKIM::SignatoryOptions& o) const
{
	const auto& K = ref::keys();
	auto primary = [&] { set_key(o, K[sigs[0].key]); o.SetDomain(sigs[0].dom).SetSelector(sigs[0].sel); };
	if (!late) primary();
	for (size_t i = 1; i < sigs.size(); ++i) { auto& a = o.AddAdditionalSignature(); set_key(a, K[sigs[i].key]); a.SetDomain(sigs[i].dom).SetSelector(sigs[i].sel); }
	if (late) primary();
	o.SetCanonModeHeader(hrel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE).SetCanonModeBody(brel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE);
	o.SetDigestAlgorithm(sha256 ? DKIM::DKIM_A_SHA256 : DKIM::DKIM_A_SHA1);
	auto L = [](const strs& v) { return std::list<str>(v.begin(), v.end()); };
	if (hmode == 1) o.SetHeaders(L(headers)); else if (hmode == 2) o.SetHeaders({});
	if (!add.empty()) o.AddHeaders(L(add));
	if (!del.empty()) o.DelHeaders(L(del));
	if (!over.empty()) o.SetOversignHeaders(L(over));
	if (limited) o.SetSignBodyLength(limit);
	if (arc) o.SetARCInstance(arc);
	if (ts) o.SetTimestamp((time_t)tsv);
	if (ex) o.SetExpiration((time_t)exv, exabs);
	if (has_identity) o.SetIdentity(identity);
}
strs Cfg::selected() const
{
	strs r; if (hmode == 2) return r;
	strs all; if (hmode == 0) for (auto d : DEFHEADERS) all.push_back(d); else all = headers;
	for (auto& a : add) all.push_back(a);
	for (auto& a : all) if (std::find(del.begin(), del.end(), a) == del.end()) r.push_back(ref::lower(a));
	return r;
}
str Cfg::text() const
{
	str r = fmt("header=%s body=%s hash=%s", hrel ? "relaxed" : "simple", brel ? "relaxed" : "simple", sha256 ? "sha256" : "sha1");
	for (auto& q : sigs) r += " [" + ref::keys()[q.key].name + " d=" + q.dom + " s=" + q.sel + "]";
	auto j = [](const strs& v) { str o; for (auto& x : v) o += (o.empty() ? "" : ":") + x; return o; };
	r += hmode == 0 ? " headers=default" : hmode == 1 ? " headers=" + j(headers) : " headers=all";
	if (!add.empty()) r += " add=" + j(add);
	if (!del.empty()) r += " del=" + j(del);
	if (!over.empty()) r += " oversign=" + j(over);
	if (limited) r += fmt(" l=%lu", limit);
	if (arc) r += fmt(" arc=%lu", arc);
	if (ts) r += fmt(" t=%lld", tsv);
	if (ex) r += fmt(" x=%lld(%s)", exv, exabs ? "absolute" : "relative");
	if (has_identity) r += " i=" + identity;
	return r;
}

// ---- third-party signatures -------------------------------------------------------
str format_tags(Src& s, const std::vector<std::pair<str, str>>& tags, const strs& foldable)
{
	str r; bool plain = s.below(4) == 0;
	auto W = [&](size_t p) -> str { return plain || s.below(p + 1) ? str("") : fws(s); };
	for (size_t i = 0; i < tags.size(); ++i)
	{
		r += i || !plain ? (s.below(4) ? str(" ") : fws(s)) : str(" ");
		r += tags[i].first + W(4) + "=" + W(4);
		const str& v = tags[i].second;
		bool fold = std::find(foldable.begin(), foldable.end(), tags[i].first) != foldable.end();
		if (tags[i].first == "i" && v.find('=') != str::npos) fold = false; // not inside a hex escape
		if (fold && !plain && v.size() > 1)
		{
			size_t at = 0; bool colon = tags[i].first == "h" || tags[i].first == "q" || tags[i].first == "t" || tags[i].first == "s";
			while (at < v.size())
			{
				size_t n = 1 + s.below(80); size_t e = std::min(v.size(), at + n);
				if (colon) { e = v.find(':', at); e = e == str::npos ? v.size() : e + 1; }
				str piece = v.substr(at, e - at);
				if (colon && piece.size() && piece.back() == ':') { piece.pop_back(); r += piece + W(6) + ":" + W(3); }
				else { r += piece; if (e < v.size()) r += s.coin() ? fws(s) : str("\r\n "); }
				at = e;
			}
		}
		else r += v;
		r += W(5);
		if (i + 1 < tags.size() || s.coin()) r += ";";
	}
	if (s.chance(1, 6)) r += s.coin() ? " " : "\r\n ";
	return r;
}
ThirdParty third_party(Src& s, const Message& m, long long now)
{
	ThirdParty t;
	t.arc = s.chance(1, 6); t.sha256 = !s.chance(1, 5); t.key = key(s, t.sha256);
	t.hrel = s.coin(); t.brel = s.coin();
	t.d = domain(s); t.sel = s.below(2) ? s.pickv<str>({"s", "sel._x", "a.b", "20240101"}) : domain(s);
	t.omit_c = !t.hrel && !t.brel && s.coin();
	t.h.push_back(randcase(s, "From"));
	size_t n = s.small(10);
	for (size_t i = 0; i < n; ++i)
	{
		str x = s.chance(1, 16) ? (t.arc ? "arc-message-signature" : "dkim-signature") : !m.headers.empty() && s.below(4) ? name_of(m.headers[s.below(m.headers.size())]) : hname(s);
		if (x.empty() || x.find_first_of("; \t\r\n:") != str::npos) continue;
		bool ok = true; for (unsigned char c : x) ok &= c > 32 && c < 127; if (!ok) continue;
		t.h.insert(t.h.begin() + (long)s.below(t.h.size() + 1), randcase(s, x));
	}
	if (s.chance(1, 4)) { str cb = ref::canon_body(m.sep ? m.body : "", t.brel); t.limited = true; t.limit = s.coin() ? (unsigned long)s.below(cb.size() + 1) : (unsigned long)cb.size(); }
	if (s.chance(1, 4)) { t.has_i = true; t.i = s.pickv<str>({"", "user", "a=3Db", "=22a=40b=22", "x=20y", "q=3B"}) + "@" + s.pickv<str>({"", "", "sub.", "A.B."}) + randcase(s, t.d); }
	t.arc_i = 1 + s.below(50);
	if (s.chance(1, 4)) t.extra.push_back({"t", fmt("%llu", (unsigned long long)(s.coin() ? now : now - (long long)s.below(100000)))});
	if (s.chance(1, 4)) t.extra.push_back({"x", fmt("%llu", (unsigned long long)(now + (s.coin() ? 0 : (long long)s.below(10000000000ULL))))});
	if (s.chance(1, 5)) t.extra.push_back({"q", s.pickv<str>({"dns/txt", "dns/txt:x", "http/2:dns/txt"})});
	if (s.chance(1, 6)) t.extra.push_back({"z", "From:foo@eng.example.net|To:joe@example.com|Subject:demo=20run"});
	if (s.chance(1, 6)) t.extra.push_back({s.pickv<str>({"r", "xyz", "B", "bB", "h2", "n_1", "S", "bhx", "cv", "cd"}), s.pickv<str>({"y", "", "a b", "b=c", "=", "1:2"})});
	return t;
}
str ref_sign(Src& s, const Message& m, const ThirdParty& t)
{
	const ref::Pair& k = ref::keys()[t.key];
	std::vector<std::pair<str, str>> tags;
	if (!t.arc) tags.push_back({"v", "1"});
	tags.push_back({"a", k.ed ? "ed25519-sha256" : t.sha256 ? "rsa-sha256" : "rsa-sha1"});
	if (!t.omit_c) tags.push_back({"c", t.hrel ? (t.brel ? "relaxed/relaxed" : (s.coin() ? "relaxed" : "relaxed/simple")) : (t.brel ? "simple/relaxed" : (s.coin() ? "simple" : "simple/simple"))});
	tags.push_back({"d", t.d}); tags.push_back({"s", t.sel});
	str hl; for (auto& x : t.h) hl += (hl.empty() ? "" : ":") + x;
	tags.push_back({"h", hl});
	if (t.arc) tags.push_back({"i", std::to_string(t.arc_i)}); else if (t.has_i) tags.push_back({"i", t.i});
	if (t.limited) tags.push_back({"l", std::to_string(t.limit)});
	str whole = ref::canon_body(m.sep ? m.body : "", t.brel), cb = whole; if (t.limited) cb = cb.substr(0, t.limit);
	str bh = ref::digest(cb, t.sha256);
	if (t.bh_mod) { size_t n = 1 + s.small(24); char f = (char)s.below(256); switch (t.bh_mod) {
		case 1: bh += str(n, f); break;
		case 2: bh = str(n, f) + bh; break;
		case 3: bh.resize(bh.size() - std::min(n, bh.size() - 1)); break;
		case 4: bh.erase(0, std::min(n, bh.size() - 1)); break;
		case 5: bh[n % 2 ? n % bh.size() : bh.size() - 1] ^= (char)(1 << (f & 7)); break;
		case 6: bh = ref::digest(cb, !t.sha256); break;
		case 7: { str o = ref::canon_body(m.sep ? m.body : "", !t.brel); if (t.limited) o = o.substr(0, t.limit); bh = ref::digest(o, t.sha256); } break;
		default: bh = ref::digest(whole, t.sha256); break; } }
	tags.push_back({"bh", ref::b64enc(bh)});
	for (auto& e : t.extra) tags.push_back(e);
	size_t siglen = k.ed ? 64 : (size_t)(k.bits + 7) / 8;
	unsigned wrong = t.b_mod ? (unsigned)s.below(1 << 16) : 0; if (t.b_mod) siglen = ref::sign_wrong(k, t.sha256, "x", t.b_mod, wrong).size();
	tags.push_back({"b", str(((siglen + 2) / 3) * 4, '\x01')});
	for (auto& o : t.override_)
	{
		bool hit = false;
		for (auto& x : tags) if (x.first == o.first && x.first != "b") { x.second = o.second; hit = true; }
		if (!hit && o.first != "b") tags.push_back(o);
	}
	for (auto& d : t.drop) for (size_t i = 0; i < tags.size(); ++i) if (tags[i].first == d && d != "b") { tags.erase(tags.begin() + (long)i); break; }
	// any order
	if (s.coin()) for (size_t i = tags.size(); i > 1; --i) std::swap(tags[i - 1], tags[s.below(i)]);
	for (auto& d : t.dup) for (size_t i = 0; i < tags.size(); ++i) if (tags[i].first == d && d != "b") { auto x = tags[i]; tags.push_back(x); break; }
	str hdr = randcase(s, t.arc ? "ARC-Message-Signature" : "DKIM-Signature") + (s.chance(1, 12) ? " " : "") + ":" + format_tags(s, tags, {"h", "bh", "b", t.arc ? "z" : "i", "q", "z"});
	// reference signature over the message with this header on top; \x01 holds the place of the value of b=
	Message mm = m; mm.headers.insert(mm.headers.begin(), hdr);
	ref::Msg rm = ref::split(mm.raw());
	const str& raw = rm.headers[0].raw; ref::Sig sig; size_t last = raw.rfind('\x01');
	sig.bbegin = raw.rfind('=', raw.find('\x01')) + 1; sig.bend = std::min(raw.find(';', last), raw.size());
	sig.h = t.h; sig.hrelaxed = t.hrel;
	str data; if (ref::signed_data(rm, 0, sig, data) != ref::ACCEPT) return "";
	str b = t.b_mod ? ref::sign_wrong(k, t.sha256, data, t.b_mod, wrong) : ref::sign(k, t.sha256, data);
	if (t.b_mod) b.resize(siglen); // S + n may need one octet more or less
	b = ref::b64enc(b); size_t bi = 0;
	for (auto& c : hdr) if (c == '\x01') { if (bi < b.size()) c = b[bi]; ++bi; }
	if (bi != b.size()) fail("reference signer: placeholder mismatch");
	return hdr;
}
str key_record(Src& s, const ref::Pair& k)
{
	std::vector<std::pair<str, str>> t;
	if (s.below(4)) t.push_back({"v", "DKIM1"});
	if (k.ed || s.below(3) == 0) t.push_back({"k", k.ed ? "ed25519" : "rsa"});
	if (s.chance(1, 5)) t.push_back({"h", s.pickv<str>({"sha1:sha256", "sha256:sha1", "sha256:sha1:sha512", "x:sha1:sha256"})});
	if (s.chance(1, 5)) t.push_back({"s", s.pickv<str>({"*", "email", "email:tlsrpt", "tlsrpt:email", "x:*"})});
	if (s.chance(1, 5)) t.push_back({"t", s.pickv<str>({"y", "", "x", "y:x"})});
	if (s.chance(1, 6)) t.push_back({"n", "some note=20text"});
	if (s.chance(1, 8)) t.push_back({"g", "*"});
	size_t at = t.empty() ? 0 : 1 + s.below(t.size());
	t.insert(t.begin() + (long)std::min(at, t.size()), {"p", ref::key_p(k)});
	if (s.below(3) == 0)
	{
		str r; for (size_t i = 0; i < t.size(); ++i) r += (i ? "; " : "") + t[i].first + "=" + t[i].second;
		return r + (s.coin() ? ";" : "");
	}
	return format_tags(s, t, {"p", "h", "s", "t"});
}
} // namespace gen

namespace lib {
static str qname(const str& sel, const str& dom) { return ref::lower(sel) + "._domainkey." + ref::lower(dom); }
bool Zone::add(const str& sel, const str& dom, const str& r) { return rec.insert({qname(sel, dom), r}).second; }
ref::Dns Zone::get(const ref::Sig& s) const { ref::Dns d; auto i = rec.find(qname(s.s, s.d)); if (i == rec.end()) d.state = 1; else d.rec = i->second; return d; }
std::vector<Both> judge(std::istream& in, const str& raw, bool arc, const Zone& z, long long now)
{
	pbt::fake_now = now;
	std::vector<Both> out; ref::Msg m = ref::split(raw);
	DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	for (size_t k = 0;; ++k)
	{
		size_t at = nth_sig_index(m, k, arc); if (at == str::npos) break;
		Both b; ref::Sig sg = ref::parse_sig(m.headers[at], now); ref::Dns d = z.get(sg);
		b.r = ref::verify(m, at, d, now);
		Dns ld; ld.state = d.state; ld.rec = d.rec;
		b.l = verify_nth(v, k, ld);
		out.push_back(b);
	}
	return out;
}
} // namespace lib

namespace gen {
Message with_signatures(const Message& m, const str& sig)
{
	Message r = m; ref::Msg s = ref::split(sig + "\r\n\r\n"); strs h;
	for (auto& x : s.headers) h.push_back(x.raw);
	r.headers.insert(r.headers.begin(), h.begin(), h.end());
	return r;
}
static const char ODDS[] = " \t\r\n;:=,.xA0-_\0\x01\x7f\x80\xff"; static const str ODD(ODDS, sizeof ODDS - 1);
static size_t position(Src& s, size_t n, size_t extra = 0)
{
	if (!n) return 0;
	switch (s.below(6))
	{
		case 0: return n - 1 - std::min<size_t>(n - 1, s.below(4));
		case 1: return std::min<size_t>(n - 1, s.below(4));
		case 2: { static const size_t B[] = {8096, 4096, 1024, 16192, 256, 8192, 65536, 32768}; size_t b = B[s.below(8)]; size_t k = (n / b) ? (1 + s.below(n / b)) * b : 0; size_t p = k + s.below(5); p = p >= 2 ? p - 2 : 0; return std::min(p, n - 1); }
		case 3: { size_t p = extra + s.below(5); p = p >= 2 ? p - 2 : 0; return std::min(p, n - 1); }
		default: return s.below(n);
	}
}
static str edit(Src& s, str& t, bool lines, size_t extra = 0)
{
	auto oddc = [&] { char c = s.ch(ODD); if (!lines && (c == '\r' || c == '\n')) c = 'q'; return c; };
	size_t p = position(s, t.size(), extra);
	switch (s.below(8))
	{
		case 0: if (!t.empty()) { t[p] = t[p] == 'x' ? 'y' : 'x'; return fmt("byte %zu replaced", p); } // fall through
		case 1: t.insert(t.begin() + (long)p, oddc()); return fmt("byte inserted at %zu", p);
		case 2: if (!t.empty()) { t.erase(p, 1); return fmt("byte %zu removed", p); } return "nothing";
		case 3: if (!t.empty()) { t[p] = (char)(t[p] ^ (1 << s.below(8))); if (!lines && (t[p] == '\r' || t[p] == '\n')) t[p] = 'r'; return fmt("bit of byte %zu flipped", p); } return "nothing";
		case 4: { str w = word(s); t.insert(p, w); return fmt("text inserted at %zu", p); }
		case 5: if (t.size() > 1) { size_t q = position(s, t.size()); std::swap(t[p], t[q]); return fmt("bytes %zu and %zu swapped", p, q); } return "nothing";
		case 6: { size_t n = 1 + s.below(8); t.erase(p, n); return fmt("%zu bytes removed at %zu", n, p); }
		default: if (!t.empty()) { t[p] = oddc(); return fmt("byte %zu replaced", p); } return "nothing";
	}
}
static str edit_header(Src& s, str& h)
{
	// keep the folding: edit one line's text
	strs l; size_t at = 0, p;
	while ((p = h.find("\r\n", at)) != str::npos) { l.push_back(h.substr(at, p - at)); at = p + 2; }
	l.push_back(h.substr(at));
	str& x = l[s.below(l.size())]; str w = edit(s, x, false);
	if (x.empty()) x = " ";
	for (auto& c : x) if (c == '\r' || c == '\n') c = 'n';
	h.clear(); for (size_t i = 0; i < l.size(); ++i) { if (i && l[i][0] != ' ' && l[i][0] != '\t') l[i].insert(0, 1, ' '); h += (i ? "\r\n" : "") + l[i]; }
	if (h[0] == ' ' || h[0] == '\t') h[0] = 'X';
	return w;
}
static long pick_sig(Src& s, const Message& m, bool arc)
{
	std::vector<long> v; for (size_t i = 0; i < m.headers.size(); ++i) if (has_name(m.headers[i], arc ? "arc-message-signature" : "dkim-signature")) v.push_back((long)i);
	return v.empty() ? -1 : v[s.below(v.size())];
}
// replaces the value of a tag; false if there is no such tag
static bool set_tag(str& h, const str& name, const str& val)
{
	size_t c = h.find(':'); if (c == str::npos) return false; ++c;
	std::vector<ref::Tag> t; ref::taglist(h.substr(c), t); const ref::Tag* x = ref::find(t, name); if (!x) return false;
	h.replace(c + x->begin, x->end - x->begin, val); return true;
}
static str get_tag(const str& h, const str& name)
{
	size_t c = h.find(':'); if (c == str::npos) return ""; std::vector<ref::Tag> t; ref::taglist(h.substr(c + 1), t); const ref::Tag* x = ref::find(t, name); return x ? x->value : "";
}
static bool drop_tag(str& h, const str& name)
{
	size_t c = h.find(':'); if (c == str::npos) return false; ++c;
	std::vector<ref::Tag> t; ref::taglist(h.substr(c), t); const ref::Tag* x = ref::find(t, name); if (!x) return false;
	str v = h.substr(c); size_t e = x->end < v.size() ? x->end + 1 : x->end; size_t b = x->begin; while (b && v[b - 1] != ';') --b;
	v.erase(b, e - b); h = h.substr(0, c) + v; return true;
}
str tamper(Src& s, Message& m, bool arc)
{
	auto anyhdr = [&] { size_t big = 0; for (size_t i = 1; i < m.headers.size(); ++i) if (m.headers[i].size() > m.headers[big].size()) big = i; if (m.headers[big].size() > 10000 && s.coin()) return big; return (size_t)s.below(m.headers.size()); };
	long si = pick_sig(s, m, arc); str* sg = si >= 0 ? &m.headers[(size_t)si] : nullptr;
	auto signedname = [&]() -> str {
		strs l; if (sg) ref::colonlist(get_tag(*sg, "h"), l);
		return l.empty() ? hname(s) : l[s.below(l.size())];
	};
	switch (s.weighted({6, 3, 3, 3, 8, 3, 12}))
	{
		case 0: { size_t i = anyhdr(); str n = name_of(m.headers[i]); return "header " + n + ": " + edit_header(s, m.headers[i]); }
		case 1: { size_t i = anyhdr(); str n = name_of(m.headers[i]); if (m.headers.size() > 1) m.headers.erase(m.headers.begin() + (long)i); return "header " + n + " removed"; }
		case 2: { size_t i = anyhdr(), j = anyhdr(); std::swap(m.headers[i], m.headers[j]); return fmt("headers %zu and %zu swapped", i, j); }
		case 3:
		{
			size_t at = s.below(m.headers.size() + 1); str h;
			if (s.coin()) { h = m.headers[anyhdr()]; if (s.coin()) edit_header(s, h); } else h = randcase(s, signedname()) + ":" + hvalue(s);
			if (h.empty() || h[0] == ' ' || h[0] == '\t') h = "X" + h;
			m.headers.insert(m.headers.begin() + (long)at, h); return "header " + name_of(h) + fmt(" added at %zu", at);
		}
		case 4:
		{
			if (!m.sep) { m.sep = true; m.body = body(s); return "body added"; }
			size_t lim = sg ? strtoul(get_tag(*sg, "l").c_str(), nullptr, 10) : 0; str w;
			switch (s.below(5))
			{
				case 0: { str x = word(s) + (s.coin() ? "\r\n" : ""); m.body += x; w = "body: text appended"; } break;
				case 1: { size_t p = position(s, m.body.size(), lim); m.body.resize(p); w = fmt("body cut at %zu", p); } break;
				default: w = "body: " + edit(s, m.body, true, lim);
			}
			if (sg && s.chance(1, 3))
			{
				// the attacker fits the body hash, so only the signature protects
				ref::Hdr h; h.raw = *sg; h.value = sg->find(':') + 1; h.name = arc ? "arc-message-signature" : "dkim-signature"; h.colon = true;
				ref::Sig r = ref::parse_sig(h, 0); if (r.v == ref::REJECT) return w;
				str cb = ref::canon_body(m.body, r.brelaxed); if (r.limited) cb = cb.substr(0, r.limit);
				set_tag(*sg, "bh", ref::b64enc(ref::digest(cb, r.sha256))); w += ", bh= fitted";
			}
			return w;
		}
		case 5: { size_t i = anyhdr(); str h = m.headers[i]; m.headers.erase(m.headers.begin() + (long)i); m.headers.insert(m.headers.begin() + (long)s.below(m.headers.size() + 1), h); return "header " + name_of(h) + " moved"; }
		default: break;
	}
	if (!sg) return "nothing";
	static const char* T[] = {"b", "h", "bh", "d", "s", "a", "c", "l", "t", "x", "i", "v"};
	str t = T[s.weighted({6, 6, 3, 2, 2, 2, 3, 3, 2, 2, 2, 1})], old = get_tag(*sg, t);
	if (s.chance(1, 8)) { drop_tag(*sg, t); return "tag " + t + " removed"; }
	str nv = old;
	if (t == "b" || t == "bh")
	{
		str d; ref::b64dec(old, d);
		switch (s.below(5))
		{
			case 0: if (!d.empty()) d[position(s, d.size())] ^= (char)(1 << s.below(8)); break;
			case 1: d.resize(d.empty() ? 0 : position(s, d.size())); break;
			case 2: d += s.coin() ? str(1, '\0') : s.bytes(4); break;
			case 3: d.insert(0, 1, '\0'); break;
			default: { long o = pick_sig(s, m, arc); str e; ref::b64dec(get_tag(m.headers[(size_t)o], t), e); d = e; if ((long)o == si && !d.empty()) d = str(d.size(), '\0'); } break;
		}
		nv = ref::b64enc(d);
	}
	else if (t == "h")
	{
		strs l; ref::colonlist(old, l); if (l.empty()) return "nothing";
		switch (s.below(4))
		{
			case 0: l.erase(l.begin() + (long)s.below(l.size())); break;
			case 1: l.insert(l.begin() + (long)s.below(l.size() + 1), s.coin() ? hname(s) : l[s.below(l.size())]); break;
			case 2: std::swap(l[s.below(l.size())], l[s.below(l.size())]); break;
			default: { str& x = l[s.below(l.size())]; x = randcase(s, x); } break;
		}
		nv.clear(); for (auto& x : l) nv += (nv.empty() ? "" : ":") + x;
	}
	else if (t == "a") nv = s.pickv<str>({"rsa-sha256", "rsa-sha1", "ed25519-sha256", "ed25519-sha1", "rsa"});
	else if (t == "c") nv = s.pickv<str>({"simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed", "simple", "relaxed"});
	else if (t == "d" || t == "s") nv = s.below(3) == 0 ? randcase(s, old) : s.below(2) ? "x." + old : domain(s);
	else if (t == "l" || t == "t" || t == "x")
	{
		str cb = ref::canon_body(m.sep ? m.body : "", get_tag(*sg, "c").find("/relaxed") != str::npos);
		nv = t == "l" ? std::to_string(s.below(3) ? s.below(cb.size() + 1) : (unsigned long)cb.size()) : std::to_string(s.below(5000000000ULL));
	}
	else if (t == "i") nv = s.coin() ? word(s) + "@" + get_tag(*sg, "d") : old + "x";
	else nv = s.pickv<str>({"1", "2", "0", "01", "1.0"});
	if (!set_tag(*sg, t, nv)) { if (t == "c" || t == "l" || t == "t" || t == "x" || t == "i") *sg += (ref::strip_wsp(*sg).back() == ';' ? str(" ") : str("; ")) + t + "=" + nv; }
	return "tag " + t + "=" + nv;
}
str neutral(Src& s, Message& m, bool arc, bool hrel, bool brel)
{
	auto anyrun = [&](bool fold) -> str { str f; do f = fold && s.coin() ? wsp(s, 0) + "\r\n" + wsp(s, 1) : wsp(s, 1); while (f.empty()); return f; };
	switch (s.weighted({2, 3, 4, 3, 3, 3, 5}))
	{
		case 0: m.eol = (int)s.below(3); return "line ends of the header block";
		case 1: // line ends of the body
		{
			if (!m.sep) return "nothing";
			str b; int mode = (int)s.below(3);
			for (char c : m.body) if (c == '\r') { if (mode == 2 && s.coin()) b += c; } else if (c == '\n') b += mode == 0 || (mode == 2 && s.coin()) ? str("\r\n") : str("\n"); else b += c;
			m.body = b; return "line ends of the body";
		}
		case 2: // trailing empty lines
		{
			if (!m.sep) { if (s.coin()) m.sep = true; return "separator line added"; }
			if (s.below(4) == 0) { while (!m.body.empty() && (m.body.back() == '\r' || m.body.back() == '\n' || (brel && (m.body.back() == ' ' || m.body.back() == '\t')))) m.body.pop_back(); return "trailing lines removed"; }
			size_t n = 1 + s.size(s.chance(1, 8) ? 9000 : 5); for (size_t i = 0; i < n && m.body.size() < 100000; ++i) { if (brel && s.below(4) == 0 && m.body.size() && (m.body.back() == '\n' || s.coin())) m.body += wsp(s, 1); m.body += s.coin() ? "\r\n" : "\n"; }
			return "trailing lines added";
		}
		case 3: // unsigned header
		{
			str h = s.pickv<str>({"X-Unsigned-1", "Authentication-Results", "Zz", "X-Spam-Score", "Return-Path", "ARC-Seal"}) + ":" + hvalue(s);
			if (s.chance(1, 6)) h = s.coin() ? "DKIM-Signature: v=1; a=rsa-sha256; d=other.example; s=q; h=from; bh=; b=AAAA" : "nocolonhere";
			m.headers.insert(m.headers.begin() + (long)s.below(m.headers.size() + 1), h); return "header added";
		}
		case 4: // reorder fields of different names
		{
			for (int k = 0; k < 4 && m.headers.size() > 1; ++k) { size_t i = s.below(m.headers.size() - 1); if (name_of(m.headers[i]) != name_of(m.headers[i + 1])) std::swap(m.headers[i], m.headers[i + 1]); }
			return "headers reordered";
		}
		case 5:
		{
			if (!m.sep) return "nothing";
			{ long q = pick_sig(s, m, arc); if (q < 0 || get_tag(m.headers[(size_t)q], "l").empty()) { m.body += s.coin() ? "\r\n" : "\n"; return "line end appended to the body"; } }
			m.body += s.coin() ? word(s) : "\r\n" + word(s) + "\r\n"; return "text appended to the body";
		}
		default: break;
	}
	if (hrel && (s.coin() || !brel))
	{
		size_t n = 1 + s.below(4);
		for (size_t k = 0; k < n; ++k)
		{
			str& h = m.headers[s.below(m.headers.size())]; size_t c = h.find(':'); if (c == str::npos) continue;
			switch (s.below(4))
			{
				case 0: { str nm = h.substr(0, c); nm = randcase(s, nm); h = nm + h.substr(c); } break;
				case 1: { str nm = h.substr(0, c); if (nm.find_first_of("\r\n") != str::npos) break; while (!nm.empty() && (nm.back() == ' ' || nm.back() == '\t')) nm.pop_back(); if (nm.empty()) break; h = nm + (s.coin() ? wsp(s, 0) : "") + h.substr(c); } break;
				case 2: { str v = h.substr(c + 1); size_t a = v.find_first_not_of(" \t\r\n"); if (a == str::npos) break; h = h.substr(0, c + 1) + (s.coin() ? fws(s) : "") + v.substr(a); if (s.coin()) h += fws(s); } break;
				default:
				{
					str o = h.substr(0, c + 1);
					for (size_t i = c + 1; i < h.size();)
						if (h[i] == ' ' || h[i] == '\t' || h[i] == '\r') { size_t j = i; while (j < h.size() && (h[j] == ' ' || h[j] == '\t' || h[j] == '\r' || h[j] == '\n')) ++j; o += s.coin() ? anyrun(true) : h.substr(i, j - i); i = j; }
						else o += h[i++];
					h = o;
				}
			}
		}
		return "header respaced";
	}
	if (brel && m.sep)
	{
		str o; size_t edits = 0;
		for (size_t i = 0; i < m.body.size();)
			if (m.body[i] == ' ' || m.body[i] == '\t')
			{
				size_t j = i; while (j < m.body.size() && (m.body[j] == ' ' || m.body[j] == '\t')) ++j;
				bool at_end = j >= m.body.size() || m.body[j] == '\r' || m.body[j] == '\n';
				if (edits < 60 && s.coin()) { ++edits; o += at_end ? wsp(s, 0) : wsp(s, 1); } else o += m.body.substr(i, j - i);
				i = j;
			}
			else if ((m.body[i] == '\n' || m.body[i] == '\r') && edits < 60 && s.below(4) == 0) { ++edits; o += wsp(s, 1); o += m.body[i++]; }
			else o += m.body[i++];
		m.body = o; return "body respaced";
	}
	return "nothing";
}
} // namespace gen
