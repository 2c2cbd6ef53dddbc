#include "../model/lib.hpp"
#include <netdb.h>
#include <resolv.h>
#include <arpa/nameser.h>
#include <src/Resolver.hpp>
const char* const prop_id = "C16";
const char* const prop_rule = "DNS responses given through a stand-in for res_nquery: well-formed ones (0-3, rarely up to 700 questions, up to 12, rarely up to 2000 answers of any type, compressed and plain names, character-strings of 0-255 octets, authority and additional records), the same truncated or mutated, random octets, and resolver failures; bytes behind the response are filled with junk; non-trivial: at least one answer record, or a malformed response; distinct by response";
static std::string packet; static int retval, herr, calls, lasttype, lastclass; static std::string asked; static unsigned char junk; static bool textjunk;
static int answer(const char* name, int cl, int type, unsigned char* buf, int len, int* err)
{
	++calls; asked = name; lasttype = type; lastclass = cl;
	if (retval < 0) { *err = herr; return -1; }
	size_t n = std::min(packet.size(), (size_t)len); memcpy(buf, packet.data(), n);
	for (size_t i = n; i < (size_t)len && i < n + 2000; ++i) buf[i] = textjunk ? (unsigned char)"\0\0\x10\0\x01\0\0\0\0\0\x04\x03" "evil"[i % 16] : junk;
	return retval ? retval : (int)packet.size();
}
extern "C" {
#undef res_nquery
#undef res_query
#undef res_nsearch
#undef res_search
__attribute__((visibility("default"))) int res_nquery(res_state st, const char* n, int c, int t, unsigned char* b, int l) { int e = 0; int r = answer(n, c, t, b, l, &e); if (r < 0) { st->res_h_errno = e; h_errno = e; } return r; }
__attribute__((visibility("default"))) int __res_nquery(res_state st, const char* n, int c, int t, unsigned char* b, int l) { return res_nquery(st, n, c, t, b, l); }
__attribute__((visibility("default"))) int res_query(const char* n, int c, int t, unsigned char* b, int l) { int e = 0; int r = answer(n, c, t, b, l, &e); if (r < 0) h_errno = e; return r; }
__attribute__((visibility("default"))) int __res_query(const char* n, int c, int t, unsigned char* b, int l) { return res_query(n, c, t, b, l); }
__attribute__((visibility("default"))) int res_nsearch(res_state st, const char* n, int c, int t, unsigned char* b, int l) { return res_nquery(st, n, c, t, b, l); }
__attribute__((visibility("default"))) int __res_nsearch(res_state st, const char* n, int c, int t, unsigned char* b, int l) { return res_nquery(st, n, c, t, b, l); }
__attribute__((visibility("default"))) int res_search(const char* n, int c, int t, unsigned char* b, int l) { return res_query(n, c, t, b, l); }
__attribute__((visibility("default"))) int __res_search(const char* n, int c, int t, unsigned char* b, int l) { return res_query(n, c, t, b, l); }
}
void prop_setup() { ref::keys(); }
namespace {
str be16(unsigned v) { str r; r += (char)(v >> 8); r += (char)v; return r; }
struct Builder {
	Src& s; str p; std::vector<size_t> labels; // offsets a compressed name may point at
	explicit Builder(Src& s_) : s(s_) {}
	void name()
	{
		size_t n = s.below(4), total = 0;
		for (size_t i = 0; i < n; ++i)
		{
			if (!labels.empty() && s.coin()) { p += be16(0xC000 | (unsigned)labels[s.below(labels.size())]); return; }
			size_t l = s.below(12) == 0 ? 63 : 1 + s.below(12); if (total + l > 180) break; total += l + 1;
			if (p.size() < 0x3fff) labels.push_back(p.size());
			p += (char)l; for (size_t k = 0; k < l; ++k) p += (char)(s.below(6) == 0 ? s.below(256) : 'a' + s.below(26));
		}
		if (!labels.empty() && s.chance(1, 4)) { p += be16(0xC000 | (unsigned)labels[s.below(labels.size())]); return; }
		if (p.size() < 0x3fff && s.chance(1, 4)) labels.push_back(p.size());
		p += '\0';
	}
	str txt(str& content)
	{
		str rd; size_t n = 1 + s.small(6);
		bool big = s.chance(1, 12); if (big) n = 40 + s.below(180);
		for (size_t i = 0; i < n && rd.size() + p.size() < 62000; ++i) { size_t l = big && s.below(8) ? 255 : s.below(4) == 0 ? s.pickv<size_t>({0, 255, 254, 128, 127, 1}) : s.small(60); str t; bool bin = s.chance(1, 4); if (bin && l <= 64) for (size_t k = 0; k < l; ++k) t += (char)s.below(256); else { char ch = (char)('!' + s.below(90)); for (size_t k = 0; k < l; ++k) t += (char)(ch + (k % 5)); } rd += (char)l; rd += t; content += t; }
		return rd;
	}
	str other(unsigned& type)
	{
		static const unsigned T[] = {5, 1, 28, 46, 2, 15, 6, 257, 99, 41, 47, 24, 50, 65535, 0, 4112, 17, 15, 272};
		type = T[s.below(sizeof T / sizeof *T)]; if (type == 16) type = 5;
		str c; return s.coin() ? txt(c) : s.bytes(30);
	}
	void rr(unsigned type, const str& rd) { name(); p += be16(type) + be16(s.below(10) ? 1 : 3) + s.pickv<str>({str("\0\0\x0e\x10", 4), str(4, '\xff'), str(4, '\0')}) + be16((unsigned)rd.size()) + rd; }
};
}
void prop_run(Src& s, Ctx& c)
{
	calls = 0; retval = 0; herr = 0; junk = (unsigned char)s.below(256); textjunk = s.coin(); pbt::fake_now = 1700000000;
	size_t kind = s.weighted({10, 2, 6, 2});
	str dom = gen::domain(s); auto query = [&](str& out) { DKIM::Util::Resolver r; out.clear(); return r.GetTXT(dom, out); };
	if (kind == 1)
	{
		retval = -1; herr = s.pickv<int>({TRY_AGAIN, NO_DATA, HOST_NOT_FOUND, NO_RECOVERY}); str r; bool ok = query(r);
		c.note("resolver failure", fmt("h_errno %d", herr)); c.label("resolver failure"); REQUIRE(calls == 1, "one query expected");
		if (herr == TRY_AGAIN) REQUIRE(!ok, "a retryable failure is reported as success");
		if (herr == NO_DATA || herr == HOST_NOT_FOUND) REQUIRE(ok && r.empty(), "no data is no failure");
		c.nontrivial(fmt("%d", herr)); return;
	}
	Builder b(s); str want; size_t nq = s.weighted({6, 1, 1, 1}); nq = nq == 0 ? 1 : nq == 1 ? 0 : nq; if (s.chance(1, 80)) nq = s.size(700); size_t na = s.small(10), txts = 0; bool lookup = false;
	bool many = s.chance(1, 80); if (many) na = s.size(2000);
	b.p = be16((unsigned)s.below(65536)) + be16(0x8180) + be16((unsigned)nq) + str(6, '\0');
	for (size_t i = 0; i < nq; ++i) { b.name(); b.p += be16(16) + be16(1); }
	if (s.chance(1, 4) && kind == 0) { lookup = true; if (!na) na = 1; }
	const ref::Pair& key = ref::keys()[s.below(13)]; str rec = ref::key_record(key), left = rec;
	if (lookup) na = 1 + s.below(3);
	size_t an = 0;
	for (size_t i = 0; i < na && b.p.size() < 60000; ++i)
	{
		if (lookup)
		{
			if (s.chance(1, 3)) { unsigned t; str rd = b.other(t); if (b.p.size() + rd.size() < 50000) { b.rr(t, rd); ++an; } }
			str rd, part = i + 1 == na ? left : left.substr(0, s.below(left.size() + 1)); left.erase(0, part.size());
			do { size_t n = std::min<size_t>(part.size(), s.coin() ? 255 : 1 + s.below(255)); rd += (char)n; rd += part.substr(0, n); part.erase(0, n); } while (!part.empty());
			b.rr(16, rd); ++an; ++txts; continue;
		}
		if (many) { str rd = s.below(4) ? str(1, '\1') + s.ch("abcxyz") : str("\0", 1); if (b.p.size() > 60000) break; if (s.below(8)) { want += rd.substr(1); b.rr(16, rd); ++txts; } else b.rr(5, rd); ++an; continue; }
		if (s.below(3)) { str x, rd = b.txt(x); if (b.p.size() + rd.size() > 65200) continue; want += x; b.rr(16, rd); ++txts; } else { unsigned t; str rd = b.other(t); if (b.p.size() + rd.size() > 65200) continue; b.rr(t, rd); }
		++an;
	}
	if (!lookup && b.p.size() < 65000 && s.chance(1, 60))
	{	// up to the 65535 octets a response can have
		str rd; size_t room = 65535 - b.p.size() - 11 - (s.coin() ? 0 : s.below(1200)); bool text = s.coin(); while (rd.size() < room) { size_t l = std::min<size_t>(255, room - rd.size() - 1); rd += (char)l; rd += str(l, 'f'); if (text) want += str(l, 'f'); }
		b.p += str(1, '\0') + be16(text ? 16 : 65280) + be16(1) + str(4, '\0') + be16((unsigned)rd.size()) + rd; ++an; txts += text; c.label("up to 65535 octets");
	}
	b.p.replace(6, 2, be16((unsigned)an));
	if (b.p.size() < 50000 && s.chance(1, 3)) { str x; size_t na2 = s.below(3), nx = s.below(3); for (size_t i = 0; i < na2 + nx && i < 9; ++i) { if (s.coin()) { str rd = b.txt(x); if (rd.size() < 4000) b.rr(16, rd); else { b.rr(1, "abcd"); } } else { unsigned t; str rd = b.other(t); if (rd.size() > 4000) rd = "x"; b.rr(t, rd); } } b.p.replace(8, 2, be16((unsigned)na2)); b.p.replace(10, 2, be16((unsigned)nx)); }
	REQUIRE(b.p.size() <= 65535, "generator"); packet = b.p;
	if (kind == 0)
	{
		c.note("response", printable(packet, 1200)); c.label(lookup ? "key lookup" : txts ? "answers with TXT" : an ? "answers without TXT" : "no answers"); if (nq != 1) c.label("not one question");
		if (packet.size() > 16000) c.label("response over 16 KB");
		if (lookup)
		{
			DKIM::Signature sig; auto h = std::make_shared<DKIM::Header>(); h->ParseLine("DKIM-Signature: v=1; a=" + str(key.ed ? "ed25519" : "rsa") + "-sha256; d=" + dom + "; s=sel; h=from; bh=QUFB; b=QUFB"); sig.Parse(h);
			std::istringstream in("From: x\r\n\r\n"); DKIM::Validatory v(in); DKIM::PublicKey k; lib::Out o = lib::guard(2, [&] { v.GetPublicKey(sig, k); });
			REQUIRE(o.pass(), "key lookup: " + o.what); REQUIRE(calls == 1, fmt("%d queries", calls)); REQUIRE(asked == "sel._domainkey." + ref::lower(dom), "asked for " + asked); REQUIRE(lasttype == T_TXT && lastclass == C_IN, "query type");
			REQUIRE((k.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519) == key.ed && (!key.ed || k.GetED25519PublicKey() == key.pub), "another key");
		}
		else
		{
			str r; bool ok = query(r); REQUIRE(ok, "a well-formed response is a failure"); REQUIRE(calls == 1 && lasttype == T_TXT && lastclass == C_IN && asked == dom, "query");
			REQUIRE(r == want, fmt("%zu octets, expected %zu: ", r.size(), want.size()) + printable(r.substr(0, 300)) + " / " + printable(want.substr(0, 300)));
		}
		if (an) c.nontrivial(packet);
		return;
	}
	if (kind == 2)
	{
		size_t n = 1 + s.small(5);
		for (size_t i = 0; i < n; ++i)
		{
			size_t at = 12 + (packet.size() > 12 ? s.below(packet.size() - 12) : 0);
			switch (s.below(6))
			{
				case 0: packet.resize(std::max<size_t>(12, at)); break;
				case 1: if (at < packet.size()) packet[at] = (char)s.below(256); break;
				case 2: if (at < packet.size()) packet[at] = s.pickv<char>({'\xc0', '\xff', '\0', '\x3f', '\x40', '\x80'}); break;
				case 3: packet.insert(at > packet.size() ? packet.size() : at, s.bytes(6)); break;
				case 4: packet.replace(4 + 2 * s.below(4), 2, be16(s.pickv<unsigned>({0, 1, 2, 255, 256, 65535, 32768}))); break;
				default: if (at < packet.size()) packet.erase(at, 1 + s.below(4));
			}
		}
	}
	else { packet.resize(12); for (auto& ch : packet) ch = (char)(s.below(3) ? 0 : s.below(256)); packet += s.bytes(80); if (s.coin()) { packet.replace(4, 2, be16((unsigned)s.below(3))); packet.replace(6, 2, be16(1 + (unsigned)s.below(3))); } }
	if (s.chance(1, 30)) { packet.resize(65535, (char)s.below(256)); if (s.coin()) { packet += 'x'; if (s.coin()) retval = 65537 + (int)s.below(100000); } }
	if (s.chance(1, 40))
	{	// the response fills the buffer, and its last record begins in its last octets
		str last = str(s.below(2), '\0') + (s.coin() ? be16(16) + be16(1) + str(4, '\0') + be16(s.pickv<unsigned>({0, 1, 2, 300, 65535})) + str(s.below(3), '\xff') : str("\3www\xc0\x0c")); size_t cut = s.below(last.size() + 1); last.resize(last.size() - cut);
		unsigned rd = (unsigned)(65536 - s.below(2) - 12 - 11 - last.size()); packet = be16(7) + be16(0x8180) + be16(0) + be16(2 + (unsigned)s.below(3)) + str(4, '\0');
		packet += str(1, '\0') + be16(s.coin() ? 16 : 5) + be16(1) + str(4, '\0') + be16(rd); str fill(rd, s.coin() ? '\xff' : '\0'); packet += fill + last; c.label("fills the buffer"); retval = 0;
	}
	if (packet.size() > 65536) packet.resize(65536);
	c.note("response", printable(packet, 1200)); c.label("malformed");
	str r1, r2; bool o1 = query(r1); junk = (unsigned char)~junk; textjunk = !textjunk; bool o2 = query(r2);
	REQUIRE(o1 == o2 && r1 == r2, "the outcome depends on octets behind the response: " + printable(r1.substr(0, 200)) + " / " + printable(r2.substr(0, 200)));
	REQUIRE(r1.size() <= packet.size(), "more text than the response holds");
	c.nontrivial(packet);
}
