#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C11";
const char* const prop_rule = "signature fields (DKIM and ARC) built tag by tag, each tag valid, absent, duplicated, in other letter case or defective, freely formatted; non-trivial: the reference accepts or rejects the field (not unspecified); distinct by field and clock";
void prop_setup() {}
static str b64fold(Src& s, const str& d) { str b = ref::b64enc(d); if (s.chance(1, 3) && b.size() > 1) { size_t n = 1 + s.below(3); for (size_t i = 0; i < n; ++i) b.insert(1 + s.below(b.size() - 1), s.pickv<str>({" ", "\r\n ", "\t", "  "})); } return b; }
void prop_run(Src& s, Ctx& c)
{
	const long long now = 1700000000; pbt::fake_now = now;
	bool arc = s.chance(1, 7); size_t defects = s.weighted({4, 4, 1}); // how many tags get a defect
	str dom = gen::domain(s); bool ed = s.coin();
	struct T { str n, v; bool present; strs bad; };
	std::vector<T> t;
	auto tag = [&](const str& n, bool present, const str& v, strs bad) { t.push_back({n, v, present, bad}); };
	tag("v", !arc || s.chance(1, 6), arc && s.coin() ? "2" : "1", {"2", "", "01", "1.0", "DKIM1", "1 1", "0", "11"});
	tag("a", true, ed ? "ed25519-sha256" : s.coin() ? "rsa-sha256" : "rsa-sha1", {"", "RSA-SHA256", "rsa-sha512", "ed25519-sha1", "rsa", "sha256", "rsa-sha256x", "rsa-sha25", "rsa-sha256 x", "rsa -sha256", "ed25519", "rsa-sha1:rsa-sha256"});
	tag("c", s.coin(), s.pickv<str>({"simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed"}), {"", "Simple", "relaxed/", "/simple", "relaxed/relaxed/simple", "nofws", "simple/nowsp", "relaxed /simple", "relaxed/ simple", "RELAXED/relaxed", "relaxe", "/", "relaxed:simple"});
	tag("d", true, dom, {"", "other.example"});
	tag("s", true, gen::domain(s), {""});
	{
		strs h; size_t n = s.small(8); if (s.chance(1, 25)) n += s.size(300); for (size_t i = 0; i < n; ++i) { str x = gen::hname(s); if (x.find_first_of(";:") == str::npos) h.push_back(x); }
		str f = gen::randcase(s, "from"); if (s.chance(1, 5)) { f = "from"; for (auto& ch : f) if (s.coin()) ch = (char)toupper(ch); }
		h.insert(h.begin() + (long)s.below(h.size() + 1), f);
		str v, w; for (auto& x : h) { v += (v.empty() ? "" : ":") + x; if (ref::lower(x) != "from") w += (w.empty() ? "" : ":") + x; }
		strs bad = {"", w, w + ":fro", "fromx:" + w, "xfrom", "from::to", ":from", "to: :from", "to:subject", "f rom", "From To"}; if (s.chance(1, 12)) bad.push_back("x:" + str(s.size(4000), 'f') + ":from");
		tag("h", true, v, bad);
	}
	if (arc) tag("i", true, std::to_string(1 + s.below(50)), {"", "0", "51", "00", "-1", "x", "1000", "18446744073709551617", "4294967297", "50", "1", "051", "256", "99999999999999999999999", "1x", "+1", "1 0", "-18446744073709551615", "5.", "0x5"});
	else
	{
		str local = s.below(3) == 0 ? s.bytes(8) : s.str("abc.+@\"", 0, 6), q;
		for (unsigned char ch : local) q += isalnum(ch) || strchr(".+@\"", ch) && ch ? str(1, (char)ch) : fmt("=%02X", ch);
		str dd = gen::randcase(s, dom);
		str dqp; for (char ch : dd) dqp += s.chance(1, 30) ? fmt("=%02X", (unsigned char)ch) : str(1, ch);
		tag("i", s.coin(), q + "@" + s.pickv<str>({"", "", "sub.", "a.B.", "x--y."}) + dqp,
			{"", "user", "u@other.example", "u@x" + dom, "u@" + dom + ".", "u@" + dom + "x", "@", "u@", "u@." + dom, "u@sub" + dom, "u@" + dom.substr(dom.size() / 2), "u=40" + dom, "u=4@" + dom, "u=4a@" + dom, "u=@" + dom, "u@" + dom + "=00", "u@" + dom + "@evil.example", "u@evil.example@" + dom, "u=C3=A5@" + dom, "u\x01@" + dom, "u=3b@" + dom, "u@sub=2E" + dom, "u@evil.example=40" + dom, "u@" + dom + "=40x.example", "u u@" + dom});
	}
	tag("l", s.chance(1, 3), s.pickv<str>({"0", "1", "42", "007", "4294967296", "9223372036854775807", "000000000000000000000000000000000000001", "8096"}),
		{"", "-1", "+1", "1x", "x", "0x10", "1 2", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", " ", "1.5", str(77, '0'), str(76, '0'), str(75, '0') + "7", str(76, '9'), str(90, '1'), "- 1", "1e3"});
	tag("q", s.chance(1, 3), s.chance(1, 8) ? gen::many(s, {"dns/txt", "http", "dns"}, 60) : s.pickv<str>({"dns/txt", "dns/txt:http", "http:dns/txt", "a:b:dns/txt:c", "dns/txt:dns/txt"}), {"", "dns", "http", "dns/txtx", "DNS/TXT", "dns/ txt", "dns:txt", "xdns/txt", ":dns/txt", "dns/txt::x", "dns/tx"});
	tag("t", s.chance(1, 3), s.pickv<str>({"1700000000", "0", "1", "9999999999", "1699999999"}), {"", "x", "-1"});
	{
		long long x = now + (long long)s.size(100000000); str v = s.below(8) ? std::to_string(x) : s.pickv<str>({"1700000000", "1700000001", "999999999999", "01700000000", "9223372036854775807"});
		tag("x", s.chance(1, 3), v, {"1699999999", "0", "1", "170000000", "01699999999", "-1", "", "x", "9999999999x", "+9999999999", "-18446744073609551616", "9999 999999", "1e11"});
	}
	{
		str d = s.below(8) == 0 ? s.bytes(300) + "x" : str(s.pickv<size_t>({64, 128, 129, 256, 20, 1}), (char)s.below(256));
		tag("b", true, b64fold(s, d), {"", "AA", "AAA", "AA==", "A", "====", "AA=A", "!!!!", "AAAA AAAA", " "});
		str e = s.below(3) ? ref::digest("x", s.coin()) : s.bytes(40);
		tag("bh", true, b64fold(s, e), {"", "AA", "A", "====", "?"});
	}
	if (s.chance(1, 4)) tag(s.pickv<str>({"z", "r", "B", "H", "V", "bhh", "hb", "n1", "A", "D_1"}), true, s.pickv<str>({"", "x y", "a=b", "1"}), {"\x01", "\x80"});
	for (size_t k = 0; k < defects; ++k)
	{
		T& x = t[s.below(t.size())];
		switch (s.below(5))
		{
			case 0: x.present = false; break;
			case 1: { T y = x; y.present = true; t.push_back(y); } break;
			case 2: { for (auto& ch : x.n) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch)); } break;
			default: x.present = true; gen::odd(s, x.v, x.bad, x.n == "h" || x.n == "q");
		}
	}
	std::vector<std::pair<str, str>> tags; for (auto& x : t) if (x.present) tags.push_back({x.n, x.v});
	for (size_t i = tags.size(); i > 1; --i) if (s.below(3)) std::swap(tags[i - 1], tags[s.below(i)]);
	str raw = gen::randcase(s, arc ? "ARC-Message-Signature" : "DKIM-Signature") + (s.chance(1, 10) ? " :" : ":") + gen::format_tags(s, tags, {"h", "q"});
	if (s.chance(1, 25)) raw.insert(raw.find(':') + 1 + s.below(raw.size() - raw.find(':')), s.pickv<str>({";", "=", ";;", "x", " ", "\x7f"}));
	ref::Msg m = ref::split(raw + "\r\n\r\n"); if (m.headers.empty() || !m.headers[0].colon) return;
	ref::Sig want = ref::parse_sig(m.headers[0], now);
	std::istringstream in(raw + "\r\n\r\n"); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	REQUIRE(v.GetSignatures().size() == 1, "the signature field is not listed");
	DKIM::Signature g; if (s.chance(1, 4)) { lib::guard(0, [&] { DKIM::Header hh; auto p = std::make_shared<DKIM::Header>(); p->ParseLine("DKIM-Signature: v=1; d=old.example; a=rsa-sha1; c=relaxed/relaxed; h=from:x; i=u@old.example; l=7; s=o; b=QUFB; bh=QUFB"); g.Parse(p); }); g.Reset(); }
	c.note("field", printable(raw)); c.note("reference", want.v == ref::ACCEPT ? "accepts" : want.v == ref::REJECT ? "rejects: " + want.why : "unspecified");
	lib::Out o = lib::guard(1, [&] { g.Parse(v.GetSignatures().front()); });
	c.note("library", o.pass() ? "accepted" : o.what); c.label(want.v == ref::ACCEPT ? "accepted" : want.v == ref::REJECT ? "rejected: " + want.why : "unspecified");
	if (want.v == ref::UNSPEC) { REQUIRE(o.pass() || o.cls == "permerror", "class " + o.cls); return; }
	c.nontrivial(raw);
	if (want.v == ref::REJECT) { REQUIRE(!o.pass(), "accepted although: " + want.why); REQUIRE(o.cls == "permerror" && o.what.compare(0, 9, "Permanent") == 0, "not a permanent error: " + o.cls + " " + o.what); return; }
	REQUIRE(o.pass(), "refused: " + o.what);
	REQUIRE(g.IsARC() == arc, "ARC or not");
	REQUIRE(g.GetDomain() == want.d, "domain " + printable(g.GetDomain())); REQUIRE(g.GetSelector() == want.s, "selector " + printable(g.GetSelector()));
	REQUIRE((g.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519) == want.ed, "signature algorithm"); REQUIRE((g.GetDigestAlgorithm() == DKIM::DKIM_A_SHA256) == want.sha256, "hash algorithm");
	REQUIRE((g.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED) == want.hrelaxed, "header canonicalization"); REQUIRE((g.GetCanonModeBody() == DKIM::DKIM_C_RELAXED) == want.brelaxed, "body canonicalization");
	REQUIRE(g.GetBodySizeLimit() == want.limited && (!want.limited || g.GetBodySize() == want.limit), fmt("body length %lu", g.GetBodySize()));
	REQUIRE(strs(g.GetSignedHeaders().begin(), g.GetSignedHeaders().end()) == want.h, "signed header fields");
	REQUIRE(g.GetQueryType() == DKIM::Signature::DKIM_Q_DNSTXT, "query type");
	REQUIRE(g.GetSignatureData() == want.b, "signature data"); REQUIRE(g.GetBodyHash() == want.bh, "body hash");
	if (arc) REQUIRE(g.GetARCInstance() == want.arc_i, fmt("instance %lu", g.GetARCInstance()));
	else { REQUIRE(g.GetMailLocalPart() == want.ilocal, "local part " + printable(g.GetMailLocalPart())); REQUIRE(g.GetMailDomain() == want.idomain, "identity domain " + printable(g.GetMailDomain())); }
	std::vector<ref::Tag> all; ref::taglist(m.headers[0].raw.substr(m.headers[0].value), all);
	for (auto& x : all) { DKIM::TagListEntry e; REQUIRE(g.GetTag(x.name, e) && e.GetValue() == x.value, "tag " + x.name + " not kept"); }
}
