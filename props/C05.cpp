#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C05";
const char* const prop_rule = "random messages x random signing options; every produced field is checked for its format, parsed and verified by the reference, and each tag compared with the option it comes from; non-trivial: a signature was produced and checked; distinct by message and options";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000);
	gen::Message m = gen::message(s); gen::Cfg g = gen::cfg(s, m, true, now); gen::Signed r = gen::sign(s, m, g, now);
	c.note("options", g.text()); c.note("message", printable(r.msg, 1500));
	if (!r.out.pass()) { REQUIRE(gen::refusable(m, g), "signing failed: " + r.out.what); return; }
	c.note("signature", printable(r.sig, 2500));
	// format
	const str& t = r.sig;
	REQUIRE(!t.empty() && t.back() != '\n' && t.back() != '\r', "line end at the end");
	size_t fields = 0, at = 0;
	while (at <= t.size())
	{
		size_t e = t.find("\r\n", at); str line = t.substr(at, e == str::npos ? str::npos : e - at);
		for (unsigned char ch : line) REQUIRE((ch >= 32 && ch < 127) || ch == '\t', fmt("byte 0x%02x in the field", ch));
		REQUIRE(!ref::strip_wsp(line).empty(), "empty line in the field");
		if (line[0] != '\t' && line[0] != ' ') { ++fields; REQUIRE(line.compare(0, r.arc ? 23 : 16, r.arc ? "ARC-Message-Signature: " : "DKIM-Signature: ") == 0, "unexpected field: " + line.substr(0, 60)); }
		if (line.size() > 998)
		{
			// only a single value (no place to fold) may do this
			std::istringstream w(line); str x; size_t longest = 0; while (w >> x) longest = std::max(longest, x.size());
			REQUIRE(longest + 300 > 998, fmt("line of %zu octets", line.size()));
		}
		if (e == str::npos) break;
		at = e + 2;
	}
	REQUIRE(fields == g.sigs.size(), fmt("%zu fields for %zu signatures", fields, g.sigs.size()));
	// content, by the reference
	ref::Msg rm = ref::split(r.full);
	// what is signed: fields of the message bottom-up, then the oversigned names
	strs sel = g.selected(), want;
	auto valid = [](const str& n) { for (unsigned char ch : n) if (ch != '\t' && (ch < ' ' || ch > '~' || ch == ';')) return false; return !n.empty(); };
	ref::Msg om = ref::split(r.msg); strs over; for (auto& o : g.over) over.push_back(ref::lower(o));
	for (size_t i = om.headers.size(); i-- > 0;)
	{
		str n = ref::lower(om.headers[i].name); if (!valid(n)) continue;
		if (g.hmode == 2 || std::find(sel.begin(), sel.end(), n) != sel.end() || std::find(over.begin(), over.end(), n) != over.end()) want.push_back(n);
	}
	for (auto& o : over) want.push_back(o);
	bool odd = g.hmode == 2; // names with blanks inside need no exact comparison
	std::sort(want.begin(), want.end());
	for (size_t k = 0; k < fields; ++k)
	{
		const gen::SigReq& q = g.sigs[fields - 1 - k]; const ref::Pair& key = ref::keys()[q.key];
		ref::Sig sg = ref::parse_sig(rm.headers[k], now);
		REQUIRE(sg.v != ref::REJECT, "the reference rejects the field: " + sg.why);
		std::vector<ref::Tag> tags; ref::taglist(rm.headers[k].raw.substr(rm.headers[k].value), tags);
		auto val = [&](const str& n) -> str { auto x = ref::find(tags, n); return x ? x->value : str("(none)"); };
		auto is = [&](const str& n, const str& v) { REQUIRE(val(n) == v, "tag " + n + "=" + val(n) + ", expected " + v); };
		if (r.arc) { REQUIRE(!ref::find(tags, "v"), "v= in an ARC signature"); is("i", std::to_string(g.arc)); } else is("v", "1");
		is("a", str(key.ed ? "ed25519" : "rsa") + (g.sha256 ? "-sha256" : "-sha1"));
		is("c", str(g.hrel ? "relaxed" : "simple") + "/" + (g.brel ? "relaxed" : "simple"));
		is("d", q.dom); is("s", q.sel);
		long long ts = g.tsv == -1 ? now : g.tsv;
		is("t", g.ts ? std::to_string(ts) : "(none)");
		is("x", g.ex ? std::to_string(g.exv + (g.exabs ? 0 : g.ts ? ts : now)) : "(none)");
		is("l", g.limited ? std::to_string(g.limit) : "(none)");
		if (!r.arc)
		{
			if (!g.has_identity || g.identity.empty()) is("i", "(none)");
			else { str dec; REQUIRE(ref::qpdec(val("i"), dec) == ref::ACCEPT, "i= is no quoted-printable"); REQUIRE(dec == g.identity, "i= states " + printable(dec)); }
		}
		bool exceeds; str body = ref::canon_body(m.sep ? m.body : "", g.brel); if (g.limited && g.limit < body.size()) body.resize(g.limit); (void)exceeds;
		is("bh", ref::b64enc(ref::digest(body, g.sha256)));
		strs h = sg.h; for (auto& x : h) x = ref::lower(x);
		std::sort(h.begin(), h.end());
		if (!odd || sg.v == ref::ACCEPT) { str a, b; for (auto& x : h) a += x + ":"; for (auto& x : want) b += x + ":"; REQUIRE(h == want, "h= lists " + printable(a) + " expected " + printable(b)); }
		for (auto& x : tags) REQUIRE(str(" v i a c t x d s l h bh b ").find(" " + x.name + " ") != str::npos, "unexpected tag " + x.name);
		REQUIRE(sg.b.size() == (key.ed ? 64u : (size_t)(key.bits + 7) / 8), "length of the signature value");
		ref::Dns d; d.rec = ref::key_record(key);
		ref::Result rr = ref::verify(rm, k, d, now);
		c.label(str("reference:") + ref::stage_name(rr.st));
		if (rr.st != ref::ST_UNSPEC) REQUIRE(rr.st == ref::ST_PASS, str("the reference does not verify it: ") + ref::stage_name(rr.st) + " " + rr.why);
	}
	c.nontrivial(r.msg + g.text());
}
