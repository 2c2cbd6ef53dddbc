#include "../model/lib.hpp"
#include <src/QuotedPrintable.hpp>
using DKIM::Conversion::QuotedPrintable;
const char* const prop_id = "C20";
const char* const prop_rule = "byte strings encoded and decoded back; texts of safe characters, escapes and folding white space, valid and with defects, decoded in both modes and compared with the reference; non-trivial: accepted or rejected by the reference and not empty; distinct by text and mode";
void prop_setup() {}
void prop_run(Src& s, Ctx& c)
{
	if (s.coin())
	{
		str d = s.below(4) == 0 ? str(s.size(3000), (char)s.below(256)) : s.bytes(60); str e = QuotedPrintable::Encode(d); c.note("bytes", printable(d)); c.note("encoded", printable(e)); c.label("round trip");
		for (size_t i = 0; i < e.size(); ++i)
		{
			unsigned char ch = (unsigned char)e[i]; REQUIRE(ch > 32 && ch < 127 && ch != ';', fmt("unsafe character 0x%02x", ch));
			if (ch == '=') { auto hx = [&](size_t k) { return k < e.size() && (isdigit((unsigned char)e[k]) || (e[k] >= 'A' && e[k] <= 'F')); }; REQUIRE(hx(i + 1) && hx(i + 2), "broken escape"); i += 2; }
		}
		str r; REQUIRE(ref::qpdec(e, r) == ref::ACCEPT && r == d, "the reference decodes another string: " + printable(r)); str b = QuotedPrintable::Decode(e); REQUIRE(b == d, "decoded: " + printable(b));
		// in a tag list it must survive as one value
		std::vector<ref::Tag> t; if (!e.empty()) { ref::taglist("i=" + e, t); REQUIRE(t.size() == 1 && t[0].value == e, "does not survive in a tag list"); }
		if (!d.empty()) c.nontrivial("r" + d); return;
	}
	bool us = s.coin(); str t; size_t n = s.small(20);
	for (size_t i = 0; i < n; ++i)
		switch (s.weighted({6, 6, 2, 2}))
		{
			case 0: t += s.str("abcXYZ019!\"#$%&'()*+,-./:<>?@[\\]^`{|}~", 1, 8); break;
			case 1: t += s.coin() ? fmt("=%02X", (unsigned)s.below(256)) : "=" + s.str("0123456789ABCDEF", 2, 2); break;
			case 2: t += gen::fws(s); break;
			default: t += "_";
		}
	if (s.chance(1, 2))
	{
		size_t at = s.below(t.size() + 1);
		switch (s.below(4)) { case 0: t.insert(at, s.pickv<str>({"=", ";", "=4", "=4g", "=a0", "=0a", "=G0", "\x7f", "\x80", "\xff", "\r\n", "\r", "\n", "\r\n\r\n ", "==", "= 4", "=4 1", str(1, '\0'), "\x01", "=/0", "=:0", "=@1", "=0@", "\x1f"})); break; case 1: if (at < t.size()) t.erase(at, 1); break; case 2: t.resize(at); break; default: if (at < t.size()) t[at] = (char)s.below(256); }
	}
	str want; ref::Verdict v;
	if (us)
	{
		// the same, but '_' is a space and ';' is itself
		v = ref::ACCEPT; size_t at = 0;
		while (true) { size_t u = t.find_first_of("_;", at); str part = t.substr(at, u == str::npos ? str::npos : u - at), o; ref::Verdict pv = ref::qpdec(part, o); if (pv == ref::REJECT) v = ref::REJECT; else if (pv == ref::UNSPEC && v == ref::ACCEPT) v = ref::UNSPEC; want += o; if (u == str::npos) break; want += t[u] == '_' ? ' ' : ';'; at = u + 1; }
	}
	else v = ref::qpdec(t, want);
	c.note("text", printable(t)); c.note("mode", us ? "encoded word" : "plain"); c.label(v == ref::ACCEPT ? "accepted" : v == ref::REJECT ? "rejected" : "unspecified");
	str got; lib::Out o = lib::guard(0, [&] { got = QuotedPrintable::Decode(t, us); }); c.note("library", o.pass() ? printable(got) : o.what);
	if (v == ref::UNSPEC) return;
	REQUIRE(o.pass() == (v == ref::ACCEPT), o.pass() ? "accepted as " + printable(got) : o.what);
	if (o.pass()) REQUIRE(got == want, "decoded as " + printable(got) + ", expected " + printable(want)); else REQUIRE(o.cls == "permerror", o.cls);
	if (!t.empty()) c.nontrivial((us ? "u" : "p") + t);
}
