#include "../model/lib.hpp"
#include <src/EncodedWord.hpp>
const char* const prop_id = "C21";
const char* const prop_rule = "texts of well-formed encoded words (Q and B in both letter cases, any charset, any bytes), malformed ones and ordinary words, separated by blanks and folds, compared with the text built alongside; non-trivial: at least one encoded word, well-formed or malformed; distinct by text";
void prop_setup() {}
static str qenc(Src& s, const str& d)
{
	str r; bool all = s.chance(1, 6);
	for (unsigned char c : d)
	{
		if (c == ' ' && s.below(3)) { r += '_'; continue; }
		bool safe = c > 32 && c < 127 && c != '=' && c != '?' && c != '_';
		if (!safe || all || s.chance(1, 12)) r += fmt("=%02X", c); else r += (char)c;
	}
	return r;
}
void prop_run(Src& s, Ctx& c)
{
	str in, want; size_t n = s.small(8) + (s.chance(1, 80) ? s.size(80) : 0), words = 0, bad = 0;
	auto blank = [&](str& w) { w.clear(); str r; size_t k = 1 + s.below(3); for (size_t i = 0; i < k; ++i) { if (s.chance(1, 3)) r += "\r\n"; str b = gen::wsp(s, 1); r += b; w += b; } return r; };
	str w;
	if (s.chance(1, 4)) in += blank(w);
	bool first = true;
	for (size_t i = 0; i < n; ++i)
	{
		w.clear(); if (!first) in += blank(w);
		first = false;
		switch (s.weighted({6, 4, 3}))
		{
			case 0:
			{
				++words; str d = s.below(3) ? s.str("abcXYZ 019=?_;.\"<@>", 0, 14) : s.bytes(20); if (s.chance(1, 30)) d = str(s.size(2000), s.ch("x \xff"));
				bool q = s.coin(); str e = q ? qenc(s, d) : ref::b64enc(d);
				static const str CH = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_*.+=!#"; str cs = s.below(3) ? s.pickv<str>({"utf-8", "UTF-8", "ISO-8859-1", "us-ascii", "utf-8*en", "windows-1252", "q", "b", "8859-1", "="}) : s.str(CH, 1, 12);
				in += "=?" + cs + "?" + s.pickv<str>(q ? std::initializer_list<str>{"q", "Q"} : std::initializer_list<str>{"b", "B"}) + "?" + e + "?="; want += d; c.label(q ? "Q word" : "B word");
			} break;
			case 1:
			{
				str t; do t = gen::word(s); while (t.find("=?") != str::npos || t.find("?=") != str::npos || t[0] == '?'); in += t; want += w + t; c.label("ordinary word");
			} break;
			default:
			{
				++bad; str t = s.pickv<str>({"=?utf-8?x?abc?=", "=?utf-8?qq?abc?=", "=?utf-8??abc?=", "=?utf-8?q?abc", "=?utf-8?q?abc?", "=?utf-8?q", "=?utf-8?", "=?utf-8", "=?", "=", "==", "=?=", "=??=", "=???=", "=?utf-8?q?=4?=", "=?utf-8?q?=zz?=", "=?utf-8?Q?=3d?=", "=?utf-8?q?a?=x", "=?utf-8?q?a?=,", "=?utf-8?b?QUFB?=x", "=?utf-8?q?a?b?=", "=?utf-8?q?a?==?utf-8?q?b?=", "=?utf-8?q?a?=?", "=?u?q?\x80?=", "=?utf-8?q?a= ?=", "=a=", "=?x?q?=80\x01?="});
				if (t.find(' ') != str::npos) t.erase(t.find(' '), 1);
				in += t; want += w + t; c.label("malformed word");
			}
		}
	}
	if (n && s.chance(1, 4)) in += blank(w);
	str got; c.note("text", printable(in)); c.note("expected", printable(want));
	lib::Out o = lib::guard(0, [&] { got = DKIM::Conversion::EncodedWord::Decode(in); }); c.note("library", o.pass() ? printable(got) : o.what);
	REQUIRE(o.pass(), o.what); REQUIRE(got == want, "decoded as " + printable(got) + ", expected " + printable(want));
	if (words + bad) c.nontrivial(in);
}
