#include "../model/lib.hpp"
using namespace DKIM::Tokenizer;
const char* const prop_id = "C23";
const char* const prop_rule = "colon lists of generated elements with folding white space around and inside, empty elements and final colons; white space read at a position of generated text of blanks, CR, LF and other octets, all four kinds, repeatedly on one stream; non-trivial: a list of two or more elements or an expected error, or white space consumed, refused or given back; distinct by text, position and kind";
void prop_setup() {}
namespace {
bool blank(char ch) { return ch == ' ' || ch == '\t'; }
// What is consumed at position p of t: -1 error
long expect(const str& t, size_t p, WhiteSpaceType w)
{
	auto at = [&](size_t k) -> int { return k < t.size() ? (unsigned char)t[k] : -1; };
	switch (w)
	{
		case READ_CRLF: return at(p) != '\r' ? 0 : at(p + 1) == '\n' ? 2 : -1;
		case READ_WSP: return p < t.size() && blank(t[p]) ? 1 : 0;
		case READ_WSP_LOOSE: return p < t.size() && (blank(t[p]) || t[p] == '\r' || t[p] == '\n') ? 1 : 0;
		default:
		{
			size_t q = p; while (q < t.size() && blank(t[q])) ++q;
			if (at(q) != '\r') return (long)(q - p);
			if (at(q + 1) != '\n') return -1;
			size_t z = q + 2; while (z < t.size() && blank(t[z])) ++z;
			return z == q + 2 ? 0 : (long)(z - p);
		}
	}
}
void spaces(Src& s, Ctx& c)
{
	str t; size_t n = s.small(30);
	for (size_t i = 0; i < n; ++i) switch (s.weighted({5, 4, 3, 3, 1, 1})) { case 0: t += ' '; break; case 1: t += s.pickv<str>({"\t", "  ", " \t "}); break; case 2: t += "\r\n"; break; case 3: t += s.pickv<str>({"a", ":", "\xff", "\x0b", "\x0c", str(1, '\0'), "\xa0", "\x85"}); break; case 4: t += "\r"; break; default: t += "\n"; }
	if (s.chance(1, 20)) t += str(s.size(5000), ' ');
	size_t p = s.coin() ? 0 : s.below(t.size() + 1); std::unique_ptr<std::istream> in;
	if (s.coin()) in.reset(new std::istringstream(t)); else in.reset(new std::stringstream(t));
	in->seekg((std::streamoff)p); size_t ops = 1 + s.small(8); c.note("text", printable(t));
	for (size_t k = 0; k < ops; ++k)
	{
		WhiteSpaceType w = s.pickv<WhiteSpaceType>({READ_FWS, READ_CRLF, READ_WSP, READ_WSP_LOOSE}); long want = expect(t, p, w); str got; static const char* N[] = {"CRLF", "WSP", "FWS", "WSP_LOOSE"};
		c.note(fmt("call %zu", k), fmt("%s at %zu: expected %ld", N[w], p, want)); c.label(fmt("%s %s", N[w], want < 0 ? "refused" : want ? "consumed" : "nothing"));
		lib::Out o = lib::guard(0, [&] { got = ReadWhiteSpace(*in, w); });
		bool nt = want != 0 || (w == READ_FWS && p < t.size() && (blank(t[p]) || t[p] == '\r')); if (nt) c.nontrivial(t.substr(p) + char('0' + (int)w));
		if (want < 0) { REQUIRE(o.cls == "permerror", "lone CR accepted: " + printable(got)); return; }
		REQUIRE(o.pass(), o.what); REQUIRE(got == t.substr(p, (size_t)want), "read " + printable(got));
		REQUIRE(!in->bad(), "stream failed"); in->clear(); p += (size_t)want; int nx = in->peek(); REQUIRE(nx == (p < t.size() ? (unsigned char)t[p] : EOF), fmt("next octet is %d", nx));
		in->clear(); REQUIRE((size_t)in->tellg() == p, fmt("position %ld, expected %zu", (long)in->tellg(), p));
		if (s.coin() && p < t.size()) { in->get(); ++p; }
	}
}
}
void prop_run(Src& s, Ctx& c)
{
	if (s.coin()) return spaces(s, c);
	str t; strs want; bool bad = false; size_t n = s.small(12); bool lots = s.chance(1, 60); if (lots) n += s.size(400);
	for (size_t i = 0; i < n; ++i)
	{
		if (i) t += ':';
		t += gen::fws(s); str el; size_t w = 1 + s.small(3); bool empty = s.chance(1, lots ? 800 : 12);
		if (!empty) for (size_t k = 0; k < w; ++k) { if (k) { str f = gen::fws(s); el += f; } el += s.below(6) ? gen::word(s) : s.bytes(4); }
		for (char& ch : el) if (ch == ':') ch = ';';
		// octets that are line ends outside folds: not a list
		str x; for (size_t k = 0; k < el.size(); ++k) { if (el[k] == '\r' && k + 2 < el.size() && el[k + 1] == '\n' && blank(el[k + 2])) { x += "\r\n"; ++k; } else if (el[k] == '\r' || el[k] == '\n') x += '.'; else x += el[k]; }
		el = ref::strip_wsp(x); if (el.empty() && i + 1 < n) bad = true;
		t += el; t += gen::fws(s); if (!el.empty() || i + 1 < n) want.push_back(el);
	}
	if (n && s.chance(1, 6)) { t += ":"; if (!want.empty() && t.size() > 1) { str last = t.substr(0, t.size() - 1); size_t p = last.rfind(':'); if (ref::strip_wsp(p == str::npos ? last : last.substr(p + 1)).empty()) bad = true; } else bad = true; t += gen::fws(s); }
	std::list<str> got; lib::Out o = lib::guard(0, [&] { got = ValueList(t); }); strs gv(got.begin(), got.end());
	c.note("list", printable(t)); auto join = [](const strs& v) { str r; for (auto& x : v) r += "[" + printable(x) + "] "; return r; }; c.note("expected", bad ? "error" : join(want)); c.note("library", o.pass() ? join(gv) : o.what);
	c.label(bad ? "list with empty element" : "list"); if (bad || want.size() > 1) c.nontrivial(t);
	if (bad) { REQUIRE(o.cls == "permerror", "empty element accepted: " + join(gv)); return; }
	REQUIRE(o.pass(), o.what); REQUIRE(gv == want, join(gv) + "expected " + join(want));
}
