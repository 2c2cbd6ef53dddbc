#include "../model/lib.hpp"
const char* const prop_id = "C22";
const char* const prop_rule = "address lists from a grammar (bare and bracketed addresses, quoted local parts and names with escapes, nested comments, domain literals, empty entries, folding white space between all tokens, ',' and ';'), the same cut off anywhere, and with a NUL; non-trivial: at least one address or an expected error; distinct by text";
void prop_setup() {}
namespace {
struct G {
	Src& s; str t;
	const str ATEXT = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789!#$%&'*+-/=?^_`{|}~";
	void comment(int depth)
	{
		t += '('; size_t n = s.small(5);
		for (size_t i = 0; i < n; ++i)
			switch (s.weighted({6, 2, 2, 1, 1}))
			{
				case 0: t += s.str(ATEXT + " ,;<>@\":[].\t", 1, 8); break;
				case 1: if (depth < 6) comment(depth + 1); break;
				case 2: t += '\\'; t += s.pickv<char>({')', '(', '\\', '"', 'a', '\xff', ' '}); break;
				case 3: t += s.pickv<str>({"\xff", "\xc3\xa5", "\x80"}); break;
				default: t += "\r\n ";
			}
		t += ')';
	}
	void cfws(bool need = false)
	{
		size_t k = s.weighted({8, 4, 2, 2}); if (need && !k) k = 1;
		if (k == 0) return;
		if (k == 1) { str f = gen::fws(s); t += f.empty() ? " " : f; return; }
		if (s.coin()) t += gen::fws(s);
		comment(0); if (k == 3) { t += gen::fws(s); comment(0); }
		if (s.coin()) t += gen::fws(s);
		if (need && t.back() != ')' && t.back() != ' ' && t.back() != '\t') t += ' ';
	}
	str quoted()
	{
		str v; t += '"'; size_t n = s.small(8);
		for (size_t i = 0; i < n; ++i)
			switch (s.weighted({6, 3, 1}))
			{
				case 0: { str x = s.str(ATEXT + " ,;<>@():[].\t", 1, 6); t += x; v += x; } break;
				case 1: { char ch = s.pickv<char>({'"', '\\', 'a', ',', '@', ' ', '\xff', '<'}); t += '\\'; t += ch; v += ch; } break;
				default: { str x = s.pickv<str>({"\xff", "\xc3\xa5", "\x80"}); t += x; v += x; }
			}
		t += '"'; return v;
	}
	str dotatom(bool sp)
	{
		str v; size_t n = 1 + s.below(3);
		for (size_t i = 0; i < n; ++i) { if (i) { if (sp && s.chance(1, 8)) cfws(); t += '.'; v += '.'; if (sp && s.chance(1, 8)) cfws(); } str x = s.str(ATEXT, 1, 8); t += x; v += x; }
		return v;
	}
	str addr()
	{
		bool sp = s.chance(1, 4); str v;
		if (s.chance(1, 4)) v = quoted(); else v = dotatom(sp);
		if (sp) cfws();
		t += '@'; v += '@';
		if (sp) cfws();
		if (s.chance(1, 8)) { str d = s.pickv<str>({"[192.0.2.1]", "[IPv6:2001:db8::1]", "[x y]"}); t += d; for (char ch : d) if (ch != ' ') v += ch; }
		else v += dotatom(sp);
		return v;
	}
};
// What is open at the end of the text: 0 nothing, 1 quote, 2 comment, 3 bracket, 4 escape
int open_at_end(const str& t)
{
	bool q = false, br = false; int depth = 0; bool esc = false;
	for (char ch : t)
	{
		if (esc) { esc = false; continue; }
		if (q) { if (ch == '\\') esc = true; else if (ch == '"') q = false; }
		else if (depth) { if (ch == '\\') esc = true; else if (ch == '(') ++depth; else if (ch == ')') --depth; }
		else if (ch == '"') q = true; else if (ch == '(') depth = 1; else if (ch == '<') br = true; else if (ch == '>') br = false;
	}
	return esc ? 4 : q ? 1 : depth ? 2 : br ? 3 : 0;
}
}
void prop_run(Src& s, Ctx& c)
{
	G g{s, ""}; strs want; size_t n = s.small(8); if (s.chance(1, 60)) n += s.size(100);
	for (size_t i = 0; i < n; ++i)
	{
		if (i) { g.t += s.below(4) ? ',' : ';'; if (s.chance(1, 8)) { g.cfws(); g.t += ','; } }
		if (s.below(3)) g.cfws();
		if (s.coin()) want.push_back(g.addr());
		else
		{
			size_t w = s.below(4);
			for (size_t k = 0; k < w; ++k) { if (k) g.cfws(true); if (s.chance(1, 3)) g.quoted(); else { str x = s.str(g.ATEXT + ".", 1, 10); if (s.chance(1, 10)) x += "\xff"; g.t += x; } }
			if (w ? s.below(3) : s.coin()) g.cfws();
			g.t += '<'; if (s.chance(1, 5)) g.cfws(); want.push_back(g.addr()); if (s.chance(1, 5)) g.cfws(); g.t += '>';
		}
		if (s.chance(1, 3)) g.cfws();
	}
	str t = g.t; size_t kind = s.weighted({6, 3, 1});
	if (n == 0) kind = 0;
	if (kind == 1) t.resize(s.below(t.size()));
	if (kind == 2) t.insert(s.below(t.size() + 1), 1, '\0');
	std::list<str> got; lib::Out o = lib::guard(0, [&] { got = DKIM::Tokenizer::ParseAddressList(t); });
	auto join = [](const strs& v) { str r; for (auto& x : v) r += "[" + printable(x) + "] "; return r; };
	strs gv(got.begin(), got.end()); c.note("text", printable(t)); c.note("expected", join(want)); c.note("library", o.pass() ? join(gv) : o.what);
	if (kind == 0)
	{
		c.label(n == 0 ? "empty list" : "list"); REQUIRE(o.pass(), o.what); REQUIRE(gv == want, "addresses " + join(gv) + "expected " + join(want)); if (n) c.nontrivial(t); return;
	}
	if (kind == 2)
	{
		size_t z = t.find('\0'); if (z && z + 1 < t.size() && (t[z - 1] == '\r' || t[z - 1] == '\n')) return; // in a fold: an error too, but no NUL character of a token
		c.label("NUL"); REQUIRE(o.cls == "permerror", "NUL accepted"); c.nontrivial(t); return;
	}
	int op = open_at_end(t); static const char* N[] = {"cut off, nothing open", "cut off in a quoted string", "cut off in a comment", "cut off in brackets", "cut off after a backslash"}; c.label(N[op]);
	if (op) { REQUIRE(o.cls == "permerror", str(N[op]) + " but accepted"); c.nontrivial(t); }
	else REQUIRE(o.pass() || o.cls == "permerror", o.cls);
}
