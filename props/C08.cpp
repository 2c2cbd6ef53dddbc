#include "../model/lib.hpp"
const char* const prop_id = "C08";
const char* const prop_rule = "random header fields (names with blanks before the colon, folding at any place incl. several folds, white-space-only lines, 8-bit and control bytes, no colon, bare CR); non-trivial: the reference specifies the result; distinct by field and mode";
void prop_setup() {}
void prop_run(Src& s, Ctx& c)
{
	str h;
	switch (s.weighted({4, 4, 1}))
	{
		case 0: h = gen::hname(s) + (s.chance(1, 4) ? gen::wsp(s) : "") + ":" + gen::hvalue(s); break;
		case 1:
		{
			static const char* P[] = {" ", "\t", "\r\n ", "\r\n\t", "a", "B", "Zz", ":", "x", "\r\n \r\n ", "  ", " \t", "=", "\xc3", "\x01", ";"};
			h = s.str("AbC-zX", 1, 6); if (s.chance(1, 6)) h += s.coin() ? " " : "\r\n "; if (!s.chance(1, 12)) h += ":";
			size_t n = s.small(40); for (size_t i = 0; i < n; ++i) h += P[s.below(16)];
		}
		break;
		default: h = gen::hname(s) + ":" + gen::fws(s) + str(s.size(9000), s.ch("a \t")) + gen::word(s) + gen::fws(s); break;
	}
	bool bare = false;
	if (s.chance(1, 12)) h.insert(s.below(h.size() + 1), s.pickv<str>({"\r", "\r\r\n ", "\rx", "\r"}));
	for (size_t i = 0; i < h.size(); ++i) bare |= h[i] == '\r' && !(i + 1 < h.size() && h[i + 1] == '\n');
	c.note("field", printable(h));
	using DKIM::Conversion::CanonicalizationHeader;
	CanonicalizationHeader simple(DKIM::DKIM_C_SIMPLE), relaxed(DKIM::DKIM_C_RELAXED);
	if (s.chance(1, 4)) { relaxed.SetType(DKIM::DKIM_C_SIMPLE); relaxed.SetType(DKIM::DKIM_C_RELAXED); simple.SetType(DKIM::DKIM_C_RELAXED); simple.SetType(DKIM::DKIM_C_SIMPLE); }
	REQUIRE(simple.FilterHeader(h) == h, "simple canonicalization changed " + printable(h));
	str want, got; ref::Verdict v = ref::canon_header(h, true, want);
	lib::Out o = lib::guard(0, [&] { got = relaxed.FilterHeader(h); });
	c.note("relaxed", o.pass() ? printable(got) : o.what);
	if (bare || v == ref::REJECT) { REQUIRE(o.cls == "permerror", "accepted: " + printable(h)); c.label(bare ? "bare CR" : "no colon"); c.nontrivial(h); return; }
	if (v != ref::ACCEPT) { c.label("unspecified"); return; }
	REQUIRE(o.pass(), "refused: " + o.what);
	REQUIRE(got == want, "relaxed gives " + printable(got) + " expected " + printable(want));
	str twice; lib::Out p = lib::guard(0, [&] { twice = relaxed.FilterHeader(got); });
	REQUIRE(p.pass() && twice == got, "relaxed is not idempotent: " + printable(twice));
	c.label(got == h ? "unchanged" : "changed"); c.nontrivial(h);
}
