#include "../model/lib.hpp"
const char* const prop_id = "C10";
const char* const prop_rule = "random tag lists (white space and folding anywhere, unknown tags, empty values, names differing in case) and the same with defects (duplicates, empty names, missing =, bad bytes), and raw strings over the list alphabet; non-trivial: the reference accepts or rejects; distinct by input";
void prop_setup() {}
void prop_run(Src& s, Ctx& c)
{
	str in;
	if (s.below(3) < 2)
	{
		std::vector<std::pair<str, str>> t; size_t n = 1 + s.small(8); if (s.chance(1, 40)) n += s.size(200); strs used;
		for (size_t i = 0; i < n; ++i)
		{
			str name;
			if (s.chance(1, n > 12 ? 8 * (unsigned)n : 12) && i) name = t[s.below(t.size())].first;
			else do { name = s.str("abBdhilpsvxZ", 1, 3) + (s.chance(1, 4) ? s.str("_09az", 0, 3) : ""); bool dup = false; for (auto& u : t) dup |= u.first == name; if (!dup) break; name += "q" + std::to_string(i); break; } while (true);
			str v; size_t w = s.small(5); for (size_t k = 0; k < w; ++k) { if (k) { str f = gen::fws(s); v += f.empty() ? " " : f; } v += s.str("azAZ09=:/+-.,<>@!\"~", 1, 12); }
			if (s.chance(1, 20)) v = str(s.size(9000), 'v');
			t.push_back({name, v});
		}
		in = gen::format_tags(s, t, {});
		if (s.chance(1, 3)) { size_t at = s.below(in.size() + 1); switch (s.below(4)) { case 0: in.insert(at, s.pickv<str>({";", ";;", "=", " ", "_", "x", "\x7f", "\x80", "\r", "\n", "\xc3\xa5", "; ;", "-"})); break; case 1: if (at < in.size()) in.erase(at, 1 + s.below(3)); break; case 2: in.insert(at, 1, '\0'); break; default: in.resize(at); } c.label("with a defect"); }
	}
	else { static const char* P[] = {"a", "b", "B", "=", ";", " ", "\r\n ", "\t", "1", "_", "v=1", "x y", "==", "\r\n", "~", "!", "\x7f", "\xff", "a=b;", "-", "0z="}; size_t n = s.small(24); for (size_t i = 0; i < n; ++i) in += P[s.below(21)]; }
	if (s.chance(1, 6))
	{
		// a byte, any byte, in a name, around one, or in a value
		str b(1, (char)s.below(256)); str n1 = s.str("azAZ09", 0, 2), n2 = s.str("azAZ09_", 0, 2), val = s.str("azAZ09=+/", 0, 3), v2 = s.str("azAZ09=+/", 0, 3);
		str tag; switch (s.below(4)) { case 0: tag = n1 + b + n2 + "=" + val; break; case 1: tag = n1 + n2 + gen::fws(s) + b + "=" + val; break; case 2: tag = "q" + n1 + "=" + gen::fws(s) + b + val; break; default: tag = "q" + n1 + "=" + val + b + v2; }
		strs parts; for (size_t i = s.below(3); i--; ) parts.push_back(str(1, "KLMN"[parts.size()]) + "=" + s.str("az09", 0, 4));
		parts.insert(parts.begin() + s.below(parts.size() + 1), tag);
		in.clear(); for (size_t i = 0; i < parts.size(); ++i) in += (i ? ";" + gen::fws(s) : str()) + parts[i];
		c.label("any byte somewhere");
	}
	std::vector<ref::Tag> want; ref::Verdict v = ref::taglist(in, want);
	DKIM::TagList tl; c.note("input", printable(in));
	lib::Out o = lib::guard(0, [&] { tl.Parse(in); });
	c.note("library", o.pass() ? "accepted" : o.what); c.label(v == ref::ACCEPT ? "reference:accept" : v == ref::REJECT ? "reference:reject" : "reference:unspecified");
	if (v == ref::UNSPEC && !o.pass()) return;
	if (v == ref::REJECT) { REQUIRE(o.cls == "permerror", "accepted, though it is no tag list"); c.nontrivial(in); return; }
	REQUIRE(o.pass(), "refused: " + o.what);
	if (v == ref::UNSPEC && want.empty()) return;
	size_t n = 0; for (auto i = tl.cbegin(); i != tl.cend(); ++i) ++n;
	REQUIRE(n == want.size(), fmt("%zu tags, expected %zu", n, want.size()));
	for (auto& w : want)
	{
		DKIM::TagListEntry e; REQUIRE(tl.GetTag(w.name, e), "tag " + w.name + " is missing");
		REQUIRE(e.GetValue() == w.value, "tag " + w.name + "=" + printable(e.GetValue()) + " expected " + printable(w.value));
		if (!w.value.empty())
		{
			long long off = (long long)e.GetValueOffset();
			REQUIRE(off >= (long long)w.begin && off + (long long)w.value.size() <= (long long)w.end && in.compare((size_t)off, w.value.size(), w.value) == 0, fmt("offset %lld of tag %s does not point at its value", off, w.name.c_str()));
		}
		str other = w.name; for (auto& ch : other) ch = (char)(isupper((unsigned char)ch) ? tolower(ch) : toupper((unsigned char)ch));
		if (!ref::find(want, other)) REQUIRE(!tl.GetTag(other, e), "names are not case-sensitive: " + other);
	}
	DKIM::TagListEntry e; REQUIRE(!tl.GetTag("", e) && !tl.GetTag("nosuchtag", e), "a tag that is not there");
	c.nontrivial(in);
}
