#include "../model/lib.hpp"
const char* const prop_id = "C07";
const char* const prop_rule = "random bodies (structured runs of text, blanks and line ends around block boundaries, and raw bytes over a small hostile alphabet) at a random offset of several stream kinds, both modes, limits at 0, at the canonical size and between and beyond; non-trivial: a body of at least one byte; distinct by body, mode and limit";
void prop_setup() {}
void prop_run(Src& s, Ctx& c)
{
	str body;
	switch (s.weighted({3, 2, 1}))
	{
		case 0: body = gen::body(s); break;
		case 1: { size_t n = s.small(200); str A = s.coin() ? str(" \t\r\nab") : str("\r\n \tx\0\x80\xff.", 9); for (size_t i = 0; i < n; ++i) body += s.ch(A); } break;
		default: // long runs of one thing across a boundary, then something
		{
			size_t n = s.size(20000); str A = "\n \t\rx"; body = s.str("a \r\n", 0, 6);
			body += str(n, s.ch(A)); body += s.str("a \t\r\n", 0, 8); if (s.coin()) body += str(s.size(9000), s.ch(A)) + s.str("b \r\n", 0, 5);
		}
	}
	bool rel = s.coin(); str want = ref::canon_body(body, rel);
	bool limited = s.coin(); size_t limit = 0;
	if (limited) switch (s.below(6)) { case 0: limit = 0; break; case 1: limit = want.size(); break; case 2: limit = want.size() + 1 + s.below(5); break; case 3: limit = want.size() ? want.size() - 1 : 0; break; case 4: limit = want.size() + s.size(100000); break; default: limit = s.below(want.size() + 1); }
	str prefix = s.below(3) ? str("A: b\r\n\r\n") : s.bytes(40); if (s.chance(1, 10)) prefix = str(s.size(9000), 'h');
	str data = prefix + body; auto in = lib::stream(data, s);
	switch (s.below(4)) { case 0: { str l; while (std::getline(*in, l)) {} } break; case 1: in->setstate(std::ios::eofbit); break; case 2: in->seekg((std::streamoff)s.below(data.size() + 1)); break; default: break; }
	long long off = (long long)prefix.size(); if (body.empty() && s.coin()) off = -1;
	str got; size_t calls = 0;
	bool ok = DKIM::Conversion::CanonicalizationBody(*in, rel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, (ssize_t)off, limited, limit, [&](const char* p, size_t n) { ++calls; got.append(p, n); });
	c.note("body", printable(body, 1500)); c.note("mode", rel ? "relaxed" : "simple"); if (limited) c.note("limit", std::to_string(limit));
	bool want_ok = !limited || limit <= want.size();
	if (limited && limit < want.size()) want.resize(limit);
	if (got != want)
	{
		size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
		fail(fmt("canonical body differs at octet %zu (%zu octets, expected %zu): ", i, got.size(), want.size()) + printable(got.substr(i, 40)) + " expected " + printable(want.substr(i, 40)));
	}
	REQUIRE(ok == want_ok, fmt("limit %zu of %zu canonical octets: reported %s", limit, want.size(), ok ? "sufficient" : "exceeding"));
	// the two modes agree with each other: relaxing a simple canonical body changes nothing more
	if (!limited && s.chance(1, 4))
	{
		std::istringstream again(want); str twice;
		DKIM::Conversion::CanonicalizationBody(again, rel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, 0, false, 0, [&](const char* p, size_t n) { twice.append(p, n); });
		REQUIRE(twice == want, "canonicalization is not idempotent");
	}
	c.label(rel ? "relaxed" : "simple"); if (limited) c.label(want_ok ? "limit" : "limit:exceeding"); if (body.size() > 8096) c.label("larger than a block"); if (want.empty() || want == "\r\n") c.label("empty");
	if (!body.empty()) c.nontrivial(body + (rel ? "r" : "s") + (limited ? std::to_string(limit) : "-"));
}
