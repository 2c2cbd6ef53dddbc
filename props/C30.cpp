#include "../model/lib.hpp"
#include <climits>
const char* const prop_id = "C30";
const char* const prop_rule = "random bodies signed with limits 0..canonical size (every value likely for small bodies, boundaries for large), beyond it, and without limit; l= and bh= compared with the first octets; then the body is changed before, at and after the limit or extended, and the verdict compared with whether the first octets changed; non-trivial: a refused limit, or a signed body with its change judged; distinct by body, limit and change";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1700000000; gen::Message m; m.headers = {"From: a@b"}; m.eol = (int)s.below(3); m.sep = s.below(12) != 11;
	if (m.sep) m.body = s.coin() ? gen::body(s) : s.str("ab \t\r\n", 0, 30);
	bool rel = s.coin(), arc = s.chance(1, 10), sha256 = s.below(4) != 0; str cb = ref::canon_body(m.body, rel); size_t key = sha256 && s.coin() ? 9 : 2;
	bool limited = s.below(5) != 0; unsigned long n = 0;
	switch (s.weighted({4, 3, 3, 3, 2})) { case 0: n = s.below(cb.size() + 1); break; case 1: n = cb.size(); break; case 2: n = cb.size() - std::min<size_t>(cb.size(), s.below(6)); break; case 3: { size_t b = s.pickv<size_t>({0, 1, 2, 8095, 8096, 8097, 4096, 16192, 1024}); n = std::min(cb.size(), b); } break; default: n = cb.size() + 1 + (s.coin() ? s.below(4) : s.size(100000)); if (s.chance(1, 6)) n = s.pickv<unsigned long>({ULONG_MAX, ULONG_MAX - 1, 1UL << 63, 1UL << 32, 1UL << 31, (1UL << 32) + 1}); }
	if (limited && n > cb.size() && s.coin()) {} // refused below
	gen::Cfg g; g.sigs.push_back({key, "a.example", "x"}); g.brel = rel; g.hrel = s.coin(); g.sha256 = sha256; g.limited = limited; g.limit = n; if (arc) g.arc = 3;
	c.note("options", g.text()); c.note("body", printable(m.body, 1500)); c.note("canonical size", std::to_string(cb.size()));
	gen::Signed r = gen::sign(s, m, g, now);
	if (limited && n > cb.size()) { c.label("limit beyond the body"); REQUIRE(r.out.cls == "permerror", fmt("limit %lu of a canonical body of %zu was ", n, cb.size()) + r.out.cls); c.nontrivial(m.body + std::to_string(n)); return; }
	REQUIRE(r.out.pass(), r.out.what);
	{
		std::vector<ref::Tag> t; ref::Msg sm = ref::split(r.sig); ref::taglist(sm.headers[0].raw.substr(sm.headers[0].value), t); auto l = ref::find(t, "l"), bh = ref::find(t, "bh");
		REQUIRE(!!l == limited, "l= present or absent"); if (l) REQUIRE(l->value == std::to_string(n), "l=" + l->value);
		REQUIRE(bh && bh->value == ref::b64enc(ref::digest(limited ? cb.substr(0, n) : cb, sha256)), "bh= is not the hash of the covered octets");
	}
	gen::Message x = m; str what; size_t k = 1 + s.below(2);
	// a place in the raw body near the end of the covered part
	auto place = [&]() -> size_t { size_t z = x.body.size(); if (!z) return 0; size_t lo = 0, hi = z; if (limited) while (lo < hi) { size_t mid = (lo + hi) / 2; if (ref::canon_body(x.body.substr(0, mid) + "#", rel).size() < n + 3) lo = mid + 1; else hi = mid; } switch (s.below(4)) { case 0: return s.below(z + 1); case 1: return z; default: { size_t p = lo + s.below(7); p = p > 3 ? p - 3 : 0; return std::min(p, z); } } };
	for (size_t i = 0; i < k; ++i)
	{
		size_t p = place(); x.sep = true;
		switch (s.below(6))
		{
			case 0: { str w = s.pickv<str>({"x", " ", "\t", "\r\n", "\n", "\r", " \r\n", "more text\r\n", "\r\n\r\n"}); x.body.insert(p, w); what += fmt("inserted %s at %zu; ", printable(w).c_str(), p); } break;
			case 1: if (p < x.body.size()) { x.body[p] = (char)(x.body[p] ^ (1 << s.below(8))); what += fmt("bit flipped at %zu; ", p); } break;
			case 2: if (p < x.body.size()) { size_t e = 1 + s.below(4); x.body.erase(p, e); what += fmt("%zu removed at %zu; ", e, p); } break;
			case 3: { str w = s.pickv<str>({"\r\n", "appended\r\n", " ", "x", "\r\n\r\n\r\n", "\nx"}); x.body += w; what += "appended " + printable(w) + "; "; } break;
			case 4: x.body.resize(p); what += fmt("cut at %zu; ", p); break;
			default: break;
		}
	}
	str cx = ref::canon_body(x.body, rel); bool same = limited ? cx.size() >= n && cx.compare(0, n, cb, 0, n) == 0 : cx == cb;
	x.headers.insert(x.headers.begin(), r.sig); str raw = x.raw();
	auto in = lib::stream_at(raw, s); DKIM::Validatory v(*in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); lib::Dns d; d.rec = ref::key_record(ref::keys()[key]); DKIM::Signature sg; lib::Out o = lib::verify_nth(v, 0, d, &sg);
	c.note("change", what); c.note("expected", same ? "pass" : "fail"); c.label(str(limited ? "limited" : "unlimited") + (same ? ", covered part unchanged" : ", covered part changed"));
	REQUIRE(o.pass() == same, fmt("limit %lu, canonical sizes %zu and %zu, covered part %s, verdict %s after: ", n, cb.size(), cx.size(), same ? "unchanged" : "changed", o.cls.c_str()) + what);
	if (!same) REQUIRE(o.cls == "fail", o.cls); else { REQUIRE(sg.GetBodySizeLimit() == limited, "limit not reported"); if (limited) REQUIRE(sg.GetBodySize() == n, fmt("limit reported as %lu", sg.GetBodySize())); }
	c.nontrivial(m.body + "|" + g.text() + what);
}
