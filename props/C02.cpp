#include "tamper.hpp"
const char* const prop_id = "C02";
const char* const prop_rule = "a message signed by the library or by the reference signer, then 1-3 modifications aimed at covered content (header text, order, number; body bytes at the ends, at block boundaries and at l=; every tag; b= and bh= values; other keys); non-trivial: the reference finds that a signature no longer verifies, and the library was asked for its verdict; distinct by modified message and key";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000); SignedMsg g;
	if (!make_signed(s, c, now, g)) return;
	size_t n = 1 + s.weighted({8, 3, 1}); str what;
	if (s.chance(1, 8))
	{
		size_t k = s.below(13); what = "key replaced by " + ref::keys()[k].name; n = s.below(2);
		for (auto& z : g.zone.rec) z.second = ref::key_record(ref::keys()[k]);
	}
	for (size_t i = 0; i < n; ++i) what += (what.empty() ? "" : "; ") + gen::tamper(s, g.m, g.arc);
	str raw = g.m.raw(); auto in = lib::stream_at(raw, s);
	c.note("signed with", g.text); c.note("modification", what); c.note("message", printable(raw, 3000));
	auto v = lib::judge(*in, raw, g.arc, g.zone, now); bool nt = false;
	for (size_t k = 0; k < v.size(); ++k)
	{
		c.label(str("reference:") + ref::stage_name(v[k].r.st));
		if (v[k].r.st == ref::ST_PASS || v[k].r.st == ref::ST_UNSPEC) continue;
		nt = true;
		REQUIRE(!v[k].l.pass(), fmt("signature %zu verifies although the %s check must fail (%s): ", k + 1, ref::stage_name(v[k].r.st), v[k].r.why.c_str()) + what);
	}
	if (nt) c.nontrivial(raw + what);
}
