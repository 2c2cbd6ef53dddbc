#include "tamper.hpp"
const char* const prop_id = "C03";
const char* const prop_rule = "a message signed by the library or by the reference signer, then 1-6 modifications that its canonicalization ignores (line ends, trailing lines, folding, spacing, case, added unsigned fields, order across names, text behind l=); non-trivial: the message changed and the reference finds that the signature still verifies; distinct by modified message";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000); SignedMsg g;
	if (!make_signed(s, c, now, g)) return;
	str before = g.m.raw(), what; size_t n = 1 + s.below(6);
	for (size_t i = 0; i < n; ++i) what += (what.empty() ? "" : "; ") + gen::neutral(s, g.m, g.arc, g.hrel, g.brel);
	str raw = g.m.raw(); auto in = lib::stream_at(raw, s);
	c.note("signed with", g.text); c.note("modification", what); c.note("message", printable(raw, 3000));
	auto v = lib::judge(*in, raw, g.arc, g.zone, now); size_t ok = 0;
	for (size_t k = 0; k < v.size(); ++k)
	{
		c.label(str("reference:") + ref::stage_name(v[k].r.st));
		if (v[k].r.st != ref::ST_PASS) continue;
		++ok;
		REQUIRE(v[k].l.pass(), fmt("signature %zu no longer verifies (%s) after: ", k + 1, v[k].l.what.c_str()) + what);
	}
	if (ok && raw != before) c.nontrivial(raw);
}
