#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C14";
const char* const prop_rule = "valid signatures made by the reference signer (and by the library) x key records whose h, k, s, t tags restrict or do not restrict it, with the right key or one of the other type; the reference decides; non-trivial: the signature reaches the key check; distinct by message, signature and record";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1700000000; pbt::fake_now = now;
	gen::Message m; m.headers = {"From: a@b.example", "Subject: x " + gen::word(s)}; m.body = "body\r\n";
	str dom = gen::domain(s), full; size_t ki; bool arc = false;
	if (s.coin())
	{
		gen::ThirdParty t; t.key = ki = gen::key(s, true, false); t.arc = arc = s.chance(1, 5); t.arc_i = 1 + s.below(50); t.sha256 = ref::keys()[ki].ed || s.coin(); t.hrel = s.coin(); t.d = dom; t.sel = "x"; t.h = {"from", "subject"};
		if (!t.sha256 && ki == 0) t.key = ki = 2;
		if (s.below(3)) { t.has_i = true; t.i = s.pickv<str>({"u@", "@"}) + s.pickv<str>({"", "sub.", "a.b."}) + gen::randcase(s, dom); }
		full = gen::ref_sign(s, m, t) + "\r\n" + m.raw();
	}
	else
	{
		gen::Cfg g; g.sha256 = s.coin(); ki = gen::key(s, g.sha256, false); if (!g.sha256 && ki == 0) ki = 2;
		g.sigs.push_back({ki, dom, "x"}); g.hrel = s.coin(); if (s.chance(1, 5)) { g.arc = 1 + s.below(50); arc = true; }
		if (s.below(3)) { g.has_identity = true; g.identity = "u@" + s.pickv<str>({"", "sub.", "A.b."}) + gen::randcase(s, dom); }
		gen::Signed r = gen::sign(s, m, g, now); REQUIRE(r.out.pass(), "signing failed: " + r.out.what); full = r.full;
	}
	const ref::Pair* k = &ref::keys()[ki]; bool same = s.below(6) != 0;
	if (!same) k = &ref::keys()[k->ed ? s.below(8) : 9 + s.below(4)]; // a key of the other type
	std::vector<std::pair<str, str>> t;
	if (s.coin()) t.push_back({"v", "DKIM1"});
	if (k->ed || s.coin()) t.push_back({"k", k->ed ? "ed25519" : "rsa"});
	if (s.below(3)) t.push_back({"h", s.chance(1, 8) ? gen::many(s, {"sha256", "sha1", "x"}, 60) : s.pickv<str>({"sha1", "sha256", "sha1:sha256", "sha256:sha1", "sha512:sha1", "sha256:x", "x:sha1:y", "x:sha256"})});
	if (s.chance(1, 3)) t.push_back({"s", s.chance(1, 8) ? gen::many(s, {"email", "*", "x"}, 60) : s.pickv<str>({"*", "email", "email:x", "x:*"})});
	if (s.below(3)) t.push_back({"t", s.chance(1, 8) ? gen::many(s, {"s", "y", "x"}, 60) : s.pickv<str>({"s", "y", "y:s", "s:y", "", "x", "S", "ss", "x:s:y", "y:x", "sx:xs", "x-s"})});
	if (s.chance(1, 4)) t.push_back({s.pickv<str>({"g", "n", "z", "T", "H"}), s.pickv<str>({"s", "*", "sha1", ""})});
	t.insert(t.begin() + (long)(t.empty() || t[0].first != "v" ? s.below(t.size() + 1) : 1 + s.below(t.size())), {"p", ref::key_p(*k)});
	ref::Dns d; d.rec = gen::format_tags(s, t, {"p", "h", "t", "s"});
	ref::Msg rm = ref::split(full); ref::Result want = ref::verify(rm, 0, d, now);
	c.note("message", printable(full)); c.note("record", printable(d.rec)); c.note("reference", str(ref::stage_name(want.st)) + " " + want.why);
	lib::Out o = lib::verify(full, 0, d, arc); c.note("library", o.pass() ? "pass" : fmt("stage %d ", o.stage) + o.cls + " " + o.what);
	c.label(str(ref::stage_name(want.st)) + (want.why.empty() ? "" : ": " + want.why));
	if (want.st == ref::ST_UNSPEC) return;
	REQUIRE(o.cls == ref::ar_class(want.st), "class " + o.cls + ", expected " + ref::ar_class(want.st) + " (" + ref::stage_name(want.st) + " " + want.why + ") " + o.what);
	if (want.st == ref::ST_RESTRICT) REQUIRE(o.stage == 3, fmt("refused at stage %d", o.stage));
	c.nontrivial(full + d.rec);
}
