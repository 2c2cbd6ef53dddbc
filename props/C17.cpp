#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C17";
const char* const prop_rule = "reference-made signatures with none to several defects at once (tags, body, headers, DNS outcome, key record, key restrictions, signature value), verified step by step; class and step compared with the reference; every 50th case: the class strings of both error types; non-trivial: at least one defect took effect; distinct by message and record";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1700000000; pbt::fake_now = now;
	if (s.chance(1, 50))
	{
		static const struct { DKIM::AR_CLASS c; const char* n; } A[] = {{DKIM::AR_NONE, "none"}, {DKIM::AR_PASS, "pass"}, {DKIM::AR_FAIL, "fail"}, {DKIM::AR_POLICY, "policy"}, {DKIM::AR_NEUTRAL, "neutral"}, {DKIM::AR_TEMPERROR, "temperror"}, {DKIM::AR_PERMERROR, "permerror"}};
		str w = s.bytes(40); for (auto& ch : w) if (!ch) ch = 'x';
		for (auto& a : A)
		{
			try { throw DKIM::PermanentError(w, a.c); } catch (DKIM::PermanentError& e) { REQUIRE(str(e.getAuthenticationResult()) == a.n && w == e.what(), str("PermanentError: ") + e.getAuthenticationResult() + " for " + a.n); DKIM::PermanentError cp(e); REQUIRE(str(cp.getAuthenticationResult()) == a.n, "copy"); }
			try { throw DKIM::TemporaryError(w, a.c); } catch (DKIM::TemporaryError& e) { REQUIRE(str(e.getAuthenticationResult()) == a.n && w == e.what(), str("TemporaryError: ") + e.getAuthenticationResult() + " for " + a.n); }
		}
		REQUIRE(str(DKIM::PermanentError("").getAuthenticationResult()) == "permerror" && str(DKIM::TemporaryError("").getAuthenticationResult()) == "temperror", "default classes");
		c.label("class strings"); c.nontrivial(w); return;
	}
	gen::Message m; m.headers = {"From: a@b.example", "Subject: " + gen::word(s), "To: x@y.example"}; m.body = gen::word(s) + "\r\nline\r\n";
	gen::ThirdParty t; t.key = s.coin() ? 9 + s.below(4) : 2 + s.below(2); const ref::Pair& key = ref::keys()[t.key]; t.sha256 = key.ed || s.coin(); t.hrel = s.coin(); t.brel = s.coin(); t.arc = s.chance(1, 6); t.arc_i = 1; t.d = gen::domain(s); t.sel = "x"; t.h = {"From", "Subject"};
	if (s.chance(1, 4)) { t.has_i = true; t.i = "u@" + s.pickv<str>({"", "sub."}) + t.d; }
	strs did; size_t want_n = s.weighted({1, 4, 4, 3, 2}); ref::Dns d; d.rec = ref::key_record(key); bool body = false, head = false, bval = false;
	std::vector<std::pair<str, str>> rt; rt.push_back({"v", "DKIM1"}); if (key.ed || s.coin()) rt.push_back({"k", key.ed ? "ed25519" : "rsa"}); rt.push_back({"p", ref::key_p(key)});
	auto setr = [&](const str& n, const str& v) { for (auto& x : rt) if (x.first == n) { x.second = v; return; } rt.push_back({n, v}); };
	for (size_t i = 0; i < want_n; ++i)
		switch (s.weighted({3, 3, 3, 3, 3, 3, 2}))
		{
			case 0:
				switch (s.below(4))
				{
					case 0: t.drop.push_back(s.pickv<str>({"v", "a", "bh", "d", "h", "s", "b"})); did.push_back("tag missing"); break;
					case 1: { static const char* V[][2] = {{"v", "2"}, {"a", "rsa-md5"}, {"c", "x/y"}, {"h", "to:subject"}, {"bh", ""}, {"l", "x"}, {"q", "http"}, {"x", "1600000000"}, {"i", "u@elsewhere.example"}, {"b", ""}, {"h", ""}, {"t", "x"}}; auto& v = V[s.below(12)]; t.override_.push_back({v[0], v[1]}); did.push_back(str("tag ") + v[0] + "=" + v[1]); } break;
					case 2: t.dup.push_back(s.pickv<str>({"v", "d", "s", "a"})); did.push_back("tag twice"); break;
					default: t.extra.push_back({"x", std::to_string(now - 1 - (long long)s.below(1000))}); did.push_back("expired");
				}
				break;
			case 1: body = true; did.push_back("body"); break;
			case 2: d.state = s.coin() ? 2 : 1; did.push_back(d.state == 2 ? "query fails" : "no record"); break;
			case 3: { static const char* V[][2] = {{"v", "DKIM2"}, {"p", ""}, {"p", "AAAA"}, {"k", "dsa"}, {"h", "md5"}, {"s", "tlsrpt"}, {"s", ""}, {"t", ":"}, {"h", ""}}; auto& v = V[s.below(9)]; setr(v[0], v[1]); did.push_back(str("record ") + v[0] + "=" + v[1]); } break;
			case 4: { static const char* V[][2] = {{"h", "sha1"}, {"h", "sha256"}, {"t", "s"}, {"t", "y:s"}}; auto& v = V[s.below(4)]; setr(v[0], v[1]); did.push_back(str("record ") + v[0] + "=" + v[1]); if (s.coin()) { t.has_i = true; t.i = "@sub." + t.d; } } break;
			case 5: if (s.coin()) head = true; else bval = true; did.push_back("header or signature value"); break;
			default: { const ref::Pair& o = ref::keys()[s.coin() ? (t.key == 9 ? 10 : 9) : (t.key == 2 ? 3 : 2)]; setr("p", ref::key_p(o)); setr("k", o.ed ? "ed25519" : "rsa"); did.push_back("another key"); }
		}
	{ std::vector<std::pair<str, str>> ex; for (auto& e : t.extra) { bool dup = false; for (auto& o : ex) dup |= o.first == e.first; for (auto& o : t.override_) dup |= o.first == e.first; if (!dup) ex.push_back(e); } t.extra = ex; }
	if (d.state == 0) { d.rec.clear(); for (auto& x : rt) d.rec += (d.rec.empty() ? "" : "; ") + x.first + "=" + x.second; } else d.rec.clear();
	str sig = gen::ref_sign(s, m, t);
	if (bval)
	{
		ref::Msg sm = ref::split(sig + "\r\n\r\n"); std::vector<ref::Tag> tg; const ref::Tag* b = nullptr;
		if (!sm.headers.empty() && sm.headers[0].colon) { ref::taglist(sm.headers[0].raw.substr(sm.headers[0].value), tg); b = ref::find(tg, "b"); }
		str v; if (b && ref::b64dec(b->value, v) == ref::ACCEPT && !v.empty()) { switch (s.below(3)) { case 0: v[s.below(v.size())] ^= 1; break; case 1: v.resize(s.below(v.size())); break; default: v += 'x'; } sig.replace(sm.headers[0].value + b->begin, b->end - b->begin, ref::b64enc(v)); }
	}
	gen::Message x = m; x.headers.insert(x.headers.begin(), sig); if (body) x.body = "other" + x.body; if (head) x.headers[2] = "Subject: something else entirely";
	str raw = x.raw(); ref::Msg rm = ref::split(raw);
	c.note("defects", [&] { str r; for (auto& w : did) r += w + "; "; return r; }()); c.note("message", printable(raw)); c.note("record", d.state == 0 ? printable(d.rec) : d.state == 1 ? "(none)" : "(query fails)");
	if (rm.headers.empty() || !lib::signature_count(raw, t.arc)) return;
	ref::Result want = ref::verify(rm, 0, d, now); lib::Out o = lib::verify(raw, 0, d, t.arc);
	c.note("reference", str(ref::stage_name(want.st)) + " " + want.why); c.note("library", o.pass() ? "pass" : fmt("step %d %s: ", o.stage, o.cls.c_str()) + o.what);
	c.label(ref::stage_name(want.st)); if (want.st == ref::ST_UNSPEC) return;
	static const int STEP[] = {3, 1, 1, 2, 2, 2, 3, 3};
	REQUIRE(o.cls == ref::ar_class(want.st), "class " + o.cls + ", expected " + ref::ar_class(want.st) + " (" + ref::stage_name(want.st) + " " + want.why + "): " + o.what);
	REQUIRE(o.stage == STEP[want.st], fmt("reported in step %d, expected %d", o.stage, STEP[want.st]));
	bool temp = o.what.compare(0, 9, "Temporary") == 0; if (!o.pass()) REQUIRE(temp == (want.st == ref::ST_DNSTEMP), "error type: " + o.what);
	if (want.st != ref::ST_PASS) c.nontrivial(raw + d.rec);
}
