#include "../model/lib.hpp"
const char* const prop_id = "C15";
const char* const prop_rule = "messages with several signatures of random domains and selectors in any letter case, verified with a recording custom resolver answering with a record, nothing or a failure; non-trivial: at least one signature reached the key lookup; distinct by message and answers";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1700000000; pbt::fake_now = now;
	gen::Message m; m.headers = {"From: a@b.example", "Subject: " + gen::word(s)}; m.body = "body\r\n";
	struct One { size_t key; str dom, sel; int state; str rec; bool right; };
	std::vector<One> v; size_t n = 1 + s.below(3); bool arc = s.chance(1, 6); gen::Message cur = m;
	for (size_t i = 0; i < n; ++i)
	{
		gen::ThirdParty t; t.key = s.coin() ? 9 + s.below(4) : s.below(2); t.sha256 = true; t.arc = arc; t.hrel = s.coin(); t.d = gen::domain(s);
		t.sel = s.below(3) ? gen::domain(s) : s.pickv<str>({"sel._under", "S", "_", "k1.K2", "1", "x_y", "selector._domainkey", "caseSensitive"}); t.h = {"from"};
		t.d = gen::randcase(s, t.d);
		if (s.chance(1, 8)) t.d += s.pickv<str>({".", "._x", ".a_b"});
		if (s.chance(1, 5)) { t.has_i = true; t.i = "@sub." + t.d; }
		if (s.chance(1, 4)) t.extra.push_back({"q", s.pickv<str>({"dns/txt", "dns/txt:x", "x:dns/txt"})});
		str h = gen::ref_sign(s, cur, t); cur.headers.insert(cur.headers.begin(), h);
		One o{t.key, t.d, t.sel, (int)s.weighted({5, 1, 1, 2}), ref::key_record(ref::keys()[t.key]), true};
		if (o.state == 3) { o.state = 0; o.right = false; o.rec = s.pickv<str>({"v=DKIM1; p=", "garbage", "v=DKIM2; p=AAAA", " ", "v=DKIM1; k=rsa", str(1, '\0'), "p", ref::key_record(ref::keys()[t.key == 9 ? 10 : 9])}); }
		v.insert(v.begin(), o);
	}
	str raw = cur.raw(); c.note("message", printable(raw));
	std::istringstream in(raw); DKIM::Validatory g(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	REQUIRE(g.GetSignatures().size() == n, "number of signatures");
	int marker = 0; size_t calls = 0; strs names; std::vector<void*> data; bool clean = true; const One* now_at = nullptr;
	g.CustomDNSData = s.coin() ? (void*)&marker : nullptr; void* expect = g.CustomDNSData;
	g.CustomDNSResolver = [&](const str& name, str& result, void* p) {
		++calls; names.push_back(name); data.push_back(p); if (!result.empty()) clean = false;
		if (now_at->state == 2) { result = s.coin() ? "junk" : ""; return false; }
		if (now_at->state == 0) result = now_at->rec;
		return true;
	};
	size_t k = 0;
	for (auto it = g.GetSignatures().begin(); it != g.GetSignatures().end(); ++it, ++k)
	{
		const One& o = v[k]; now_at = &o; DKIM::Signature sig; DKIM::PublicKey key;
		lib::Out r = lib::guard(1, [&] { g.GetSignature(it, sig); }); REQUIRE(r.pass(), "GetSignature: " + r.what);
		size_t before = calls; bool temp = false, perm = false; str cls;
		try { g.GetPublicKey(sig, key); cls = "pass"; } catch (DKIM::TemporaryError& e) { temp = true; cls = e.getAuthenticationResult(); } catch (DKIM::PermanentError& e) { perm = true; cls = e.getAuthenticationResult(); }
		str want = o.sel + "._domainkey." + ref::lower(o.dom); c.note("query", want + " -> " + (o.state == 0 ? printable(o.rec) : o.state == 1 ? "nothing" : "failure") + " => " + cls);
		REQUIRE(calls == before + 1, fmt("%zu queries", calls - before));
		REQUIRE(names.back() == want, "query for " + printable(names.back()) + ", expected " + printable(want));
		REQUIRE(data.back() == expect, "the resolver's user data"); REQUIRE(clean, "the result string was not empty");
		ref::Key rk; if (o.state == 0) rk = ref::parse_key(o.rec);
		if (o.state == 2) REQUIRE(temp && cls == "temperror", "failed query: " + cls);
		else if (o.state == 1) REQUIRE(perm && cls == "permerror", "empty answer: " + cls);
		else if (rk.v == ref::REJECT) REQUIRE(perm && cls == "permerror", "bad record: " + cls);
		else if (rk.v == ref::ACCEPT)
		{
			REQUIRE(cls == "pass", "record not used: " + cls);
			r = lib::guard(3, [&] { g.CheckSignature(it, sig, key); });
			REQUIRE(r.pass() == o.right, "verification with the answer: " + r.cls + " " + r.what);
		}
		REQUIRE(calls == before + 1, "more queries");
		c.label(o.state == 2 ? "failure" : o.state == 1 ? "no record" : o.right ? "record" : "other record");
	}
	c.nontrivial(raw + [&] { str x; for (auto& o : v) x += fmt("%d", o.state) + o.rec; return x; }());
}
