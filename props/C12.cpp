#include "../model/lib.hpp"
const char* const prop_id = "C12";
const char* const prop_rule = "verifying: signature fields with x= at, just before, just after and far from the clock (clock from 0 to 2^40, x up to 22 digits), parsed at that clock; signing: every combination of timestamp/expiry options at random clocks, the produced tags compared, and the signature verified just before, at and just after x=; non-trivial: the field was judged or a signature produced; distinct by clock, options and x";
void prop_setup() { ref::keys(); }
static long long anyclock(Src& s)
{
	switch (s.below(6)) { case 0: return 1700000000; case 1: return (long long)s.below(3); case 2: return 2147483646LL + (long long)s.below(4); case 3: return 4294967294LL + (long long)s.below(4); case 4: return (long long)s.below(1ULL << 40); default: return 1500000000 + (long long)s.below(1000000000); }
}
static DKIM::Signature* parse(const str& raw, bool arc, lib::Out& o, DKIM::Signature& g)
{
	std::istringstream in(raw); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	REQUIRE(v.GetSignatures().size() == 1, "one signature expected");
	o = lib::guard(1, [&] { g.Parse(v.GetSignatures().front()); }); return &g;
}
void prop_run(Src& s, Ctx& c)
{
	long long now = anyclock(s);
	if (s.coin())
	{
		bool arc = s.chance(1, 6), pair = true; long long x = 0; str xs;
		switch (s.below(5))
		{
			case 0: x = now; break;
			case 1: x = now + 1 + (long long)s.size(1000000); break;
			case 2: x = now - 1 - (long long)s.size((size_t)std::min<long long>(now, 1000000)); break;
			case 3: x = (long long)s.below(1ULL << (1 + s.below(62))); break;
			default: xs = s.pickv<str>({"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "4294967296", "4294967295", "2147483648", "1000000000000000000000"}); pair = false;
		}
		if (x < 0) x = 0;
		if (pair) { xs = std::to_string(x); if (s.chance(1, 5)) xs = str(1 + s.below(4), '0') + xs; }
		str t = s.below(3) ? "" : " t=" + std::to_string(s.coin() ? now : (long long)s.below(1ULL << 40)) + ";";
		str w = s.chance(1, 4) ? gen::fws(s) : "";
		str raw = str(arc ? "ARC-Message-Signature: i=1;" : "DKIM-Signature: v=1;") + " a=rsa-sha256; d=a.example; s=x; h=from;" + (s.coin() ? t : "") + " x=" + w + xs + w + ";" + t.substr(0, 0) + " bh=QUFB; b=QUFB\r\n\r\n";
		bool expired = ref::strip_wsp(xs).size() < 19 && atoll(xs.c_str()) < now;
		pbt::fake_now = now; lib::Out o; DKIM::Signature g; parse(raw, arc, o, g);
		c.note("clock", std::to_string(now)); c.note("x", xs); c.note("library", o.pass() ? "accepted" : o.what); c.label(expired ? "expired" : x == now && pair ? "x equals the clock" : "not expired");
		REQUIRE(o.pass() == !expired, fmt("x=%s at clock %lld: ", xs.c_str(), now) + (o.pass() ? "accepted" : o.what));
		if (expired) REQUIRE(o.cls == "permerror", "class " + o.cls);
		// the field itself says nothing of the clock at another time
		c.nontrivial(xs + "/" + std::to_string(now)); return;
	}
	bool ts = s.coin(), cur = s.coin(), ex = s.below(4) != 0, absolute = s.coin(), arc = s.chance(1, 6), relaxed = s.coin(), extra = s.chance(1, 5); long long tv = -1, ev;
	if (ts && !cur) tv = s.below(4) == 0 ? (long long)s.below(3) : anyclock(s);
	ev = absolute ? anyclock(s) : s.below(3) == 0 ? (long long)s.below(3) : (long long)s.size(200000000);
	long long base = ts && tv != -1 ? tv : now;
	str wt = ts ? std::to_string(base) : "(none)", wx = ex ? std::to_string(absolute ? ev : base + ev) : "(none)";
	DKIM::SignatoryOptions o; const ref::Pair& key = ref::keys()[s.coin() ? 9 : 0]; gen::set_key(o, key);
	o.SetDomain("a.example").SetSelector("x").SetCanonModeHeader(relaxed ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); if (arc) o.SetARCInstance(1 + s.below(50));
	if (extra) { auto& a = o.AddAdditionalSignature(); gen::set_key(a, key); a.SetDomain("b.example").SetSelector("y"); }
	auto sett = [&] { if (ts) { if (s.chance(1, 4)) o.SetTimestamp(77); o.SetTimestamp((time_t)tv); } };
	auto setx = [&] { if (ex) { if (s.chance(1, 4)) o.SetExpiration(5, !absolute); if (absolute && s.coin()) o.SetExpiration((time_t)ev); else o.SetExpiration((time_t)ev, absolute); } };
	if (s.coin()) { sett(); setx(); } else { setx(); sett(); }
	str msg = "From: a@b\r\nSubject: x\r\n\r\nbody\r\n", sig; pbt::fake_now = s.chance(1, 4) ? now + 5 : now;
	std::istringstream in(msg); DKIM::Signatory g(in); pbt::fake_now = now; // the clock counts when the signature is created
	long long step = s.chance(1, 4) ? s.pickv<long long>({1, 7, 86400}) : 0; pbt::fake_step = step; lib::Out made = lib::guard(0, [&] { sig = g.CreateSignature(o); }); pbt::fake_step = 0; long long end = pbt::fake_now; REQUIRE(made.pass(), made.what); if (step) c.label("clock goes on while signing");
	c.note("options", fmt("clock=%lld t=%s x=%s", now, ts ? std::to_string(tv).c_str() : "-", ex ? (std::to_string(ev) + (absolute ? " absolute" : " relative")).c_str() : "-")); c.note("signature", printable(sig));
	ref::Msg m = ref::split(sig + "\r\n" + msg);
	for (size_t k = 0; k < (extra ? 2u : 1u); ++k)
	{
		std::vector<ref::Tag> t; ref::taglist(m.headers[k].raw.substr(m.headers[k].value), t);
		auto val = [&](const str& n) -> str { auto x = ref::find(t, n); return x ? x->value : str("(none)"); };
		if (step && end != now)
		{	// the clock went on: the current time is any of the times seen; what is relative to t= still is
			long long t0 = ts ? atoll(val("t").c_str()) : now; if (ts && tv == -1) REQUIRE(t0 >= now && t0 <= end, "t=" + val("t")); else if (ts) REQUIRE(val("t") == wt, "t=" + val("t") + " expected " + wt); else REQUIRE(val("t") == wt, "t=" + val("t"));
			long long x0 = atoll(val("x").c_str()); if (!ex || absolute) REQUIRE(val("x") == wx, "x=" + val("x") + " expected " + wx); else if (ts) REQUIRE(x0 == t0 + ev, "x=" + val("x") + " with t=" + val("t") + fmt(", asked for %lld later", ev)); else REQUIRE(x0 >= now + ev && x0 <= end + ev, "x=" + val("x")); continue;
		}
		REQUIRE(val("t") == wt, "t=" + val("t") + " expected " + wt); REQUIRE(val("x") == wx, "x=" + val("x") + " expected " + wx);
	}
	if (ex && !extra && !step)
	{
		long long x = absolute ? ev : base + ev;
		for (long long at : {x - 1, x, x + 1, now})
		{
			if (at < 0) continue;
			pbt::fake_now = at; ref::Dns d; d.rec = ref::key_record(key); lib::Out r = lib::verify(sig + "\r\n" + msg, 0, d, arc);
			REQUIRE(r.pass() == (at <= x), fmt("x=%lld verified at %lld: ", x, at) + (r.pass() ? str("accepted") : r.what));
			if (!r.pass()) REQUIRE(r.cls == "permerror", r.cls);
		}
	}
	c.label(str(ts ? (cur ? "t current" : "t given") : "no t") + (ex ? (absolute ? ", x absolute" : ", x relative") : ", no x"));
	c.nontrivial(fmt("%lld %d %lld %d %lld %d", now, ts, tv, ex, ev, absolute));
}
