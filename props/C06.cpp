#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C06";
const char* const prop_rule = "random messages signed with 2-5 signatures (up to 20 now and then) of mixed RSA and Ed25519 keys and own domains; each is verified with its own key by library and reference and must fail with other keys; non-trivial: at least two signatures; distinct by message and options";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000);
	gen::Message m = gen::message(s); gen::Cfg g = gen::cfg(s, m, false, now);
	g.sha256 = true; if (g.has_identity && !g.arc) { g.has_identity = false; g.identity.clear(); }
	size_t n = 2 + s.below(4); if (s.chance(1, 60)) n += s.size(16); g.sigs.clear(); g.over.erase(std::remove_if(g.over.begin(), g.over.end(), [](const str& o) { return ref::lower(o).find("-signature") != str::npos; }), g.over.end());
	for (size_t i = 0; i < n; ++i) { gen::SigReq q; q.key = gen::key(s); q.dom = s.below(4) == 0 && i ? g.sigs[0].dom : gen::domain(s); q.sel = fmt("s%zu-", i) + s.str("abc", 0, 3) + "x"; g.sigs.push_back(q); }
	gen::Signed r = gen::sign(s, m, g, now);
	c.note("options", g.text()); c.note("message", printable(r.msg, 1000));
	if (!r.out.pass()) { REQUIRE(gen::refusable(m, g), "signing failed: " + r.out.what); return; }
	c.note("signatures", printable(r.sig, 3000));
	ref::Msg rm = ref::split(r.full); size_t base = ref::split(r.msg).headers.size();
	REQUIRE(rm.headers.size() == base + n, fmt("%zu fields were added for %zu signatures", rm.headers.size() - base, n));
	auto in = lib::stream_at(r.full, s); DKIM::Validatory v(*in, r.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	for (size_t k = 0; k < n; ++k)
	{
		const gen::SigReq& q = g.sigs[n - 1 - k]; const ref::Pair& key = ref::keys()[q.key];
		lib::Dns d; d.rec = ref::key_record(key); DKIM::Signature sg; DKIM::PublicKey pk;
		lib::Out o = lib::verify_nth(v, k, d, &sg, &pk);
		REQUIRE(o.pass(), fmt("signature %zu (%s): ", k + 1, key.name.c_str()) + o.what);
		REQUIRE(d.names.size() == 1 && ref::lower(d.names[0]) == ref::lower(q.sel + "._domainkey." + q.dom), "key looked up at " + (d.names.empty() ? str("nothing") : d.names[0]) + " for " + q.sel + " " + q.dom);
		REQUIRE((sg.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519) == key.ed, "algorithm of another key");
		ref::Dns rd; rd.rec = d.rec; ref::Result rr = ref::verify(rm, k, rd, now);
		if (rr.st != ref::ST_UNSPEC) REQUIRE(rr.st == ref::ST_PASS, fmt("reference on signature %zu: %s ", k + 1, ref::stage_name(rr.st)) + rr.why);
		for (size_t j = 0; j < std::min<size_t>(n, 5); ++j)
		{
			if (g.sigs[j].key == q.key) continue;
			lib::Dns e; e.rec = ref::key_record(ref::keys()[g.sigs[j].key]);
			REQUIRE(!lib::verify_nth(v, k, e).pass(), fmt("signature %zu verifies with the key of another signature", k + 1));
		}
		c.label(key.ed ? "ed25519" : "rsa");
	}
	c.label(fmt("signatures:%zu", n)); c.nontrivial(r.msg + g.text());
}
