#include "../model/lib.hpp"
const char* const prop_id = "C01";
const char* const prop_rule = "random messages (folded, 8-bit, repeated and odd header fields; bodies around block boundaries; CRLF/LF/mixed line ends) x random signing options; non-trivial: the signer returned a signature and every returned signature was verified; distinct by message and options";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000);
	gen::Message m = gen::message(s); gen::Cfg g = gen::cfg(s, m, true, now);
	gen::Signed r = gen::sign(s, m, g, now);
	c.note("options", g.text()); c.note("message", printable(r.msg, 1500));
	if (!r.out.pass()) { REQUIRE(gen::refusable(m, g), "signing failed: " + r.out.what); c.label("refused"); return; }
	c.note("signature", printable(r.sig, 1500));
	if (s.below(5) == 4) { // stored with LF line ends
		str t; for (char ch : r.sig) if (ch != '\r') t += ch;
		r.full = t + "\n" + r.msg; c.label("signature:LF");
	}
	size_t n = g.sigs.size();
	auto in = lib::stream_at(r.full, s);
	DKIM::Validatory v(*in, r.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	for (size_t k = 0; k < n; ++k)
	{
		const auto& q = g.sigs[n - 1 - k]; // the last one added is on top
		lib::Dns d; d.rec = s.below(3) ? ref::key_record(ref::keys()[q.key]) : gen::key_record(s, ref::keys()[q.key]);
		lib::Out o = lib::verify_nth(v, k, d);
		REQUIRE(o.pass(), fmt("signature %zu of %zu does not verify (stage %d, %s): ", k + 1, n, o.stage, o.cls.c_str()) + o.what);
	}
	c.label(g.hrel ? "header:relaxed" : "header:simple"); c.label(g.brel ? "body:relaxed" : "body:simple");
	c.label(fmt("signatures:%zu", n)); if (g.limited) c.label("l="); if (r.arc) c.label("arc"); if (!g.over.empty()) c.label("oversign"); if (m.body.size() > 8096) c.label("body:>8096");
	c.nontrivial(r.msg + g.text());
}
