#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C29";
const char* const prop_rule = "signing: the same random message and options with and without an ARC instance, tag by tag, and verified; verifying: ARC fields signed by the reference with valid and invalid instances, versions, d=/key restrictions that DKIM forbids; both kinds in one message, in both orders, each judged alone and together and after damage to the other; non-trivial: a signature was produced or judged; distinct by message, options and defect";
void prop_setup() { ref::keys(); }
namespace {
std::vector<ref::Tag> tags_of(const str& field) { std::vector<ref::Tag> t; ref::Msg m = ref::split(field); REQUIRE(m.headers.size() == 1, "one field expected"); REQUIRE(ref::taglist(m.headers[0].raw.substr(m.headers[0].value), t) == ref::ACCEPT, "not a tag list"); return t; }
str val(const std::vector<ref::Tag>& t, const str& n) { auto x = ref::find(t, n); if (!x) return "(none)"; str r; for (char ch : x->value) if (!isspace((unsigned char)ch)) r += ch; return r; }

void signing(Src& s, Ctx& c, long long now)
{
	gen::Message m = gen::message(s); gen::Cfg g = gen::cfg(s, m, true, now); g.arc = s.below(4) ? 1 + s.below(50) : s.coin() ? 50 : 1;
	if (s.chance(1, 3) && !g.has_identity) { g.has_identity = true; g.identity = s.pickv<str>({"user@elsewhere.example", "no-at-sign", "@" + g.sigs[0].dom, "u@" + g.sigs[0].dom}); }
	gen::Signed a = gen::sign(s, m, g, now); gen::Cfg gd = g; gd.arc = 0; gen::Signed d = gen::sign(s, m, gd, now);
	c.note("options", g.text()); c.note("message", printable(m.raw(), 1500)); c.note("ARC", a.out.pass() ? printable(a.sig) : a.out.what); c.note("DKIM", d.out.pass() ? printable(d.sig) : d.out.what);
	REQUIRE(a.out.cls == d.out.cls, "signing with an instance: " + a.out.cls + ", without: " + d.out.cls); if (!a.out.pass()) { c.label("refused"); return; }
	ref::Msg ma = ref::split(a.sig + "\r\n\r\n"), md = ref::split(d.sig + "\r\n\r\n"); size_t n = g.sigs.size(); REQUIRE(ma.headers.size() == n && md.headers.size() == n, "number of fields");
	for (size_t k = 0; k < n; ++k)
	{
		REQUIRE(ma.headers[k].name == "ARC-Message-Signature", "field name " + ma.headers[k].name); REQUIRE(md.headers[k].name == "DKIM-Signature", "field name " + md.headers[k].name);
		auto ta = tags_of(ma.headers[k].raw), td = tags_of(md.headers[k].raw); size_t ni = 0; for (auto& t : ta) { ni += t.name == "i"; REQUIRE(t.name != "v", "v= in an ARC field"); }
		REQUIRE(ni == 1 && val(ta, "i") == std::to_string(g.arc), fmt("%zu i= tags, i=", ni) + val(ta, "i"));
		for (auto& t : td) if (t.name != "v" && t.name != "i" && t.name != "b") REQUIRE(val(ta, t.name) == val(td, t.name), t.name + "= is " + val(ta, t.name) + ", for DKIM " + val(td, t.name));
		for (auto& t : ta) if (t.name != "i") REQUIRE(ref::find(td, t.name), "tag " + t.name + "= that DKIM has not");
	}
	auto in = lib::stream(a.full, s); DKIM::Validatory v(*in, DKIM::Validatory::ARC);
	for (size_t k = 0; k < n; ++k)
	{
		lib::Dns z; z.rec = ref::key_record(ref::keys()[g.sigs[n - 1 - k].key]); DKIM::Signature sg; lib::Out o = lib::verify_nth(v, k, z, &sg); REQUIRE(o.pass(), fmt("signature %zu: ", k + 1) + o.what);
		REQUIRE(sg.IsARC() && sg.GetARCInstance() == g.arc, fmt("instance reported as %lu", sg.GetARCInstance()));
	}
	c.label("signing"); c.nontrivial(a.msg + g.text());
}
void verifying(Src& s, Ctx& c, long long now)
{
	gen::Message m = gen::message(s); gen::ThirdParty t = gen::third_party(s, m, now); t.arc = true; const ref::Pair& key = ref::keys()[t.key]; str rec = gen::key_record(s, key), what = "nothing"; bool reject = false;
	switch (s.below(7))
	{
		case 0: { str i = s.pickv<str>({"0", "51", "00", "-1", "x", "1000", "18446744073709551617", "4294967297", "", "99999999999999999999999", "1x", "+1", "1 0", "-18446744073709551615", "5.", "user@example.com", "100", "255", "256", "257"}); t.override_.push_back({"i", i}); what = "i=" + i; reject = true; } break;
		case 1: t.drop.push_back("i"); what = "no i="; reject = true; break;
		case 2: { str v = s.pickv<str>({"1", "2", "", "x", "DKIM1"}); t.extra.push_back({"v", v}); what = "v=" + v; } break;
		case 3: t.dup.push_back("i"); what = "two i="; reject = true; break;
		case 4: rec = "v=DKIM1; t=" + s.pickv<str>({"s", "s", "s:y", "y:s", "x:s:y", "s:s"}) + "; k=" + str(key.ed ? "ed25519" : "rsa") + "; p=" + ref::key_p(key); what = "flag s"; break;
		case 5: { str i = s.pickv<str>({"1", "50", "10", "49", "2"}); t.override_.push_back({"i", i}); what = "i=" + i; } break;
		default: { str n = s.pickv<str>({"h", "d", "s", "bh", "a"}); t.drop.push_back(n); what = "no " + n + "="; reject = true; }
	}
	str h = gen::ref_sign(s, m, t); if (h.empty()) { c.label("unsignable"); return; } // the reference refuses a bare CR
	gen::Message x = m; x.headers.insert(x.headers.begin(), h); str raw = x.raw(); c.note("defect", what); c.note("message", printable(raw, 2500)); c.note("record", rec);
	std::istringstream in(raw); DKIM::Validatory v(in, DKIM::Validatory::ARC); lib::Dns d; d.rec = rec; DKIM::Signature sg; lib::Out o = lib::verify_nth(v, 0, d, &sg);
	ref::Msg rm = ref::split(raw); ref::Dns rd; rd.rec = rec; ref::Result r = ref::verify(rm, 0, rd, now);
	if (r.st != ref::ST_UNSPEC) REQUIRE((r.st == ref::ST_PASS) == !reject, str("the reference says ") + ref::stage_name(r.st));
	REQUIRE(o.pass() == !reject, what + ": " + (o.pass() ? "accepted" : o.what)); if (reject) REQUIRE(o.cls == "permerror", o.cls);
	if (!reject) { ref::Sig rs = ref::parse_sig(rm.headers[0], now); REQUIRE(sg.IsARC() && sg.GetARCInstance() == rs.arc_i, fmt("instance reported as %lu", sg.GetARCInstance())); REQUIRE(sg.GetMailDomain().empty() && sg.GetMailLocalPart().empty(), "an identity is reported"); }
	// as a DKIM message it has no signature from this field
	size_t others = 0; for (auto& y : m.headers) others += gen::name_of(y) == "dkim-signature"; REQUIRE(lib::signature_count(raw, false) == others, "listed as a DKIM signature");
	c.label(reject ? "defect" : "harmless"); c.nontrivial(raw + what);
}
void mixed(Src& s, Ctx& c, long long now)
{
	gen::Message m = gen::message(s); m.headers.erase(std::remove_if(m.headers.begin(), m.headers.end(), [](const str& h) { str n = gen::name_of(h); return n == "dkim-signature" || n == "arc-message-signature"; }), m.headers.end());
	size_t n = 2 + s.below(3); lib::Zone z; str text; size_t nd = 0, na = 0; bool both_all = s.chance(1, 3);
	struct One { bool arc; str sel; }; std::vector<One> order; // top first
	for (size_t k = 0; k < n; ++k)
	{
		gen::Cfg g = gen::cfg(s, m, false, now); g.arc = k == 0 ? 0 : k == 1 ? 1 + s.below(50) : s.coin() ? 1 + s.below(50) : 0; g.sigs[0].dom = "a.example"; g.sigs[0].sel = fmt("s%zu", k); g.has_identity = false; g.identity.clear(); if (both_all && s.coin()) { g.hmode = 2; g.headers.clear(); g.add.clear(); g.del.clear(); }
		gen::Signed r = gen::sign(s, m, g, now); if (!r.out.pass()) { c.label("refused"); return; }
		z.add(g.sigs[0].sel, g.sigs[0].dom, ref::key_record(ref::keys()[g.sigs[0].key])); m = gen::with_signatures(m, r.sig); order.insert(order.begin(), {g.arc != 0, g.sigs[0].sel}); (g.arc ? na : nd)++; text += g.text() + "; ";
	}
	auto check = [&](const gen::Message& x, const str& when) {
		str raw = x.raw(); auto in = lib::stream(raw, s); std::unique_ptr<DKIM::Validatory> v[2]; v[0].reset(new DKIM::Validatory(*in, DKIM::Validatory::DKIM)); auto in2 = lib::stream(raw, s); v[1].reset(new DKIM::Validatory(*in2, DKIM::Validatory::ARC)); ref::Msg rm = ref::split(raw);
		size_t cnt[2] = {0, 0}, have[2] = {nd, na}; for (int a = 0; a < 2; ++a) REQUIRE(v[a]->GetSignatures().size() == have[a], fmt("%zu %s signatures listed, %zu expected", v[a]->GetSignatures().size(), a ? "ARC" : "DKIM", have[a]));
		for (auto& o : order)
		{
			size_t at = ref::split(raw).headers.size(); size_t k = cnt[o.arc]++; at = lib::nth_sig_index(rm, k, o.arc); ref::Sig sg = ref::parse_sig(rm.headers[at], now); ref::Dns d = z.get(sg); ref::Result r = ref::verify(rm, at, d, now);
			lib::Dns ld; ld.state = d.state; ld.rec = d.rec; lib::Out l = lib::verify_nth(*v[o.arc], k, ld);
			if (r.st == ref::ST_UNSPEC) { c.label("unspecified"); continue; }
			c.label(str(o.arc ? "ARC " : "DKIM ") + (r.st == ref::ST_PASS ? "passes" : "fails")); REQUIRE(l.pass() == (r.st == ref::ST_PASS), fmt("%s signature %zu %s: ", o.arc ? "ARC" : "DKIM", k + 1, when.c_str()) + l.cls + " " + l.what + ", reference " + ref::stage_name(r.st));
		}
	};
	c.note("signed with", text); c.note("message", printable(m.raw(), 3000)); check(m, "untouched");
	gen::Message x = m; std::vector<size_t> pos; for (size_t i = 0; i < x.headers.size(); ++i) { str nm = gen::name_of(x.headers[i]); if (nm == "dkim-signature" || nm == "arc-message-signature") pos.push_back(i); }
	size_t p = pos[s.below(pos.size())]; size_t at = x.headers[p].rfind("b=") + 2; if (at < x.headers[p].size()) { x.headers[p][at] = x.headers[p][at] == 'A' ? 'B' : 'A'; check(x, fmt("after damage to field %zu", p)); }
	c.nontrivial(m.raw());
}
}
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000); pbt::fake_now = now;
	switch (s.below(3)) { case 0: return signing(s, c, now); case 1: return verifying(s, c, now); default: return mixed(s, c, now); }
}
