#include "../model/lib.hpp"
#include <algorithm>
const char* const prop_id = "C31";
const char* const prop_rule = "messages of few field names with many occurrences (equal and different, any case), signed by the library (listed, all, oversigned fields) or by the reference signer with any h= (names repeated, in excess, absent, any order); h= counted against the model; then one change of the fields (add, remove, swap, move, alter, rename), decided by a model of bottom-up selection; non-trivial: signed and the change decided; distinct by message, h= and change";
void prop_setup() { ref::keys(); }
namespace {
str value(Src& s) { return s.pickv<str>({" a", " b", " a", "", " c d", " x\r\n y", " A"}); }
// what an h= list selects from fields, in order
bool select(const strs& h, const strs& fields, bool relaxed, strs& out)
{
	std::vector<bool> used(fields.size()); out.clear();
	for (auto& n : h) for (size_t i = fields.size(); i-- > 0;) if (!used[i] && gen::name_of(fields[i]) == ref::lower(n)) { used[i] = true; str c; if (ref::canon_header(fields[i], relaxed, c) != ref::ACCEPT) return false; out.push_back(c); break; }
	return true;
}
}
void prop_run(Src& s, Ctx& c)
{
	long long now = 1700000000; gen::Message m; strs names = {"From"}; size_t nn = 1 + s.below(4);
	for (size_t i = 0; i < nn; ++i) names.push_back(s.pickv<str>({"X-A", "Received", "Subject", "To", "X-B", "List-Id", "Fro", "From", "DKIM-Signature", "X-A-", "Resent-From"}));
	if (s.chance(1, 4)) { str x = gen::hname(s); if (x.find_first_of(" \t;:") == str::npos) names.push_back(x); }
	size_t n = 1 + s.small(16); if (s.chance(1, 60)) n += s.size(400); size_t from = s.below(n);
	for (size_t i = 0; i < n; ++i) { str nm = i == from ? "From" : s.pick(names); str v = value(s); if (nm == "DKIM-Signature") v = " v=1; a=rsa-sha256; d=x; s=y; h=from; bh=AAAA; b=AAAA;" + (v == "" ? str("") : " n=" + v.substr(1)); m.headers.push_back(gen::randcase(s, nm) + ":" + v); }
	m.body = s.coin() ? "body\r\n" : ""; m.eol = (int)s.below(3);
	bool relaxed = s.coin(), arc = false; strs h; gen::Message signed_; size_t key = s.coin() ? 9 + s.below(4) : s.below(3); str text; std::map<str, size_t> occ; for (auto& x : m.headers) ++occ[gen::name_of(x)];
	if (s.coin())
	{
		gen::Cfg g; g.sigs.push_back({key, "a.example", "x"}); g.hrel = relaxed; g.brel = s.coin(); g.hmode = (int)s.below(3);
		if (g.hmode == 1) { for (auto& x : names) if (s.below(3)) g.headers.push_back(gen::randcase(s, x)); g.headers.push_back("from"); }
		if (s.below(3)) { size_t k = 1 + s.small(4); for (size_t i = 0; i < k; ++i) { str o = s.below(5) ? s.pick(names) : s.pickv<str>({"X-None", "Sender", "Subject"}); g.over.push_back(gen::randcase(s, o)); } }
		arc = s.chance(1, 8); if (arc) g.arc = 1 + s.below(50);
		gen::Signed r = gen::sign(s, m, g, now); REQUIRE(r.out.pass(), r.out.what); text = g.text();
		signed_ = gen::with_signatures(m, r.sig); std::vector<ref::Tag> t; ref::Msg sm = ref::split(r.sig); REQUIRE(sm.headers.size() == 1, "one field expected"); ref::taglist(sm.headers[0].raw.substr(sm.headers[0].value), t);
		const ref::Tag* ht = ref::find(t, "h"); REQUIRE(ht && ref::colonlist(ht->value, h) == ref::ACCEPT, "no list of signed fields");
		strs sel = g.selected(); std::map<str, size_t> want, got; for (auto& o : g.over) { ++want[ref::lower(o)]; }
		for (auto& x : occ) if (g.hmode == 2 || std::find(sel.begin(), sel.end(), x.first) != sel.end() || want.count(x.first)) want[x.first] += x.second;
		for (auto& x : h) ++got[ref::lower(x)];
		c.note("options", text); c.note("message", printable(r.full));
		for (auto& w : want) REQUIRE(got[w.first] == w.second, fmt("%s is listed %zu times, expected %zu", w.first.c_str(), got[w.first], w.second));
		for (auto& w : got) REQUIRE(want[w.first] == w.second, fmt("%s is listed %zu times, expected %zu", w.first.c_str(), w.second, want[w.first]));
		c.label("signer:library");
	}
	else
	{
		gen::ThirdParty t; t.key = key; t.hrel = relaxed; t.brel = s.coin(); t.d = "a.example"; t.sel = "x"; size_t k = s.small(14); t.h = {"From"};
		std::map<str, size_t> in; in["from"] = 1;
		for (size_t i = 0; i < k; ++i) { str x = s.below(6) ? s.pick(names) : s.pickv<str>({"X-None", "Sender", "From"}); str l = ref::lower(x); ++in[l]; t.h.insert(t.h.begin() + (long)s.below(t.h.size() + 1), gen::randcase(s, x)); }
		arc = s.chance(1, 8); t.arc = arc; h = t.h; str hd = gen::ref_sign(s, m, t); REQUIRE(!hd.empty(), "reference signer"); signed_ = m; signed_.headers.insert(signed_.headers.begin(), hd); c.label("signer:reference");
		for (auto& x : h) text += x + ":"; c.note("h", text);
	}
	ref::Dns dns; dns.rec = ref::key_record(ref::keys()[key]);
	strs before, after; if (!select(h, m.headers, relaxed, before)) return;
	auto verify = [&](const gen::Message& x, size_t at) { str raw = x.raw(); auto in = lib::stream_at(raw, s); DKIM::Validatory v(*in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); lib::Dns d; d.rec = dns.rec; return lib::verify_nth(v, at, d); };
	{ lib::Out o = verify(signed_, 0); REQUIRE(o.pass(), "does not verify: " + o.what); }
	// one change of the fields below the signature
	strs f = m.headers; str what; size_t p = s.below(f.size()), q = s.below(f.size() + 1); str nm = s.below(6) ? s.pick(names) : s.pickv<str>({"X-None", "Sender", "Cc"}); if (nm == "DKIM-Signature") nm = "X-A";
	switch (s.weighted({6, 3, 3, 2, 2, 2, 1}))
	{
		case 0: f.insert(f.begin() + (long)q, gen::randcase(s, nm) + ":" + value(s)); what = "added " + printable(f[q]) + fmt(" at %zu", q); break;
		case 1: what = "removed " + printable(f[p]) + fmt(" at %zu", p); f.erase(f.begin() + (long)p); break;
		case 2: if (q < f.size()) { what = fmt("swapped %zu and %zu", p, q); std::swap(f[p], f[q]); } break;
		case 3: { str x = f[p]; f.erase(f.begin() + (long)p); f.insert(f.begin() + (long)std::min(q, f.size()), x); what = fmt("moved %zu to %zu", p, q); } break;
		case 4: if (gen::name_of(f[p]) != "dkim-signature") { f[p] = f[p].substr(0, f[p].find(':')) + ":" + value(s); what = fmt("changed %zu to ", p) + printable(f[p]); } break;
		case 5: if (gen::name_of(f[p]) != "dkim-signature") { f[p] = gen::randcase(s, nm) + f[p].substr(f[p].find(':')); what = fmt("renamed %zu to ", p) + printable(f[p]); } break;
		default: { str x = f[p]; f.insert(f.begin() + (long)q, x); what = fmt("copied %zu to %zu", p, q); }
	}
	if (f.empty() || !select(h, f, relaxed, after)) return;
	// the signature stays on top, or goes anywhere
	gen::Message x = m; x.headers = f; size_t at = s.below(3) ? 0 : s.below(f.size() + 1); x.headers.insert(x.headers.begin() + (long)at, signed_.headers[0]);
	size_t nth = 0; for (size_t i = 0; i < at; ++i) nth += gen::name_of(f[i]) == (arc ? "arc-message-signature" : "dkim-signature");
	bool same = before == after; c.note("change", what + (at ? fmt(", signature moved to %zu", at) : str(""))); c.note("expected", same ? "verifies" : "fails"); c.label(same ? "selection unchanged" : "selection changed");
	lib::Out o = verify(x, nth); REQUIRE(o.pass() == same, (same ? "unchanged selection, but " + o.what : "verifies with another selection: ") + " after: " + what);
	c.nontrivial(text + "|" + signed_.raw() + "|" + what);
}
