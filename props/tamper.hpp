// Common to C02 and C03: a signed message, made by the library or by the reference.
#pragma once
#include "../model/lib.hpp"
struct SignedMsg { gen::Message m; bool arc = false, hrel = false, brel = false; lib::Zone zone; size_t nsig = 0; str text; };
// false: no signed message came out (the reason is labelled)
inline bool make_signed(Src& s, Ctx& c, long long now, SignedMsg& r)
{
	gen::Message m = gen::message(s);
	if (s.below(3) == 0)
	{
		gen::ThirdParty t = gen::third_party(s, m, now); str h = gen::ref_sign(s, m, t);
		if (h.empty()) { c.label("unsignable"); return false; }
		r.m = m; r.m.headers.insert(r.m.headers.begin(), h); r.arc = t.arc; r.hrel = t.hrel; r.brel = t.brel; r.nsig = 1;
		r.zone.add(t.sel, t.d, ref::key_record(ref::keys()[t.key])); r.text = "reference signer, key " + ref::keys()[t.key].name; c.label("signer:reference");
		return true;
	}
	gen::Cfg g = gen::cfg(s, m, true, now); gen::Signed sg = gen::sign(s, m, g, now);
	if (!sg.out.pass()) { c.label("refused"); return false; }
	r.m = gen::with_signatures(m, sg.sig); r.arc = sg.arc; r.hrel = g.hrel; r.brel = g.brel; r.nsig = g.sigs.size(); r.text = g.text();
	for (auto& q : g.sigs) if (!r.zone.add(q.sel, q.dom, ref::key_record(ref::keys()[q.key]))) { c.label("same name twice"); return false; }
	c.label("signer:library");
	return true;
}
