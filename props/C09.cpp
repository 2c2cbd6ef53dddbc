#include "../model/lib.hpp"
const char* const prop_id = "C09";
const char* const prop_rule = "random messages (well-formed, and raw bytes over a hostile alphabet of line ends, blanks, colons and signature names; truncated anywhere) from several stream kinds; non-trivial: at least one header field; distinct by message";
void prop_setup() {}
void prop_run(Src& s, Ctx& c)
{
	str raw;
	switch (s.weighted({3, 3}))
	{
		case 0: { gen::Message m = gen::message(s); raw = m.raw(); } break;
		default:
		{
			static const char* P[] = {"\r\n", "\n", "From: a", "DKIM-Signature: v=1", "dkim-signature:x", "ARC-Message-Signature: i=1", "arc-message-signature : y", " ", "\t", ":", "x", "\r", "DKIM-Signature", "DKIM-Signature\t:z", "dkim-signaturex:", "\n\n", "\r\n\r\n", "body", "\xff", "\r\n\t", " fold", "DKIM-SIGNATURE:"};
			size_t n = s.small(40); for (size_t i = 0; i < n; ++i) raw += P[s.below(22)];
			if (s.chance(1, 8)) raw += str(s.size(70000), 'q');
			if (s.chance(1, 8)) raw += str(1, '\0');
		}
	}
	if (s.chance(1, 4)) raw.resize(s.below(raw.size() + 1));
	ref::Msg want = ref::split(raw); long long start = 0; auto in = lib::stream_at(raw, s, &start);
	c.note("message", printable(raw, 2500));
	DKIM::Message m; size_t lines = 0; while (m.ParseLine(*in) && !m.IsDone()) REQUIRE(++lines < raw.size() + 2, "does not end");
	REQUIRE(m.IsDone(), "not done at the end");
	const auto& hs = m.GetHeaders();
	REQUIRE(hs.size() == want.headers.size(), fmt("%zu fields, expected %zu", hs.size(), want.headers.size()));
	size_t i = 0;
	for (auto& h : hs)
	{
		const ref::Hdr& w = want.headers[i++];
		REQUIRE(h->GetHeader() == w.raw, "field " + printable(h->GetHeader()) + " expected " + printable(w.raw));
		if (w.colon) { REQUIRE(h->GetName() == w.name, "name " + printable(h->GetName()) + " expected " + printable(w.name)); REQUIRE(h->GetValueOffset() == w.value, fmt("value at %zu, expected %zu", h->GetValueOffset(), w.value)); }
		else REQUIRE(h->GetName().empty(), "a field without a colon has a name: " + printable(h->GetName()));
	}
	long long off = (long long)m.GetBodyOffset(); if (off != -1) off -= start; if (start) c.label("message further on in the stream");
	if (!want.separator) REQUIRE(off == -1, fmt("body at %lld of a message without a body", off));
	else if (want.body.empty()) REQUIRE(off == -1 || off == (long long)raw.size(), fmt("body at %lld, expected %zu or none", off, raw.size()));
	else REQUIRE(off == (long long)want.body_at, fmt("body at %lld, expected %zu", off, want.body_at));
	// signatures
	for (int t = 0; t < 3; ++t)
	{
		auto in2 = lib::stream_at(raw, s); DKIM::Validatory v(*in2, t == 0 ? DKIM::Validatory::DKIM : t == 1 ? DKIM::Validatory::ARC : DKIM::Validatory::NONE);
		std::vector<size_t> idx;
		if (t < 2) for (size_t k = 0; k < want.headers.size(); ++k) if (ref::lower(want.headers[k].name) == (t ? "arc-message-signature" : "dkim-signature")) idx.push_back(k);
		REQUIRE(v.GetSignatures().size() == idx.size(), fmt("%zu signatures of type %d, expected %zu", v.GetSignatures().size(), t, idx.size()));
		size_t k = 0; for (auto& h : v.GetSignatures()) { REQUIRE(h->GetHeader() == want.headers[idx[k]].raw, "another field in the list of signatures: " + printable(h->GetHeader())); ++k; }
		if (idx.size()) c.label(t ? "has ARC signature" : "has DKIM signature");
	}
	// the default type is DKIM; a parser that was reset starts over
	if (s.chance(1, 3)) { auto in3 = lib::stream(raw, s); m.Reset(); REQUIRE(!m.IsDone() && m.GetHeaders().empty(), "Reset left something"); while (m.ParseLine(*in3) && !m.IsDone()) {} REQUIRE(m.GetHeaders().size() == want.headers.size() && (long long)m.GetBodyOffset() == off, "another result after Reset"); }
	c.label(want.separator ? "body" : "no body");
	if (!want.headers.empty()) c.nontrivial(raw);
}
