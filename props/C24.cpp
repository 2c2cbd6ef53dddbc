#include "dump.hpp"
#include <openssl/err.h>
#include <openssl/pem.h>
#include <src/Base64.hpp>
#include <src/EncodedWord.hpp>
#include <src/QuotedPrintable.hpp>
#include <algorithm>
#include <cerrno>
const char* const prop_id = "C24";
const char* const prop_rule = "histories of up to 60 calls on long-lived signers, verifiers, options, signature, key and message objects over 1-3 messages and 1-3 sets of options (signing, verifying in any order, partly and repeatedly, resetting and reusing, failing calls, changing options back and forth, decoding functions), with errno, the OpenSSL error queue and the streams' state and position disturbed in between; every result compared with that of fresh objects in a clean state, the verdicts also with the reference; non-trivial: at least 4 compared calls; distinct by messages and history";
void prop_setup() { ref::keys(); }
namespace {
using lib::list; using lib::dump; using lib::text; using lib::parse;
struct Expect { str out, sig, key; ref::Stage st; };
struct World { str raw; bool arc; lib::Zone zone; std::vector<Expect> e; std::vector<lib::Dns> dns; str parsed; };
void clean() { errno = 0; ERR_clear_error(); }
void disturb(Src& s)
{
	if (s.coin()) errno = s.pickv<int>({ERANGE, EINVAL, ENOMEM, EINTR, EAGAIN, 12345, 0});
	if (s.coin()) switch (s.below(4)) { case 0: ERR_raise(ERR_LIB_RSA, 104); break; case 1: { BIO* b = BIO_new_mem_buf("-----BEGIN junk", -1); EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); EVP_PKEY_free(k); BIO_free(b); } break; case 2: { const unsigned char* p = (const unsigned char*)"\x30\x05xxxxx"; EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, 7); EVP_PKEY_free(k); } break; default: for (int i = 0; i < 20; ++i) ERR_raise(ERR_LIB_ASN1, 100 + i); }
}
void disturb_stream(Src& s, std::istream& in, size_t size)
{
	switch (s.below(6)) { case 0: in.clear(); in.seekg(0); break; case 1: in.clear(); in.seekg((std::streamoff)s.below(size + 1)); break; case 2: in.clear(); in.seekg(0, std::ios::end); in.get(); break; case 3: in.setstate(std::ios::failbit); break; case 4: in.setstate(std::ios::eofbit | std::ios::failbit); break; default: { in.clear(); str l; std::getline(in, l); } }
}
// all the steps of one signature with the given objects; what they report goes to e
lib::Out steps(DKIM::Validatory& v, size_t k, lib::Dns& d, DKIM::Signature& sg, DKIM::PublicKey& pk, str& ds, str& dk)
{
	lib::Out o = lib::verify_nth(v, k, d, &sg, &pk); ds = dk = "";
	if (o.pass() || o.stage > 1) ds = dump(sg); if (o.pass() || o.stage > 2) dk = dump(pk);
	return o;
}
}
void prop_run(Src& s, Ctx& c)
{
	long long now = 1600000000 + (long long)s.below(100000000); pbt::fake_now = now;
	size_t nw = 1 + s.weighted({5, 4, 2}), nc = 1 + s.weighted({4, 4, 2}); std::vector<World> W(nw); std::vector<gen::Cfg> C; str hist, all; size_t compared = 0;
	std::vector<gen::Message> base;
	for (size_t i = 0; i < nw; ++i) { gen::Message m = gen::message(s); if (m.body.size() > 20000) m.body.resize(20000); m.headers.erase(std::remove_if(m.headers.begin(), m.headers.end(), [](const str& h) { str n = gen::name_of(h); return n == "dkim-signature" || n == "arc-message-signature"; }), m.headers.end()); base.push_back(m); }
	for (size_t j = 0; j < nc; ++j) { C.push_back(gen::cfg(s, base[s.below(nw)], true, now)); for (auto& q : C.back().sigs) if (q.key == 8) q.key = 4; if (s.chance(1, 8)) { C.back().limited = true; C.back().limit = 1u << 30; } c.note(fmt("options %zu", j), C.back().text()); }
	// the messages with signatures: by the library's signer, by the reference, damaged ones
	for (size_t i = 0; i < nw; ++i)
	{
		World& w = W[i]; w.arc = s.chance(1, 4); gen::Message m = base[i];
		if (s.below(4)) { gen::Cfg g = C[s.below(nc)]; g.arc = w.arc ? 1 : 0; clean(); gen::Signed r = gen::sign(s, m, g, now); if (r.out.pass()) { for (auto& q : g.sigs) w.zone.add(q.sel, q.dom, gen::key_record(s, ref::keys()[q.key])); m = gen::with_signatures(m, r.sig); } }
		size_t nt = s.below(3);
		for (size_t k = 0; k < nt; ++k)
		{
			gen::ThirdParty t = gen::third_party(s, m, now); t.arc = w.arc; t.d = fmt("t%zu.example", k); t.has_i = false; if (s.chance(1, 4)) { static const char* D[] = {"a", "h", "bh", "v", "c", "d"}; t.drop.push_back(D[s.below(6)]); } if (s.chance(1, 6)) t.override_.push_back({s.pickv<str>({"x", "l", "c", "a"}), s.pickv<str>({"1", "x", "99999999999999999999", "relaxed/x"})});
			str h = gen::ref_sign(s, m, t); if (h.empty()) continue; if (s.below(6)) w.zone.add(t.sel, t.d, gen::key_record(s, ref::keys()[s.below(8) ? t.key : s.below(13)])); m.headers.insert(m.headers.begin(), h);
		}
		if (s.chance(1, 3)) gen::tamper(s, m, w.arc);
		w.raw = m.raw(); all += w.raw; c.note(fmt("message %zu", i), printable(w.raw, 900)); ref::Msg rm = ref::split(w.raw);
		{ clean(); std::istringstream in(w.raw); DKIM::Message mm; parse(mm, in); w.parsed = dump(mm); }
		for (size_t k = 0;; ++k)
		{
			size_t at = lib::nth_sig_index(rm, k, w.arc); if (at == str::npos) break;
			Expect e; lib::Dns d; ref::Sig rs = ref::parse_sig(rm.headers[at], now); ref::Dns rd = w.zone.get(rs); if (s.chance(1, 12)) rd.state = 2; d.state = rd.state; d.rec = rd.rec;
			clean(); std::istringstream in(w.raw); DKIM::Validatory v(in, w.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); DKIM::Signature sg; DKIM::PublicKey pk; lib::Out o = steps(v, k, d, sg, pk, e.sig, e.key); e.out = text(o); e.st = ref::verify(rm, at, rd, now).st;
			if (e.st != ref::ST_UNSPEC) REQUIRE(o.cls == ref::ar_class(e.st), "fresh objects and reference disagree: " + e.out + " / " + ref::stage_name(e.st));
			w.e.push_back(e); w.dns.push_back(d);
		}
	}
	std::vector<std::vector<str>> want(nw); // CreateSignature
	auto sign_fresh = [&](size_t i, size_t j) { clean(); std::istringstream in(W[i].raw); DKIM::SignatoryOptions o; C[j].apply(o); str r; lib::Out x = lib::guard(0, [&] { DKIM::Signatory g(in); r = g.CreateSignature(o); }); return x.pass() ? r : text(x); };
	for (size_t i = 0; i < nw; ++i) for (size_t j = 0; j < nc; ++j) want[i].push_back(sign_fresh(i, j));
	const strs dec = {s.str("abcXYZ=?_ \r\n\"<>@,;()\\", 0, 20), "=?utf-8?Q?a=41?= =?x?B?QUFB?=", "\"a b\" <c@d>, e@f", s.bytes(12)};
	auto decode = [&](size_t q, size_t f) { str r; lib::Out o = lib::guard(0, [&] { switch (f) { case 0: r = DKIM::Conversion::Base64_Decode(dec[q]); break; case 1: r = DKIM::Conversion::Base64_Encode(dec[q]); break; case 2: r = DKIM::Conversion::QuotedPrintable::Decode(dec[q]); break; case 3: r = DKIM::Conversion::QuotedPrintable::Encode(dec[q]); break; case 4: r = DKIM::Conversion::EncodedWord::Decode(dec[q]); break; case 5: r = list(DKIM::Tokenizer::ParseAddressList(dec[q])); break; case 6: r = list(DKIM::Tokenizer::ValueList(dec[q])); break; default: r = DKIM::Conversion::CanonicalizationHeader(DKIM::DKIM_C_RELAXED).FilterHeader("A:" + dec[q]); } }); return o.pass() ? r : text(o); };
	str dwant[4][8]; for (size_t q = 0; q < 4; ++q) for (size_t f = 0; f < 8; ++f) { clean(); dwant[q][f] = decode(q, f); }

	// long-lived objects; several share one stream
	struct Live { std::unique_ptr<std::istream> in, in2; std::unique_ptr<DKIM::Validatory> v; std::unique_ptr<DKIM::Signatory> g; bool shared, first = true; }; std::vector<Live> L(nw);
	std::vector<std::unique_ptr<DKIM::SignatoryOptions>> O; for (auto& g : C) { O.emplace_back(new DKIM::SignatoryOptions); g.apply(*O.back()); }
	for (size_t i = 0; i < nw; ++i)
	{
		Live& l = L[i]; l.in = lib::stream(W[i].raw, s); l.shared = s.coin(); if (!l.shared) l.in2 = lib::stream(W[i].raw, s); disturb(s);
		l.v.reset(new DKIM::Validatory(*l.in, W[i].arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM)); if (l.shared) { l.in->clear(); l.in->seekg(0); } l.g.reset(new DKIM::Signatory(l.shared ? *l.in : *l.in2));
		REQUIRE(l.v->GetSignatures().size() == W[i].e.size(), "number of signatures");
	}
	DKIM::Signature SG[2]; DKIM::PublicKey PK[2]; DKIM::Message MSG; struct Held { bool ok = false; size_t i = 0, k = 0; } held[2];
	size_t n = 6 + s.small(54);
	for (size_t op = 0; op < n; ++op)
	{
		size_t i = s.below(nw), j = s.below(nc); World& w = W[i]; Live& l = L[i]; disturb(s);
		switch (s.weighted({10, 10, 4, 3, 3, 3, 3, 2}))
		{
			case 0: // verify one signature with reset objects, all steps
			{
				if (w.e.empty()) break; size_t k = s.below(w.e.size()), a = s.below(2); hist += fmt("verify %zu.%zu; ", i, k);
				SG[a].Reset(); PK[a].Reset(); lib::Dns d = w.dns[k]; str ds, dk; lib::Out o = steps(*l.v, k, d, SG[a], PK[a], ds, dk);
				REQUIRE(text(o) == w.e[k].out, hist + "now " + text(o) + ", with fresh objects " + w.e[k].out); REQUIRE(ds == w.e[k].sig, hist + "the signature reports " + printable(ds) + ", a fresh one " + printable(w.e[k].sig)); REQUIRE(dk == w.e[k].key, hist + "the key reports " + printable(dk) + ", a fresh one " + printable(w.e[k].key));
				held[a].ok = o.pass() || o.stage == 3; held[a].i = i; held[a].k = k; ++compared;
			} break;
			case 1: // sign
			{
				hist += fmt("sign %zu with %zu; ", i, j); str r;
				if (l.first && l.shared) { l.in->clear(); l.in->seekg(0); } l.first = false;
				lib::Out x = lib::guard(0, [&] { r = l.g->CreateSignature(*O[j]); }); if (!x.pass()) r = text(x);
				REQUIRE(r == want[i][j], hist + "now " + printable(r) + "\n with fresh objects " + printable(want[i][j])); ++compared;
			} break;
			case 2: // check again what was parsed before
			{
				size_t a = s.below(2); if (!held[a].ok) break; size_t k = held[a].k; World& x = W[held[a].i]; Live& y = L[held[a].i]; hist += fmt("check %zu.%zu again; ", held[a].i, k);
				auto it = y.v->GetSignatures().begin(); std::advance(it, (long)k); lib::Out o = lib::guard(3, [&] { if (s.coin()) y.v->CheckBodyHash(SG[a]); if (s.coin()) y.v->CheckSignature(it, SG[a], PK[a]); else y.v->CheckSignature(*it, SG[a], PK[a]); });
				REQUIRE(text(o) == x.e[k].out, hist + "now " + text(o) + ", with fresh objects " + x.e[k].out); REQUIRE(dump(SG[a]) == x.e[k].sig && dump(PK[a]) == x.e[k].key, hist + "checking changed the signature or the key"); ++compared;
			} break;
			case 3: // failing calls
			{
				hist += "failing calls; ";
				lib::Out o = lib::guard(0, [&] { switch (s.below(6)) { case 0: O[j]->SetDomain("not valid"); break; case 1: O[j]->SetSelector("-"); break; case 2: O[j]->SetPrivateKey(C[j].sigs[0].key >= 9 ? "short" : "-----BEGIN nothing"); break; case 3: { DKIM::PublicKey p; p.Parse(s.pickv<str>({"v=DKIM1; p=", "p=AAAA", "k=ed25519; p=AAAA", "p=x; p=y", "="})); } break; case 4: { DKIM::Signature g; auto h = std::make_shared<DKIM::Header>(); h->ParseLine(s.pickv<str>({"DKIM-Signature: v=1; l=99999999999999999999; d=x; a=rsa-sha256; b=x; bh=x; h=from", "DKIM-Signature: v=2", "DKIM-Signature: v=1; v=1", "DKIM-Signature: v=1; a=rsa-sha256; b=AAAA; bh=AAAA; d=x; h=to"})); g.Parse(h); } break; default: { DKIM::SignatoryOptions e; std::istringstream in("From: x\r\n\r\n"); DKIM::Signatory g(in); g.CreateSignature(e); } } });
				REQUIRE(!o.pass(), hist + "the call was to fail");
			} break;
			case 4: // change options and back
			{
				hist += fmt("options %zu rebuilt or changed and back; ", j); const gen::Cfg& g = C[j];
				switch (s.below(5))
				{
					case 0: O[j].reset(new DKIM::SignatoryOptions); g.apply(*O[j]); break;
					case 1: O[j]->SetCanonModeHeader(g.hrel ? DKIM::DKIM_C_SIMPLE : DKIM::DKIM_C_RELAXED).SetCanonModeBody(g.brel ? DKIM::DKIM_C_SIMPLE : DKIM::DKIM_C_RELAXED); lib::guard(0, [&] { if (L[i].first && L[i].shared) { L[i].in->clear(); L[i].in->seekg(0); } L[i].first = false; L[i].g->CreateSignature(*O[j]); }); O[j]->SetCanonModeHeader(g.hrel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE).SetCanonModeBody(g.brel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); break;
					case 2: O[j]->SetDomain("other.example").SetSelector("other").SetDomain(g.sigs[0].dom).SetSelector(g.sigs[0].sel); break;
					case 3: gen::set_key(*O[j], ref::keys()[s.below(13)]); gen::set_key(*O[j], ref::keys()[g.sigs[0].key]); break;
					default: { auto o = O[j]->GetOversignHeaders(); O[j]->SetOversignHeaders({"x-y"}).SetOversignHeaders(o); auto h = O[j]->GetHeaders(); O[j]->SetHeaders({"a"}).AddHeaders({"b"}).DelHeaders({"a"}).SetHeaders(h); }
				}
			} break;
			case 5: hist += fmt("stream %zu disturbed; ", i); disturb_stream(s, *l.in, w.raw.size()); if (l.in2 && !l.first) disturb_stream(s, *l.in2, w.raw.size()); break;
			case 6: // message object, reset and reused, also after parsing only a part
			{
				hist += "parse; "; MSG.Reset(); std::istringstream in(w.raw); if (s.chance(1, 3)) { size_t q = s.below(6); std::istringstream part(W[s.below(nw)].raw); for (size_t z = 0; z < q; ++z) if (!MSG.IsDone()) MSG.ParseLine(part); MSG.Reset(); }
				parse(MSG, in); REQUIRE(dump(MSG) == w.parsed, hist + "the message object reports " + printable(dump(MSG)) + ", a fresh one " + printable(w.parsed)); ++compared;
			} break;
			default: { size_t q = s.below(4), f = s.below(8); hist += fmt("decode %zu.%zu; ", q, f); str r = decode(q, f); REQUIRE(r == dwant[q][f], hist + "now " + printable(r) + ", at first " + printable(dwant[q][f])); }
		}
	}
	for (size_t i = 0; i < nw; ++i) for (size_t j = 0; j < nc; ++j) REQUIRE(sign_fresh(i, j) == want[i][j], "fresh objects give another signature after the history");
	c.note("history", hist); c.label(fmt("messages:%zu", nw)); if (compared >= 4) c.nontrivial(all + hist); if (held[0].ok || held[1].ok) c.label("some signature passed to the last stage");
}
