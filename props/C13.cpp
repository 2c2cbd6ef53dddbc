#include "../model/lib.hpp"
#include <algorithm>
#include <type_traits>
#include <openssl/x509.h>
const char* const prop_id = "C13";
const char* const prop_rule = "key records built tag by tag, each tag valid, absent, duplicated, in other letter case or defective, freely formatted, with real and broken keys; non-trivial: the reference accepts or rejects the record; distinct by record";
static strs odd_keys; // DER of keys and things that are no RSA public key
void prop_setup()
{
	ref::keys();
	auto add = [](EVP_PKEY* k) { if (!k) return; unsigned char* d = nullptr; int n = i2d_PUBKEY(k, &d); if (n > 0) odd_keys.push_back(str((char*)d, (size_t)n)); OPENSSL_free(d); EVP_PKEY_free(k); };
	add(EVP_EC_gen("P-256")); add(EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)ref::keys()[9].seed.data(), 32));
	add(EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, (const unsigned char*)ref::keys()[9].seed.data(), 32));
}
// To another object and back, where key objects can be assigned
template <class P> static void around(P& k) { if constexpr (std::is_copy_assignable<P>::value) { P t; t = k; k.Reset(); k.Parse("t=y; p=" + ref::key_p(ref::keys()[0])); k = t; } }
void prop_run(Src& s, Ctx& c)
{
	size_t defects = s.weighted({4, 4, 1}); bool ed = s.coin();
	struct T { str n, v; bool present; strs bad; };
	std::vector<T> t; auto tag = [&](const str& n, bool present, const str& v, strs bad) { t.push_back({n, v, present, bad}); };
	tag("v", s.below(3) != 0, "DKIM1", {"DKIM2", "1", "dkim1", "", "DKIM1x", "DKIM 1", "DKIM"});
	tag("h", s.coin(), s.chance(1, 8) ? gen::many(s, {"sha256", "sha1", "sha512", "x"}) : s.pickv<str>({"sha256", "sha1", "sha1:sha256", "sha256:sha1", "sha512:sha256", "x:sha1:y", "sha256:sha256", "sha256:sha512:sha1"}), {"", "sha512", "x:y", "SHA256", "sha-256", "sha256x", "sha:1", ":sha256", "sha1::sha256", "sha25", "xsha256", "sha2561"});
	tag("k", ed || s.coin(), ed ? "ed25519" : "rsa", {"", "RSA", "dsa", "ed25519x", "rsa:ed25519", "Ed25519", "x509", ed ? "rsa" : "ed25519", "r sa"});
	size_t ki = ed ? 9 + s.below(4) : s.below(8); str p = ref::keys()[ki].pub;
	if (s.chance(1, 6))
		switch (s.below(8))
		{
			case 0: p.resize(s.below(p.size())); break;
			case 1: p[s.below(p.size())] ^= (char)(1 << s.below(8)); break;
			case 2: p += s.bytes(3); break;
			case 3: p = ref::keys()[ed ? s.below(8) : 9].pub; break;
			case 4: p = odd_keys[s.below(odd_keys.size())]; break;
			case 5: p = str(s.pickv<size_t>({31, 33, 32, 64, 1}), (char)s.below(256)); break;
			case 6: p = s.bytes(60); break;
			default: { const unsigned char* q = (const unsigned char*)p.data(); if (ed) break; EVP_PKEY* k = d2i_PUBKEY(nullptr, &q, (long)p.size()); if (!k) break; unsigned char* d = nullptr; int n = i2d_PublicKey(k, &d); if (n > 0) p = str((char*)d, (size_t)n); OPENSSL_free(d); EVP_PKEY_free(k); } // PKCS#1 instead of SPKI
		}
	str b = ref::b64enc(p); if (s.chance(1, 4) && b.size() > 1) for (size_t i = 0; i < 3; ++i) b.insert(1 + s.below(b.size() - 1), s.pickv<str>({" ", "\r\n ", "\t"}));
	tag("p", true, b, {"", "AAAA", "====", "!", " "});
	tag("s", s.coin(), s.chance(1, 8) ? gen::many(s, {"email", "*", "tlsrpt", "x"}) : s.pickv<str>({"*", "email", "email:*", "*:email", "tlsrpt:email", "email:tlsrpt", "x:*:y", "x:email:y"}), {"", "tlsrpt", "x:y", "EMAIL", "emailx", "xemail", ":email", "email::x", "e mail", "**", "mail", "a:b:c"});
	tag("t", s.coin(), s.chance(1, 8) ? gen::many(s, {"y", "s", "x", "Y"}) : s.pickv<str>({"y", "s", "y:s", "s:y", "x", "", "x:y:s", "yy", "Y:S", "ys"}), {":y", "y::s"});
	if (s.chance(1, 4)) tag("n", true, "note about=20the key", {"\x01", "\x80"});
	if (s.chance(1, 4)) tag(s.pickv<str>({"g", "z", "P", "K", "S", "pp", "x1", "r"}), true, s.pickv<str>({"*", "", "a b", "rsa"}), {"\x02"});
	for (size_t k = 0; k < defects; ++k)
	{
		T& x = t[s.below(t.size())];
		switch (s.below(6)) { case 0: x.present = false; break; case 1: { T y = x; y.present = true; t.push_back(y); } break; case 2: for (auto& ch : x.n) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch)); break; default: x.present = true; gen::odd(s, x.v, x.bad, x.n == "h" || x.n == "s" || x.n == "t"); }
	}
	std::vector<std::pair<str, str>> tags; for (auto& x : t) if (x.present) tags.push_back({x.n, x.v});
	size_t fix = !tags.empty() && tags[0].first == "v" ? 1 : 0;
	for (size_t i = tags.size(); i > fix + 1; --i) if (s.below(3)) std::swap(tags[i - 1], tags[fix + s.below(i - fix)]);
	str rec = s.below(3) ? gen::format_tags(s, tags, {"h", "s", "t"}) : str();
	if (rec.empty()) for (size_t i = 0; i < tags.size(); ++i) rec += (i ? s.pickv<str>({"; ", ";"}) : str()) + tags[i].first + "=" + tags[i].second;
	if (s.chance(1, 25)) rec.insert(s.below(rec.size() + 1), s.pickv<str>({";", "=", ";;", "x", " ", "\x7f", "\n"}));
	ref::Key want = ref::parse_key(rec);
	DKIM::PublicKey k; if (s.chance(1, 4)) { lib::guard(0, [&] { k.Parse("v=DKIM1; h=sha1; s=email; t=y:s; " + ref::key_record(ref::keys()[s.coin() ? 9 : 0]).substr(9)); }); k.Reset(); }
	c.note("record", printable(rec)); c.note("reference", want.v == ref::ACCEPT ? "accepts" : want.v == ref::REJECT ? "rejects: " + want.why : "unspecified");
	lib::Out o = lib::guard(2, [&] { k.Parse(rec); });
	c.note("library", o.pass() ? "accepted" : o.what); c.label(want.v == ref::ACCEPT ? "accepted" : want.v == ref::REJECT ? "rejected: " + want.why : "unspecified");
	if (want.v == ref::UNSPEC) { REQUIRE(o.pass() || o.cls == "permerror", o.cls); return; }
	c.nontrivial(rec);
	if (want.v == ref::REJECT) { REQUIRE(!o.pass(), "accepted although: " + want.why); REQUIRE(o.cls == "permerror" && o.what.compare(0, 9, "Permanent") == 0, "not a permanent error: " + o.what); return; }
	REQUIRE(o.pass(), "refused: " + o.what); if (s.chance(1, 4)) around(k);
	REQUIRE((k.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519) == want.ed, "key type");
	auto& da = k.GetDigestAlgorithms(); bool s1 = std::find(da.begin(), da.end(), DKIM::DKIM_A_SHA1) != da.end(), s2 = std::find(da.begin(), da.end(), DKIM::DKIM_A_SHA256) != da.end();
	REQUIRE(da.empty() == want.any_hash && (want.any_hash || (s1 == want.sha1 && s2 == want.sha256)), fmt("allowed hashes: sha1 %d sha256 %d", s1, s2));
	REQUIRE(strs(k.GetFlags().begin(), k.GetFlags().end()) == want.flags, "flags"); REQUIRE(k.SoftFail() == want.testing, "testing mode");
	std::vector<ref::Tag> all; ref::taglist(rec, all); const ref::Tag* st = ref::find(all, "s"); strs sl; if (st) ref::colonlist(st->value, sl);
	bool any = !st || std::find(sl.begin(), sl.end(), "*") != sl.end(); auto& sv = k.GetServiceType();
	REQUIRE(any ? sv.empty() : !sv.empty(), fmt("service types: %zu", sv.size()));
	if (want.ed) REQUIRE(k.GetED25519PublicKey() == want.data, "key data");
	else { REQUIRE(k.GetRSAPublicKey(), "no key"); unsigned char* d = nullptr; int n = i2d_RSA_PUBKEY(k.GetRSAPublicKey(), &d); str got((char*)d, n > 0 ? (size_t)n : 0); OPENSSL_free(d); const unsigned char* q = (const unsigned char*)want.data.data(); RSA* e = d2i_RSA_PUBKEY(nullptr, &q, (long)want.data.size()); str enc; if (e) { d = nullptr; n = i2d_RSA_PUBKEY(e, &d); enc.assign((char*)d, n > 0 ? (size_t)n : 0); OPENSSL_free(d); RSA_free(e); } REQUIRE(got == enc, "key data"); }
}
