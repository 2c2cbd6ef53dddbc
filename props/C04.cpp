#include "../model/lib.hpp"
const char* const prop_id = "C04";
const char* const prop_rule = "a signature by the independent signer in random legal formatting (tag order, folding, white space around every part, letter case, unknown tags, h= lists with missing and repeated names) and a randomly formatted key record, in half of the cases with 1-2 defects in message, signature tags (signed as they stand) or key record; non-trivial: the reference decides accept or reject; distinct by message and key record";
void prop_setup() { ref::keys(); }
void prop_run(Src& s, Ctx& c)
{
	long long now = 1500000000 + (long long)s.below(1000000000);
	gen::Message m = gen::message(s); gen::ThirdParty t = gen::third_party(s, m, now);
	const ref::Pair& k = ref::keys()[t.key]; str rec = gen::key_record(s, k), defect;
	bool broken = s.coin(); size_t after = 0;
	if (broken)
	{
		size_t n = 1 + s.below(2);
		for (size_t i = 0; i < n; ++i)
			switch (s.weighted({5, 2, 1, 5, 3, 2, 1, 2, 2}))
			{
				case 0:
				{
					static const char* T[] = {"v", "a", "c", "d", "s", "h", "bh", "l", "x", "q", "i", "t"};
					str tag = T[s.below(12)], v;
					if (tag == "v") v = s.pickv<str>({"2", "", "1.0", "01", "0"});
					else if (tag == "a") v = s.pickv<str>({"rsa-sha512", "ed25519-sha1", "RSA-SHA256", "rsa", "", "ed25519-sha256", "rsa-sha1", "rsa-sha256"});
					else if (tag == "c") v = s.pickv<str>({"nofws", "relaxed/", "/simple", "relaxed/relaxed/relaxed", "Relaxed", "", "simple/nofws", "relaxed/relaxed", "simple/relaxed"});
					else if (tag == "d") v = gen::domain(s);
					else if (tag == "s") v = gen::domain(s);
					else if (tag == "h") { v = s.pickv<str>({"to:subject", "from::to", "from", "fromm:to", ":from", "", "subject:FROM", "x-from:to"}); }
					else if (tag == "bh") v = s.pickv<str>({"47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=", "frcCV1k9oG9oKj3dpUqdJg1PxRT2RSN/XKdLCPjaYaY=", "AAAA", ""});
					else if (tag == "l") v = s.pickv<str>({"0", "-1", "x", "99999999999999999999999", "1", "", "10 0", "+5", "0x10", "5.0", "9223372036854775808", "18446744073709551615"});
					else if (tag == "x") { str e[] = {std::to_string(now - 1), "0", std::to_string(now), std::to_string(now + 1)}; v = e[s.below(4)]; }
					else if (tag == "q") v = s.pickv<str>({"dns/a", "http", "DNS/TXT", "dns/txt:dns/a", "x:y", "dns", "dns/txt2"});
					else if (tag == "i") v = s.pickv<str>({"", "user", "a@other.example", "=zz@" + t.d, "a@x" + t.d, "a@." + t.d, "@", "0", "51", "50", "a@" + t.d, "a@b." + t.d, "a@" + t.d + ".x", "1"});
					else v = s.pickv<str>({"", "x", "0"});
					t.override_.push_back({tag, v}); defect += " sig " + tag + "=" + v;
				}
				break;
				case 1: { str tag = s.pickv<str>({"v", "a", "d", "s", "h", "bh", "c", "i", "l"}); t.drop.push_back(tag); defect += " sig without " + tag; } break;
				case 2: { str tag = s.pickv<str>({"v", "a", "d", "s", "h", "bh", "c", "l", "t"}); t.dup.push_back(tag); defect += " sig with two " + tag; } break;
				case 3: // key record
				{
					str p = ref::key_p(k), kt = k.ed ? "k=ed25519; " : "";
					switch (s.below(14))
					{
						case 0: rec = kt + "p="; break;
						case 1: rec = "v=DKIM2; " + kt + "p=" + p; break;
						case 2: rec = kt + "h=" + s.pickv<str>({"sha1", "sha256", "sha512", "sha1:sha512", "sha256:md5", ""}) + "; p=" + p; break;
						case 3: rec = kt + "s=" + s.pickv<str>({"tlsrpt", "email", "*", "", "other:email", "emailx", "EMAIL"}) + "; p=" + p; break;
						case 4: rec = kt + "t=" + s.pickv<str>({"s", "y:s", "s:y", "y", "S", "x:s:z"}) + "; p=" + p; break;
						case 5: rec = str(k.ed ? "k=rsa; " : "k=ed25519; ") + "p=" + p; break;
						case 6: rec = "k=" + s.pickv<str>({"dsa", "", "RSA", "rsa", "ed25519"}) + "; p=" + p; break;
						case 7: { size_t o = s.below(13); rec = ref::key_record(ref::keys()[o]); } break;
						case 8: rec = kt + "p=" + p.substr(0, s.below(p.size())); break;
						case 9: rec = kt + "p=" + p + "; p=" + p; break;
						case 10: rec = kt + "h=sha256; t=s; s=email; p=" + p; break;
						case 11: rec = kt; break;
						case 12: rec = str("x ") + kt + "p=" + p; break;
						default: { size_t at = s.below(rec.size() + 1); rec.insert(at, 1, s.ch(";=: x\"\t")); } break;
					}
					defect += " key record changed";
				}
				break;
				case 4: ++after; break;
				case 5: now += (long long)s.below(200000); defect += " later"; break;
				case 8: t.b_mod = 1 + (int)s.below(10); defect += fmt(" signature value %d", t.b_mod); break;
				case 7: t.bh_mod = 1 + (int)s.below(8); defect += fmt(" body hash %d", t.bh_mod); break;
				default: break;
			}
	}
	str h = gen::ref_sign(s, m, t);
	if (h.empty()) { c.label("unsignable"); return; }
	m.headers.insert(m.headers.begin(), h);
	if (s.below(4) == 0) // somewhere below other fields
	{
		size_t at = s.below(m.headers.size()); m.headers.erase(m.headers.begin()); 
		bool other = false; for (auto& x : m.headers) other |= gen::has_name(x, t.arc ? "arc-message-signature" : "dkim-signature");
		m.headers.insert(m.headers.begin() + (long)(other ? 0 : at), h);
	}
	for (size_t i = 0; i < after; ++i) defect += " after: " + gen::tamper(s, m, t.arc);
	str raw = m.raw(); ref::Msg rm = ref::split(raw); size_t self = lib::nth_sig_index(rm, 0, t.arc);
	if (self == str::npos) { c.label("signature gone"); return; }
	ref::Dns d; d.rec = rec; if (s.chance(1, 40)) d.state = 1 + (int)s.below(2);
	ref::Result r = ref::verify(rm, self, d, now);
	c.note("message", printable(raw, 3000)); c.note("key record", printable(rec)); c.note("defect", defect); c.note("reference", str(ref::stage_name(r.st)) + " " + r.why);
	if (!broken && s.below(2) && d.state == 0 && r.st != ref::ST_UNSPEC) REQUIRE(r.st == ref::ST_PASS, str("reference signer and verifier disagree: ") + ref::stage_name(r.st) + " " + r.why);
	pbt::fake_now = now;
	auto in = lib::stream_at(raw, s); DKIM::Validatory v(*in, t.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
	lib::Dns ld; ld.state = d.state; ld.rec = d.rec; lib::Out o = lib::verify_nth(v, 0, ld);
	c.label(str("reference:") + ref::stage_name(r.st));
	if (r.st == ref::ST_UNSPEC) return;
	REQUIRE(o.pass() == (r.st == ref::ST_PASS), fmt("library: %s %s; reference: %s %s", o.cls.c_str(), o.what.c_str(), ref::stage_name(r.st), r.why.c_str()));
	c.nontrivial(raw + rec);
}
