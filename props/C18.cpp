#include "../model/lib.hpp"
#include <src/Base64.hpp>
#include <src/EncodedWord.hpp>
#include <src/QuotedPrintable.hpp>
#include <src/Util.hpp>
#include <algorithm>
const char* const prop_id = "C18";
const char* const prop_rule = "hostile octets (soups of the grammars' tokens, raw octets, valid inputs cut, spliced and mutated, and up to a million octets of repeated tokens) given to every entry point: verifier and signer as message, signature field, key record, tag and colon lists, address lists, encoded words, quoted-printable, base64, both canonicalizations, white space; under AddressSanitizer, UBSan and a CPU limit; then a good signature must still verify with the same verifier and a failed one fail the same way again; non-trivial: input of at least 3 octets; distinct by entry point and input";
namespace {
strs good_records; 
}
void prop_setup() { for (auto& k : ref::keys()) good_records.push_back(ref::key_record(k)); }
namespace {
const strs TOK = {
	" ", "\t", "\r\n", "\n", "\r", "\r\n ", "\r\n\t", " \r\n", "\r\n\r\n", ";", "=", ":", ",", "<", ">", "(", ")", "\"", "\\", "@", ".", "?", "=?", "?=", "_", "/", "-", "+", str(1, '\0'), "\x7f", "\x80", "\xff", "\xc3\xa5", "%", "%s%n",
	"a", "Z", "0", "9", "b=", "bh=", "h=", "v=1", "v=DKIM1", "k=rsa", "k=ed25519", "p=", "p=AAAA", "l=", "l=0", "l=18446744073709551615", "l=99999999999999999999", "l=4", "x=", "x=9999999999", "t=", "t=y", "t=s", "i=", "i=1", "i=@", "d=", "d=x", "s=", "s=email", "s=*", "q=dns/txt", "c=", "c=relaxed/relaxed", "c=simple", "a=", "a=rsa-sha256", "a=ed25519-sha256", "a=rsa-sha1", "g=*", "n=",
	"sha1", "sha256", "from", "From: ", "From", "DKIM-Signature: ", "DKIM-Signature", "ARC-Message-Signature: ", "Subject: ", "x@y", "<a@b>", "=?utf-8?Q?=41?=", "=?x?B?QUFB?=", "=?q?q?", "=?a?b?=", "=4", "=41", "=GG", "==", "====", "AAAA", "QUFB", "Zg==", "\r\n.\r\n", "MCowBQYDK2VwAyEA"};
str token(Src& s) { return s.chance(1, 12) ? s.dictstr() : s.chance(1, 12) ? s.bytes(3) : TOK[s.below(TOK.size())]; }
str soup(Src& s) { str r; size_t n = s.size(60); for (size_t i = 0; i < n; ++i) r += token(s); return r; }
// one unit many times, with an end that makes a reader give up or go back
str run_of(Src& s)
{
	str r, u;
	r = s.pickv<str>({"", "", "a:", "a:", "a=", "a=b", "x@y", "p=AAAA; h=x", "(", "\"", "<", "=?x?q?", "k=ed25519; p=11qYAYKxCrfVS/7TyWQHOg7hcvPapiMlrwIaaPcHURo=; t=y"});
	u = s.pickv<str>({" ", " ", " ", "\t", " \t", "\r\n ", " \r\n ", "\r\n", " \r\n", "\r", "\n", "(", ")", "\"", "\\", "=", "=?", "?=", "=?a?q?", "=?a?q??=", "=?a?q??= ", ";", ":", ",", "<", ">", "@", ".", "a", "a=", "a=;", "a:", "a, ", "a@b,", "=\r\n", "=41", "\xff", "()", "\"\" ", "<>"});
	size_t n = s.pickv<size_t>({60000, 70000, 100000, 130000}); r.reserve(n + 64); while (r.size() < n) r += u;
	return r + s.pickv<str>({"", "", "\r\nb", "\r\nb", "\r\n", "\rb", "\r", "\nb", "b", ":", "(", ")", "\"", "?=", ";", "=", "\r\n b", "@", ">", "\\"});
}
// repeated tokens: whatever takes more than linear time shows
bool shaped = false;
str big(Src& s)
{
	if (shaped) return run_of(s);
	str r, u; size_t parts = 1 + s.below(3);
	if (s.below(3) == 0) { r = s.pickv<str>({"", "a:", "x@y", "p=AAAA; h=x", "p=MCowBQYDK2VwAyEA11qYAYKxCrfVS/7TyWQHOg7hcvPapiMlrwIaaPcHURo=; k=ed25519; s=email:", "k=ed25519; p=11qYAYKxCrfVS/7TyWQHOg7hcvPapiMlrwIaaPcHURo=; t=y", "DKIM-Signature: a=rsa-sha256; d=x; v=1; bh=QUFB; b=QUFB; s=y; h=from", "=?x?q?", "(", "\"", "<"}); parts = 1; }
	for (size_t p = 0; p < parts; ++p)
	{
		if (s.coin()) r += token(s);
		u.clear(); size_t k = 1 + s.below(3); bool plain = s.coin(); if (plain) u = s.below(3) == 0 ? str(" ") : TOK[s.below(34)]; else for (size_t i = 0; i < k; ++i) u += token(s);
		if (u.empty()) u = "x";
		size_t n = s.pickv<size_t>({9000, 66000, 300000, 1000000}) / parts;
		str f; f.reserve(n + u.size()); while (f.size() < n) f += u; r += f;
	}
	if (s.coin()) r += s.coin() ? token(s) + token(s) : TOK[2 + s.below(7)] + "x";
	return r;
}
str mutate(Src& s, str d)
{
	size_t n = s.below(6);
	for (size_t i = 0; i < n; ++i)
	{
		size_t p = s.below(d.size() + 1);
		switch (s.below(6))
		{
			case 0: d.insert(p, token(s)); break;
			case 1: if (p < d.size()) d[p] = (char)s.below(256); break;
			case 2: d.erase(p, 1 + s.small(30)); break;
			case 3: d.resize(p); break;
			case 4: { size_t q = s.below(d.size() + 1); str x = d.substr(q, s.small(40)); d.insert(p, x); } break;
			default: if (p < d.size()) d.replace(p, 1, token(s));
		}
	}
	return d;
}
str record(Src& s) { switch (s.below(4)) { case 0: return soup(s); case 1: return mutate(s, s.pick(good_records)); case 2: return mutate(s, gen::key_record(s, ref::keys()[s.below(13)])); default: { // DER damage in a well-formed record
	const ref::Pair& k = ref::keys()[s.below(13)]; str d = s.coin() ? mutate(s, k.spki) : k.spki; if (s.coin() && d.size() > 6) { size_t p = s.below(std::min<size_t>(d.size(), 40)); d[p] = (char)s.below(256); } return "k=" + str(s.coin() ? "rsa" : "ed25519") + "; p=" + ref::b64enc(d); } } }
str sigfield(Src& s, bool arc, const gen::Message& m, long long now)
{
	str name = arc ? "ARC-Message-Signature:" : "DKIM-Signature:";
	switch (s.below(3))
	{
		case 0: return name + soup(s);
		case 1: { gen::ThirdParty t = gen::third_party(s, m, now); t.arc = arc; str h = gen::ref_sign(s, m, t); return h.empty() ? name + soup(s) : mutate(s, h); }
		default:
		{
			// every tag there, each value from the soup of values
			str r = name + " v=1; "; auto val = [&](std::initializer_list<str> ok) { return s.below(5) ? s.pickv<str>(ok) : soup(s).substr(0, 40); };
			r += "a=" + val({"rsa-sha256", "ed25519-sha256", "rsa-sha1"}) + "; d=" + val({"x.example", "", "X", str(300, 'd')}) + "; s=" + val({"s", "", "a.b"}) + "; h=" + val({"from", "From:from:FROM", "from:x:", "a:b:from", "from : to"}) + "; bh=" + val({"QUFB", "", "=", "47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=", "frcCV1k9oG9oKj3dpUqdJg1PxRT2RSN/XKdLCPjaYaY="}) + "; b=" + val({"QUFB", "A", "=", str(172, 'A'), str(86, 'A') + "==", str(344, 'A')});
			if (s.coin()) r += "; l=" + val({"0", "1", "18446744073709551615", "9223372036854775807", "-1", "", str(77, '1'), "8096"}); if (s.coin()) r += "; i=" + val({"1", "0", "51", "@x.example", "a@b@x.example", "=40", ""}); if (s.coin()) r += "; c=" + val({"relaxed/relaxed", "simple/simple", "/", "relaxed/"}); if (s.coin()) r += "; x=" + val({"99999999999999999999", "0", "1700000001", ""}); if (s.coin()) r += "; q=" + val({"dns/txt", "", ":", "x:dns/txt"});
			return r;
		}
	}
}
// anything may come out but a crash, a hang or another exception
lib::Out any(const std::function<void()>& f) { lib::Out o = lib::guard(0, f); REQUIRE(o.pass() || o.cls == "permerror" || o.cls == "fail" || o.cls == "temperror", "class " + o.cls); return o; }

void message(Src& s, Ctx& c, bool large)
{
	long long now = 1700000000; pbt::fake_now = now; bool arc = s.chance(1, 4); gen::Message m = gen::message(s);
	m.headers.erase(std::remove_if(m.headers.begin(), m.headers.end(), [](const str& h) { str n = gen::name_of(h); return n == "dkim-signature" || n == "arc-message-signature"; }), m.headers.end());
	if (large) { str b = big(s); switch (s.below(6)) { case 4: { str f = s.pickv<str>({"\r\n ", "\r\n\t", "\r\n x", "\r\n \t"}), g = s.pickv<str>({"X", "X:", "DKIM-Signature:", "DKIM-Signature: b=x;", "\xff", "DKIM-Signature"}); size_t n = g.find(':') == str::npos ? 4000000 : 1000000; while (g.size() < n) g += f; m.headers.push_back(g); } break; case 5: m.sep = true; m.body = b; m.headers.clear(); m.headers.push_back("From:" + token(s)); break; case 0: m.sep = true; m.body += b; break; case 1: m.headers.insert(m.headers.begin() + (long)s.below(m.headers.size() + 1), "X-Big: " + b); break; case 2: { str g; while (g.size() < 200000) g += "X: y\r\n"; m.headers.push_back(g + "X: y"); } break; default: m.headers.push_back((arc ? "ARC-Message-Signature: " : "DKIM-Signature: ") + b); } }
	size_t nh = s.below(3); for (size_t i = 0; i < nh; ++i) m.headers.insert(m.headers.begin() + (long)s.below(m.headers.size() + 1), sigfield(s, arc, m, now));
	if (large)
	{
		// one pass of one side over it is enough to show more than linear time
		str raw = m.raw(); c.note("message", printable(raw, 1500)); c.label("message:large"); c.nontrivial("m" + raw.substr(0, 100000)); auto in = lib::stream(raw, s);
		if (s.below(3) == 0) { gen::Cfg g = gen::cfg(s, m, false, now); g.limited = false; DKIM::SignatoryOptions o; g.apply(o); DKIM::Signatory sg(*in); any([&] { sg.CreateSignature(o); }); return; }
		DKIM::Validatory v(*in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); size_t n = v.GetSignatures().size();
		for (size_t k = 0; k < n && k < 2; ++k) { lib::Dns d; d.rec = s.pick(good_records); auto it = v.GetSignatures().begin(); std::advance(it, (long)(k ? n - 1 : 0)); any([&] { DKIM::Signature sg; sg.Parse(*it); DKIM::PublicKey pk; pk.Parse(d.rec); if (s.coin()) v.CheckBodyHash(sg); v.CheckSignature(it, sg, pk); }); }
		return;
	}
	str raw = m.raw(); if (s.chance(1, 4)) raw = s.coin() ? soup(s) + raw : mutate(s, raw); if (s.chance(1, 10)) raw = soup(s);
	// a good signature on top
	str goodrec; bool good = false; 
	c.note("message", printable(raw, 1500)); c.label("message");
	if (raw.size() >= 3) c.nontrivial("m" + raw.substr(0, 100000));
	{
		gen::Message mm = m; gen::Cfg g = gen::cfg(s, mm, true, now); g.limited = s.chance(1, 8); g.limit = s.below(3) ? s.below(200) : ~0ul; g.arc = arc ? 1 : 0; g.ts = g.ex = g.has_identity = false;
		auto in = lib::stream(raw, s); DKIM::SignatoryOptions o; g.apply(o); str sig; DKIM::Signatory sg(*in);
		lib::Out r = any([&] { sig = sg.CreateSignature(o); });
		size_t k = g.sigs.size() - 1; if (r.pass() && !sig.empty() && !raw.empty() && raw[0] != ' ' && raw[0] != '\t')
		{
			// usable only if From is signed; then it must go on verifying among the hostile ones
			ref::Msg rm = ref::split(sig + "\r\n" + raw); size_t at = lib::nth_sig_index(rm, 0, arc); ref::Dns d; d.rec = ref::key_record(ref::keys()[g.sigs[k].key]);
			if (at == 0 && ref::verify(rm, 0, d, now).st == ref::ST_PASS) { good = true; goodrec = d.rec; raw = sig + "\r\n" + raw; }
		}
	}
	auto in = lib::stream(raw, s); auto type = s.chance(1, 12) ? DKIM::Validatory::NONE : arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM; DKIM::Validatory v(*in, type); size_t n = v.GetSignatures().size();
	if (type == DKIM::Validatory::NONE) { REQUIRE(n == 0, "signatures listed for type NONE"); return; }
	auto check_good = [&](const char* when) { if (!good) return; lib::Dns d; d.rec = goodrec; lib::Out o = lib::verify_nth(v, 0, d); REQUIRE(o.pass(), str("the good signature does not verify ") + when + ": " + o.what); };
	if (s.coin()) check_good("at first");
	for (size_t k = 0; k < n && k < 5; ++k)
	{
		lib::Dns d; d.rec = record(s); d.state = s.chance(1, 10) ? 2 : s.chance(1, 10) ? 1 : 0; lib::Out a = lib::verify_nth(v, k, d); check_good("after another one"); lib::Out b = lib::verify_nth(v, k, d);
		REQUIRE(a.cls == b.cls && a.what == b.what, "another outcome when verified again: " + a.what + " / " + b.what);
		if (!a.pass()) c.label("signature fails at stage " + std::to_string(a.stage));
		auto it = v.GetSignatures().begin(); std::advance(it, (long)k); any([&] { DKIM::Signature sg; sg.Parse(*it); v.CheckBodyHash(sg); DKIM::PublicKey pk; pk.Parse(s.pick(good_records)); v.CheckSignature(it, sg, pk); v.CheckSignature(*it, sg, pk); });
	}
	check_good("in the end"); if (good) c.label("good signature among hostile ones");
}
}
void prop_run(Src& s, Ctx& c)
{
	pbt::fake_now = 1700000000; size_t kind = s.weighted({10, 4, 4, 3, 3, 4, 4, 2, 3, 3, 3, 2, 1, 3}); bool large = s.chance(1, 60); shaped = s.chance(1, 7); if (shaped) { large = true; kind = s.below(14); if (kind == 8 || kind == 12) kind = 9; }
	if (kind == 0) return message(s, c, large);
	str d;
	auto input = [&](const strs& seeds) { d = large ? big(s) : s.below(3) || seeds.empty() ? soup(s) : mutate(s, s.pick(seeds)); c.note("input", printable(d, 1000)); if (d.size() >= 3) c.nontrivial(std::to_string(kind) + d.substr(0, 100000)); c.label(fmt("entry %zu%s", kind, large ? ":large" : "")); };
	switch (kind)
	{
		case 1: { input({"DKIM-Signature: v=1; a=rsa-sha256; d=x; s=y; h=from; bh=QUFB; b=QUFB; i=a@x; l=3; x=9999999999; q=dns/txt; c=relaxed/relaxed"}); auto h = std::make_shared<DKIM::Header>(); h->ParseLine(s.coin() && !large ? (s.coin() ? "DKIM-Signature:" : "ARC-Message-Signature:") + d : d); DKIM::Signature sg; lib::Out a = any([&] { sg.Parse(h); }); sg.Reset(); lib::Out b = any([&] { sg.Parse(h); }); REQUIRE(a.cls == b.cls && a.what == b.what, "another outcome after Reset: " + a.what + " / " + b.what); } break;
		case 2: { if (large) input({}); else { d = record(s); c.note("input", printable(d, 1000)); if (d.size() >= 3) c.nontrivial("2" + d); c.label("entry 2"); } DKIM::PublicKey k; lib::Out a = any([&] { k.Parse(d); }); k.Reset(); lib::Out b = any([&] { k.Parse(d); }); REQUIRE(a.cls == b.cls && a.what == b.what, "another outcome after Reset: " + a.what + " / " + b.what); } break;
		case 3: { input({"v=1; a=b; c =d ;e= f;g", "a=b;c=d;", "=;", "a==b"}); DKIM::TagList t; any([&] { t.Parse(d); for (auto i = t.cbegin(); i != t.cend(); ++i) { DKIM::TagListEntry e; REQUIRE(t.GetTag(i->first, e), "a listed tag is not there"); REQUIRE(e.GetValueOffset() >= -1 && e.GetValueOffset() <= (std::streamoff)d.size(), "offset of a value"); } }); } break;
		case 4: input({"a:b:c", " a : b ", "::", "a:"}); any([&] { DKIM::Tokenizer::ValueList(d); }); break;
		case 5: input({"a@b, c@d", "\"X, Y\" <a@b>; (c(o)m) d@e", "\"a\\\"b\"@c", "<a@b", "(((", "\"\"\"", "Grp: a@b, c@d;", "\"\\\"\\\\\\\"\\\"\" <x@y>"}); any([&] { DKIM::Tokenizer::ParseAddressList(d); }); any([&] { std::stringstream st(d); str tok; size_t n = 0; while (DKIM::Tokenizer::NextAddressListToken(st, tok) != DKIM::Tokenizer::TOK_EOF) if (++n > d.size() + 1) fail("more tokens than octets"); }); break;
		case 6: input({"=?utf-8?Q?a=20b?= =?utf-8?B?QUFB?=", "=?=?=?=", "=?a?q?_?=", "=?a?b?====?="}); any([&] { DKIM::Conversion::EncodedWord::Decode(d); }); break;
		case 7: input({"=41=42", "a=3D\r\n b"}); any([&] { str o = DKIM::Conversion::QuotedPrintable::Decode(d, s.coin()); REQUIRE(o.size() <= d.size(), "decoding grew the text"); }); REQUIRE(DKIM::Conversion::QuotedPrintable::Encode(d).size() >= d.size(), "encoding"); break;
		case 8: input({"QUFB", "QQ==", "QUFB\r\nQUFB", "=QUF", "QUFBQ"}); any([&] { str o = DKIM::Conversion::Base64_Decode(d); REQUIRE(o.size() <= d.size(), "decoding grew the text"); DKIM::Conversion::Base64_Encode(d); }); break;
		case 9: input({"Subject: a\r\n b", "a:", ":", " :", "x"}); any([&] { DKIM::Conversion::CanonicalizationHeader(DKIM::DKIM_C_RELAXED).FilterHeader(d); DKIM::Conversion::CanonicalizationHeader(DKIM::DKIM_C_SIMPLE).FilterHeader(d); }); break;
		case 10: { input({"a\r\n\r\n", "a b \r\n", "\r\n\r\n"}); auto in = lib::stream(d, s); size_t n = 0; bool lim = s.coin(); size_t l = s.below(3) ? s.below(d.size() + 3) : ~(size_t)0 - s.below(2); ssize_t off = (ssize_t)(s.below(3) ? 0 : s.below(5) ? s.below(d.size() + 1) : d.size() + s.below(100)); if (s.chance(1, 20)) off = -1; if (s.chance(1, 10)) in->setstate(std::ios::eofbit | std::ios::failbit); any([&] { DKIM::Conversion::CanonicalizationBody(*in, s.coin() ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, off, lim, l, [&](const char*, size_t k) { n += k; }); }); REQUIRE(!lim || n <= l, "more octets than the limit"); REQUIRE(n <= 2 * d.size() + 2, "the canonical body grew"); } break;
		case 11: { input({" \r\n a", "\r", "\r\n"}); for (auto t : {DKIM::Tokenizer::READ_CRLF, DKIM::Tokenizer::READ_WSP, DKIM::Tokenizer::READ_FWS, DKIM::Tokenizer::READ_WSP_LOOSE}) { std::istringstream in(d); any([&] { DKIM::Tokenizer::ReadWhiteSpace(in, t); }); } } break;
		case 12: { input({"a.b", "-", ".", "a..b"}); DKIM::Util::ValidateDomain(d); } break;
		default:
		{
			input({"From: x\r\n y\r\nTo:z\r\n\r\nbody", " x", ":", "a\n\nb"}); auto in = lib::stream(d, s); if (s.chance(1, 10)) in->setstate(std::ios::failbit); DKIM::Message m; size_t steps = 0; any([&] { while (!m.IsDone() && m.ParseLine(*in)) REQUIRE(++steps <= d.size() + 2, "the parser does not end"); }); REQUIRE(m.IsDone(), "not done"); for (auto& h : m.GetHeaders()) REQUIRE(h && h->GetValueOffset() <= h->GetHeader().size(), "offset of a value"); m.Reset();
		}
	}
}
