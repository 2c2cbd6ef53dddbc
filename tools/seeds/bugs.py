"""The planted bugs: edits of /repo and the body of the demonstration's main()."""
BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
CAN, SIG, VAL, SGN, PK, TOK, MP, TL = ('src/' + x + '.cpp' for x in ('Canonicalization', 'Signature', 'Validatory', 'Signatory', 'PublicKey', 'Tokenizer', 'MailParser', 'TagList'))

bug('c07-chunk-wsp', 'C07', 'white space in a relaxed body right before the boundary between two 8096-octet reads', 'white space that ends one read is forgotten: words on both sides are joined',
 [(CAN, '''		bool pendingwsp = false;
		size_t lines = 0;
		while (stream.good())
		{
''', '''		size_t lines = 0;
		while (stream.good())
		{
			bool pendingwsp = false;
''')], r'''
	str body = str(8095, 'x') + " y"; std::istringstream in(body); str out;
	DKIM::Conversion::CanonicalizationBody(in, DKIM::DKIM_C_RELAXED, 0, false, 0, [&](const char* p, size_t n) { out.append(p, n); });
	CHECK(out == body + "\r\n");
''')

bug('c30-limit-final-crlf', 'C30', 'a body length limit that ends between the CR and the LF of the last line', 'the last octet covered by l= is left out, and the limit reported as too large',
 [(CAN, '''		std::string buf = "\\r\\n";
		if (bodyLimit)
		{
			size_t left = std::min(buf.size(), bodySize);
''', '''		std::string buf = "\\r\\n";
		if (bodyLimit)
		{
			size_t left = bodySize < buf.size() ? 0 : buf.size();
''')], r'''
	str m = "From: a\r\n\r\nabc\r\n"; str s;
	try { s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetSignBodyLength(4); }); } catch (DKIM::PermanentError& e) { CHECK(!"signing refused"); }
	CHECK(s.find("bh=" + b64(sha256("abc\r"))) != str::npos);
''')

bug('c08-one-fold', 'C08', 'a header value in which one fold is followed directly by another (a continuation line of blanks only)', 'only the first of several adjacent folds is unfolded',
 [(CAN, '''		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())
			found = true;
''', '''		if (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())
			found = true;
''')], r'''
	DKIM::Conversion::CanonicalizationHeader c(DKIM::DKIM_C_RELAXED);
	str r; try { r = c.FilterHeader("Subject: a\r\n \r\n b"); } catch (DKIM::PermanentError&) {}
	CHECK(r == "subject:a b");
''')

bug('c09-tab-name', 'C09', 'a tab between a field name and its colon', 'the name keeps the tab, so the field is not recognized as a signature',
 [(MP, 'm_name.erase(m_name.find_last_not_of(" \\t") + 1);', "m_name.erase(m_name.find_last_not_of(' ') + 1);")], r'''
	std::istringstream in("DKIM-Signature\t: v=1\r\nFrom: a\r\n\r\n"); DKIM::Validatory v(in);
	CHECK(v.GetSignatures().size() == 1); CHECK(v.GetSignatures().size() == 1 && v.GetSignatures().front()->GetName() == "DKIM-Signature");
''')

bug('c10-inner-wsp', 'C10', 'a tag value with more than one white space character inside', 'white space inside a tag value is reduced to one character',
 [(TL, '''			value_buf += ws;
''', '''			if (value_buf.empty())
				value_buf += ws;
''')], r'''
	DKIM::TagList t; t.Parse("a=x \r\n\t y; b=z"); DKIM::TagListEntry e;
	CHECK(t.GetTag("a", e) && e.GetValue() == "x \r\n\t y");
''')

bug('c10-value-offset', 'C10', 'white space between = and the value', 'the offset reported for a value points at the white space before it',
 [(TL, '''			data.get(); // discard '='

		// [ FWS ]
		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_WSP_LOOSE).empty());

		TagListEntry tagEntry;
		tagEntry.SetValueOffset(data.tellg());
''', '''			data.get(); // discard '='

		TagListEntry tagEntry;
		tagEntry.SetValueOffset(data.tellg());

		// [ FWS ]
		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_WSP_LOOSE).empty());

''')], r'''
	DKIM::TagList t; t.Parse("a= \r\n x; b=z"); DKIM::TagListEntry e;
	CHECK(t.GetTag("a", e) && (long)e.GetValueOffset() == 6);
''')

bug('c11-suffix-domain', 'C11', 'an identity in a domain that ends with the text of the signing domain without being a subdomain of it', 'i=user@evilexample.com is accepted for d=example.com',
 [(SIG, '''else if (m_mailDomain.size() > m_domain.size() && ("." + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)) {''',
 '''else if (m_mailDomain.size() > m_domain.size() && m_domain == m_mailDomain.substr(m_mailDomain.size() - m_domain.size())) {''')], r'''
	str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; i=u@";
	CHECK(parses(f + "sub.example.com")); CHECK(parses(f + "example.com")); CHECK(!parses(f + "evilexample.com"));
''')

bug('c11-from-prefix', 'C11', 'an h= list without From but with a name that begins with "from"', 'a signature that does not cover From is accepted',
 [(SIG, 'if (strcasecmp(i->c_str(), "from") == 0)', 'if (strncasecmp(i->c_str(), "from", 4) == 0)')], r'''
	str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; bh=AAAA; b=AAAA; h=";
	CHECK(parses(f + "to:From")); CHECK(!parses(f + "to:from-mailer"));
''')

bug('c11-c-default-body', 'C11', 'c=relaxed without a body part', 'the body canonicalization defaults to that of the header instead of simple',
 [(SIG, 'body = "simple";', 'body = header;')], r'''
	DKIM::Signature s; CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; c=relaxed", &s));
	CHECK(s.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED); CHECK(s.GetCanonModeBody() == DKIM::DKIM_C_SIMPLE);
''')

bug('c12-expiry-equal', 'C12', 'verifying in the very second of x=', 'a signature is rejected as expired although the time is not yet later than x=',
 [(SIG, 'if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))', 'if (strtol(x.GetValue().c_str(), nullptr, 10) <= time(nullptr))')], r'''
	// try until the second does not change in between
	for (int i = 0; i < 50; ++i)
	{
		time_t a = time(nullptr); bool ok = parses("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; x=" + std::to_string(a)); time_t b = time(nullptr);
		if (a == b) { CHECK(ok); break; }
	}
''')

bug('c12-relative-expiry', 'C12', 'a relative expiration together with a given timestamp that is not the current time', 'the expiry counts from the current time instead of from the signed timestamp',
 [(SGN, '(timestamp == -1 ? time(nullptr) : timestamp)) + options.GetExpiration()', 'time(nullptr)) + options.GetExpiration()')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.SetTimestamp(1000000).SetExpiration(500, false); });
	CHECK(s.find("t=1000000;") != str::npos); CHECK(s.find("x=1000500;") != str::npos);
''')

bug('c13-ed-key-length', 'C13', 'an Ed25519 key record whose p= decodes to more than 32 octets', 'the record is accepted, with the first 32 octets as the key',
 [(PK, 'if (tmp.size() != 32)', 'if (tmp.size() < 32)')], r'''
	DKIM::PublicKey k; CHECK(throws([&] { k.Parse("k=ed25519; p=" + b64(str(40, 'x'))); }));
	DKIM::PublicKey l; CHECK(!throws([&] { l.Parse("k=ed25519; p=" + b64(str(32, 'x'))); }));
''')

bug('c13-service-star', 'C13', 'a service type list with * behind email', 'the record is reported as restricted to email although it allows everything',
 [(PK, '''				m_serviceType.clear();
				matchAll = true;
''', '''				matchAll = true;
''')], r'''
	DKIM::PublicKey k; k.Parse("s=email:*; p=" + PUB); CHECK(k.GetServiceType().empty());
''')

bug('c14-flag-s-first', 'C14', 'flag s behind another flag, and an identity in a subdomain', 'the restriction to the exact domain is ignored unless s is the first flag',
 [(VAL, 'if (find(pub.GetFlags().begin(), pub.GetFlags().end(), "s") != pub.GetFlags().end())', 'if (!pub.GetFlags().empty() && pub.GetFlags().front() == "s")')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetIdentity("u@sub.example.com"); }) + "\r\n" + m;
	CHECK(verify(s, REC) == "pass"); CHECK(verify(s, REC + "; t=s:y") == "permerror"); CHECK(verify(s, REC + "; t=y:s") == "permerror");
''')

bug('c14-hash-front', 'C14', 'a key record that allows two hashes, and a signature with the second', 'only the first hash in h= is accepted',
 [(VAL, 'if (find(pub.GetDigestAlgorithms().begin(), pub.GetDigestAlgorithms().end(), sig.GetDigestAlgorithm()) == pub.GetDigestAlgorithms().end())', 'if (pub.GetDigestAlgorithms().front() != sig.GetDigestAlgorithm())')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m) + "\r\n" + m;
	CHECK(verify(s, REC + "; h=sha256:sha1") == "pass"); CHECK(verify(s, REC + "; h=sha1:sha256") == "pass"); CHECK(verify(s, REC + "; h=sha1") == "permerror");
''')

bug('c15-identity-domain', 'C15', 'a signature with an identity in a subdomain of d=', 'the key is looked up at the domain of the identity',
 [(VAL, 'std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();', 'std::string query = sig.GetSelector() + "._domainkey." + (sig.IsARC() ? sig.GetDomain() : sig.GetMailDomain());')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetIdentity("u@sub.example.com"); }) + "\r\n" + m;
	std::istringstream in(s); DKIM::Validatory v(in); str asked; v.CustomDNSResolver = [&](const str& n, str& r, void*) { asked = n; r = REC; return true; };
	DKIM::Signature g; DKIM::PublicKey p; v.GetSignature(v.GetSignatures().begin(), g); v.GetPublicKey(g, p); CHECK(asked == "sel._domainkey.example.com");
''')

bug('c17-hash-size', 'C17', 'a bh= whose length is not that of the hash', 'the body hash failure is reported as permerror instead of fail',
 [(VAL, '''	if (sig.GetBodyHash().size() != md_len ||
			memcmp''', '''	if (sig.GetBodyHash().size() != md_len)
		throw DKIM::PermanentError("Body hash has the wrong size");

	if (memcmp''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; CHECK(verify("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA\r\n" + m) == "fail");
''')

bug('c04-bh-longer', 'C04', 'a validly signed field whose bh= has further octets behind the right hash', 'the body hash is accepted',
 [(VAL, 'if (sig.GetBodyHash().size() != md_len ||', 'if (sig.GetBodyHash().size() < md_len ||')], r'''
	str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=" + b64(sha256("b\r\n") + "x") + "; b=";
	str g = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=" + b64(sha256("b\r\n")) + "; b=";
	str m = "From: a\r\n\r\nb\r\n"; CHECK(verify(handsigned(g, "From: a\r\n") + "\r\n" + m) == "pass"); CHECK(verify(handsigned(f, "From: a\r\n") + "\r\n" + m) == "fail");
''')

bug('c02-ed25519', 'C02', 'an Ed25519 signature that does not match', 'every Ed25519 signature is accepted',
 [(VAL, '''						(const unsigned char *)pub.GetED25519PublicKey().c_str()) != 0)''', '''						(const unsigned char *)pub.GetED25519PublicKey().c_str()) > 0)''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(str(32, 'k')); }) + "\r\n" + m;
	CHECK(verify(s, "k=ed25519; p=" + b64(str(32, '\x11'))) != "pass");
''')

bug('c18-comment-eof', 'C18', 'an address list with an unclosed comment', 'parsing never ends and takes all memory',
 [(TOK, '''				if (data.peek() == EOF)
					throw DKIM::PermanentError("unclosed comment");
				if (data.peek() == '\\\\')''', '''				if (data.peek() == '\\\\')''')], r'''
	CHECK(throws([] { DKIM::Tokenizer::ParseAddressList("a@b (c"); }));
''', pre='#include <sys/resource.h>\nstruct L { L() { rlimit r = {1u << 30, 1u << 30}; setrlimit(RLIMIT_AS, &r); r.rlim_cur = r.rlim_max = 20; setrlimit(RLIMIT_CPU, &r); } } limits;\n')

bug('c19-decode-block', 'C19', 'base64 text of more than 1024 decoded octets', 'decoding stops after the first block',
 [('src/Base64.cpp', 'while ((r = BIO_read(l, b, sizeof b)) > 0)', 'if ((r = BIO_read(l, b, sizeof b)) > 0)')], r'''
	str d(3000, 'x'); CHECK(DKIM::Conversion::Base64_Decode(b64(d)) == d);
''')

bug('c20-del', 'C20', 'the octet 0x7f', 'it is not escaped, so the text is not dkim-safe and cannot be decoded',
 [('src/QuotedPrintable.cpp', '1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, /* 0x70 */', '1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 0x70 */')], r'''
	CHECK(DKIM::Conversion::QuotedPrintable::Encode("a\x7f") == "a=7F");
''')

bug('c21-lower-b', 'C21', 'an encoded word with the encoding written as a lower-case b', 'it is kept undecoded',
 [('src/EncodedWord.cpp', 'if (encoding == "b" || encoding == "B")', 'if (encoding == "B")')], r'''
	CHECK(DKIM::Conversion::EncodedWord::Decode("x =?utf-8?b?YWJj?=") == "xabc" || DKIM::Conversion::EncodedWord::Decode("=?utf-8?b?YWJj?=") == "abc");
	CHECK(DKIM::Conversion::EncodedWord::Decode("=?utf-8?b?YWJj?=") == "abc");
''')

bug('c22-quoted-escape', 'C22', 'a quoted string in an address with an escaped character other than a quote', 'the backslash is kept in the address',
 [(TOK, '''					//	throw DKIM::PermanentError("bad escape sequence");
					token += (char)data.get();''', '''					//	throw DKIM::PermanentError("bad escape sequence");
					if (data.peek() != '"' && data.peek() != '\\\\')
						token += (char)c;
					token += (char)data.get();''')], r'''
	auto l = DKIM::Tokenizer::ParseAddressList("<\"a\\b\"@x.y>"); CHECK(l.size() == 1 && l.front() == "ab@x.y");
''')

bug('c23-fws-eof', 'C23', 'input that ends in CRLF without a blank behind it', 'the CRLF at the end of input is consumed as if it were folding white space',
 [(TOK, '''unwind:
				stream.clear();
''', '''unwind:
''')], r'''
	std::istringstream in(" \r\n"); str r = DKIM::Tokenizer::ReadWhiteSpace(in, DKIM::Tokenizer::READ_FWS); in.clear();
	CHECK(r.empty()); CHECK(in.tellg() == std::streampos(0)); CHECK(in.get() == ' ');
''')

bug('c24-reset-limit', 'C24', 'one Signature object used, after Reset(), for a signature without l= after one with l=', 'the body length limit of the earlier signature stays in force',
 [(SIG, '''	m_bodySizeLimit = false;
	// tag-q''', '''	// tag-q''')], r'''
	str m = "From: a\r\n\r\nbody text\r\n"; str a = sign(m, [](DKIM::SignatoryOptions& o) { o.SetSignBodyLength(2); }) + "\r\n" + sign(m) + "\r\n" + m;
	std::istringstream in(a); DKIM::Validatory v(in); v.CustomDNSResolver = [&](const str&, str& r, void*) { r = REC; return true; };
	DKIM::Signature s; auto i = v.GetSignatures().begin(); bool ok = true; for (int k = 0; k < 2; ++k, ++i) { s.Reset(); ok = !throws([&] { v.GetSignature(i, s); }) && ok; } CHECK(ok);
''')

bug('c24-key-hashes', 'C24', 'one PublicKey object used, after Reset(), for a record without h= after one with h=', 'the hash restriction of the earlier record stays in force',
 [(PK, '''	m_digestAlgorithms.clear();
''', '')], r'''
	DKIM::PublicKey k; k.Parse("h=sha1; p=" + PUB); k.Reset(); k.Parse("p=" + PUB); CHECK(k.GetDigestAlgorithms().empty());
''')

bug('c25-static-hex', 'C25', 'two threads decoding quoted-printable text at the same time', 'the digits of an escape are collected in a shared string',
 [('src/QuotedPrintable.cpp', '''			std::string hex;
''', '''			static std::string hex; // keeps its memory
			hex.clear();
''')], r'''
	std::vector<std::thread> t; std::atomic<int> wrong{0};
	for (int k = 0; k < 8; ++k) t.emplace_back([k, &wrong] { char e[4]; snprintf(e, sizeof e, "=%02X", 0x41 + k); str in, want; for (int i = 0; i < 40; ++i) { in += e; want += (char)(0x41 + k); } for (int i = 0; i < 20000; ++i) { try { if (DKIM::Conversion::QuotedPrintable::Decode(in) != want) ++wrong; } catch (...) { ++wrong; } } });
	for (auto& x : t) x.join(); CHECK(wrong == 0);
''', pre='#include <thread>\n#include <atomic>\n#include <vector>\n')

bug('c26-trailing-hyphen', 'C26', 'a domain or selector with a label that ends in a hyphen', 'it is accepted',
 [('src/Util.cpp', '''	if (alphanum.find(*subdomain.rbegin()) == std::string::npos)
		return false;

''', '')], r'''
	DKIM::SignatoryOptions o; CHECK(throws([&] { o.SetDomain("a-.com"); })); CHECK(throws([&] { o.SetSelector("s-"); })); CHECK(!throws([&] { o.SetDomain("a-b.com"); }));
''')

bug('c27-pkey-leak', 'C27', 'a key record with p= of another key type (for example an EC key)', 'the parsed key is leaked',
 [(PK, '''				EVP_PKEY_free(publicKey);
				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");''', '''				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");''')], r'''
	const str P = "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEaxfR8uEsQkf4vOblY6RA8ncDfYEt6zOg9KE5RdiYwpZP40Li/hp/m47n60p8D54WK84zV2sxXs7LtkBoN79R9Q==";
	auto many = [&](int n) { for (int i = 0; i < n; ++i) { DKIM::PublicKey k; CHECK(throws([&] { k.Parse("p=" + P); })); } };
	many(50); size_t a = mallinfo2().uordblks; many(500); size_t b = mallinfo2().uordblks; CHECK(b < a + 50000);
''', pre='#include <malloc.h>\n')

bug('c29-flag-s', 'C29', 'an ARC message signature whose key record has flag s', 'it is refused although ARC knows no identity',
 [(VAL, '''	if (!sig.IsARC())
	{
		if (find(pub.GetFlags()''', '''	{
		if (find(pub.GetFlags()''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetARCInstance(1); }) + "\r\n" + m;
	CHECK(verify(s, REC, 0, true) == "pass"); CHECK(verify(s, REC + "; t=s", 0, true) == "pass");
''')

bug('c31-h-case', 'C31', 'upper-case letters in the names of h=', 'the fields named so are not found and thus not verified',
 [(VAL, '''		std::string tmp;
		transform(name.begin(), name.end(), name.begin(), tolower);
''', '''		std::string tmp;
''')], r'''
	str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=From; bh=" + b64(sha256("b\r\n")) + "; b=";
	CHECK(verify(handsigned(f, "From: a\r\n") + "\r\nFrom: a\r\n\r\nb\r\n") == "pass");
''')

bug('c06-domain', 'C06', 'additional signatures with a domain of their own', 'all signatures carry the domain of the primary options',
 [(SGN, '"\\td=" + signature.GetDomain()', '"\\td=" + options.GetDomain()')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.AddAdditionalSignature().SetPrivateKey(KEY).SetDomain("other.example").SetSelector("s2"); });
	CHECK(s.find("d=other.example; s=s2;") != str::npos); CHECK(s.find("d=example.com; s=sel;") != str::npos);
''')

bug('c05-identity-raw', 'C05', 'an identity with a character that is not dkim-safe', 'it is written unencoded, so it adds tags to the signature or makes it malformed',
 [(SGN, 'StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str())', 'StringFormat("; i=%s", options.GetIdentity().c_str())')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.SetIdentity("a;z=b@example.com"); });
	CHECK(s.find("i=a=3Bz=3Db@example.com;") != str::npos);
''')

bug('c05-b-fold-end', 'C05', 'a key size whose base64 signature exactly fills its last line (1024-bit keys do not, 768-bit ones and others may)', 'the field ends in an empty continuation line',
 [(SGN, '''			if (!split.empty())
				dkimHeader += "\\r\\n\\t ";
			offset = 2; // "\\t ";''', '''			if (!split.empty() || offset == 2)
				dkimHeader += "\\r\\n\\t ";
			offset = 2; // "\\t ";''')], r'''
	str s = sign("From: a\r\n\r\nb\r\n"); CHECK(!s.empty() && s.back() != ' ' && s.back() != '\n');
''')

bug('c01-header-case', 'C01', 'a list of headers to sign with upper-case letters', 'fields named so are not signed; without From the signature is refused',
 [(SGN, '''	for (auto name : options.GetHeaders())
	{
		transform(name.begin(), name.end(), name.begin(), tolower);
''', '''	for (auto name : options.GetHeaders())
	{
''')], r'''
	str m = "From: a\r\nSubject: c\r\n\r\nb\r\n"; CHECK(verify(sign(m, [](DKIM::SignatoryOptions& o) { o.SetHeaders({"From", "Subject"}); }) + "\r\n" + m) == "pass");
''')

bug('c03-name-case', 'C03', 'a relay that changes the letter case of a signed field name under relaxed canonicalization', 'the field is not found any more',
 [(VAL, '''		std::string headerName = hIter->GetName();
		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
		headerCache''', '''		std::string headerName = hIter->GetName();
		if (!headerName.empty() && headerName[0] >= 'A' && headerName[0] <= 'Z')
			transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
		headerCache''')], r'''
	auto rel = [](DKIM::SignatoryOptions& o) { o.SetCanonModeHeader(DKIM::DKIM_C_RELAXED); };
	str s = sign("From: a\r\nSubject: c\r\n\r\nb\r\n", rel); CHECK(verify(s + "\r\nFROM: a\r\nsUBJECT: c\r\n\r\nb\r\n") == "pass");
''')

bug('c16-overread', 'C16', 'a malformed TXT answer whose character-string claims one octet more than the record has', 'the octet behind the record is returned as text',
 [('src/Resolver.cpp', 'if (txt_len >= rec_len_left)', 'if (txt_len > rec_len_left)')], r'''
	DKIM::Util::Resolver r; str t; r.GetTXT("x.example", t); CHECK(t == "");
''', pre=r'''#include <cstring>
#include <resolv.h>
#include <src/Resolver.hpp>
#undef res_nquery
static int answer(unsigned char* b)
{
	// one TXT record of 4 octets: a character-string of length 4 would need 5
	static const unsigned char a[] = {0, 0, 0x81, 0x80, 0, 0, 0, 1, 0, 0, 0, 0, /**/ 0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 4, 4, 'a', 'b', 'c'};
	memcpy(b, a, sizeof a); b[sizeof a] = 'Z'; return (int)sizeof a;
}
extern "C" int res_nquery(res_state, const char*, int, int, unsigned char* b, int) { return answer(b); }
extern "C" int __res_nquery(res_state, const char*, int, int, unsigned char* b, int) { return answer(b); }
''')

bug('c16-cname-skip', 'C16', 'a TXT lookup answered through a CNAME (another record type before the TXT record)', 'only the first answer record is looked at',
 [('src/Resolver.cpp', '''				default:
					// Skip eg. C_NAME
					answerptr += s;''', '''				default:
					return true;''')], r'''
	DKIM::Util::Resolver r; str t; CHECK(r.GetTXT("x.example", t)); CHECK(t == "abc");
''', pre=r'''#include <cstring>
#include <resolv.h>
#include <src/Resolver.hpp>
#undef res_nquery
static int answer(unsigned char* b)
{
	static const unsigned char a[] = {0, 0, 0x81, 0x80, 0, 0, 0, 2, 0, 0, 0, 0, /**/ 0, 0, 5, 0, 1, 0, 0, 0, 0, 0, 1, 0, /**/ 0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 4, 3, 'a', 'b', 'c'};
	memcpy(b, a, sizeof a); return (int)sizeof a;
}
extern "C" int res_nquery(res_state, const char*, int, int, unsigned char* b, int) { return answer(b); }
extern "C" int __res_nquery(res_state, const char*, int, int, unsigned char* b, int) { return answer(b); }
''')

bug('c28-key-status', 'C28', 'a key file that holds no usable key', 'dkimtool ends with status 0 as if it had signed',
 [('tools/src/main.cpp', '''			fprintf(stderr, "%s\\n", e.what());
			return 1;''', '''			fprintf(stderr, "%s\\n", e.what());
			return 0;''')], '', script=r'''#!/bin/bash
# an unusable key must give exit status 1
set -u
repo=$(pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -rf -- "$dir"' EXIT
printf 'no key' > "$dir/key"; printf 'From: a\r\n\r\nb\r\n' > "$dir/m.eml"
tool=$(find "$repo/_build" -type f -name dkimtool | head -1)
timeout 60 "$tool" -s sel -d example.com -k "$dir/key" "$dir/m.eml" > /dev/null 2>&1
[ $? -eq 1 ]
''')

# ---- second batch ----------------------------------------------------------------------------------------------------
B2 = 'From: a\\r\\n\\r\\nb\\r\\n'
bug('c04-bh-prefix', 'C04', 'a bh= that agrees with the body hash in its first 20 octets only', 'the rest of a SHA-256 body hash is not compared',
 [(VAL, 'memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)', 'memcmp(sig.GetBodyHash().c_str(), md_value, std::min(md_len, 20u)) != 0)')], r'''
	str h = sha256("b\r\n"); h[31] ^= 1; str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=" + b64(h) + "; b=";
	CHECK(verify(handsigned(f, "From: a\r\n") + "\r\nFrom: a\r\n\r\nb\r\n") == "fail");
''')
bug('c02-first-field', 'C31', 'a field name occurring several times, only some of which are signed', 'the topmost field of a repeated name is taken instead of the lowest',
 [(VAL, 'tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + "\\r\\n";\n		head->second.pop_back();', 'tmp = canonicalhead.FilterHeader(head->second.front()->GetHeader()) + "\\r\\n";\n		head->second.pop_front();')], r'''
	str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from:x; bh=" + b64(sha256("b\r\n")) + "; b=";
	CHECK(verify(handsigned(f, "From: a\r\nX: 2\r\n") + "\r\nX: 1\r\nX: 2\r\nFrom: a\r\n\r\nb\r\n") == "pass");
''')
bug('c12-t-zero', 'C12', 'a timestamp of 0', 'the current time is signed instead',
 [(SGN, 'if (timestamp == -1)\n				timestamp', 'if (timestamp <= 0)\n				timestamp')], r'''
	CHECK(sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.SetTimestamp(0); }).find(" t=0;") != str::npos);
''')
bug('c06-order', 'C06', 'several signatures', 'the signature added last comes at the bottom instead of on top',
 [(SGN, 'for (auto s = options.GetAdditionalSignatures().rbegin(); s != options.GetAdditionalSignatures().rend(); ++s)', 'for (auto s = options.GetAdditionalSignatures().begin(); s != options.GetAdditionalSignatures().end(); ++s)')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.AddAdditionalSignature().SetPrivateKey(KEY).SetDomain("other.example").SetSelector("s2"); });
	CHECK(s.find("d=other.example") < s.find("d=example.com"));
''')
bug('c07-bare-cr', 'C07', 'a CR as the last octet of an 8096-octet read, with its LF in the next', 'the CR is taken for text',
 [(CAN, '''				if (buffer[i] == '\\r')
					continue;''', '''				if (buffer[i] == '\\r' && (i + 1 < sizeof buffer || stream.peek() != '\\n' || type == DKIM::DKIM_C_SIMPLE))
					continue;''')], r'''
	str body = str(8095, 'x') + "\r\ny\r\n"; std::istringstream in(body); str out;
	DKIM::Conversion::CanonicalizationBody(in, DKIM::DKIM_C_RELAXED, 0, false, 0, [&](const char* p, size_t n) { out.append(p, n); }); CHECK(out == body);
''')
bug('c07-empty-relaxed', 'C07', 'a body of empty lines only, relaxed', 'it gives a CRLF although it is empty',
 [(CAN, '''			if (!buf.empty())
				emptyBody = false;''', '''			if (!buf.empty() || lines > 1)
				emptyBody = false;''')], r'''
	std::istringstream in("\r\n\r\n\r\n"); str out; DKIM::Conversion::CanonicalizationBody(in, DKIM::DKIM_C_RELAXED, 0, false, 0, [&](const char* p, size_t n) { out.append(p, n); }); CHECK(out == "");
''')
bug('c09-blank-line', 'C09', 'a continuation line of one blank', 'it is taken for the empty line that ends the header',
 [(MP, 'if (line.size() == 0)', 'if (line.size() == 0 || line == " ")')], r'''
	std::istringstream in("From: a\r\n \r\n b\r\nTo: c\r\n\r\nbody"); DKIM::Message m; while (!m.IsDone() && m.ParseLine(in)) {} CHECK(m.GetHeaders().size() == 2);
''')
bug('c09-two-cr', 'C09', 'a header line that ends in CR CR LF', 'all trailing CRs are removed instead of one',
 [(MP, '''	if (line.size() > 0 && line[line.size()-1] == '\\r')
		line.erase''', '''	while (line.size() > 0 && line[line.size()-1] == '\\r')
		line.erase''')], r'''
	std::istringstream in("From: a\r\r\nTo: c\r\n\r\nbody"); DKIM::Message m; while (!m.IsDone() && m.ParseLine(in)) {} CHECK(m.GetHeaders().size() == 2 && m.GetHeaders().front()->GetHeader() == "From: a\r");
''')
bug('c10-del-octet', 'C10', 'the octet 0x7f in a tag value', 'it is accepted',
 [(TL, "(data.peek() >= '\\x3C' && data.peek() <= '\\x7E')", "(data.peek() >= '\\x3C' && data.peek() <= '\\x7F')")], r'''
	CHECK(throws([] { DKIM::TagList t; t.Parse("a=x\x7fy"); }));
''')
bug('c10-case-dup', 'C10', 'two tags whose names differ in case', 'the list is refused as having a duplicate',
 [(TL, '''		if (m_tags.find(name) != m_tags.end())
''', '''		if (std::any_of(m_tags.begin(), m_tags.end(), [&name] (const std::pair<const std::string, TagListEntry>& t) { return strcasecmp(t.first.c_str(), name.c_str()) == 0; }))
'''), (TL, '#include <sstream>\n', '#include <sstream>\n#include <algorithm>\n#include <strings.h>\n')], r'''
	CHECK(!throws([] { DKIM::TagList t; t.Parse("s=1; S=2"); }));
''')
bug('c30-limit-32bit', 'C11', 'l= of 4294967296 or more', 'the limit is cut to 32 bits',
 [(SIG, 'm_bodySize = bs;', 'm_bodySize = (unsigned int)bs;')], r'''
	DKIM::Signature s; CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; l=4294967297", &s)); CHECK(s.GetBodySize() == 4294967297ul);
''')
bug('c12-x-32bit', 'C12', 'x= later than 2038', 'the signature is rejected as expired',
 [(SIG, 'if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))', 'if ((int)strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))')], r'''
	CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; x=4102444800"));
''')
bug('c13-p-tabs', 'C13', 'tabs or line folds inside p=', 'only spaces are removed, so a folded key is refused',
 [(PK, 'ptmp.erase(remove_if(ptmp.begin(), ptmp.end(), isspace), ptmp.end());', "ptmp.erase(std::remove(ptmp.begin(), ptmp.end(), ' '), ptmp.end());")], r'''
	DKIM::PublicKey k; CHECK(!throws([&] { k.Parse("p=" + PUB.substr(0, 60) + "\t" + PUB.substr(60, 41) + "\r\n " + PUB.substr(101)); }));
''')
bug('c13-h-unknown-first', 'C13', 'an unknown hash name in front of a known one', 'reading of h= stops at the first unknown name',
 [(PK, '''				m_digestAlgorithms.push_back(DKIM_A_SHA1);
''', '''				m_digestAlgorithms.push_back(DKIM_A_SHA1);
			else
				break;
''')], r'''
	DKIM::PublicKey k; CHECK(!throws([&] { k.Parse("h=sha512:sha256; p=" + PUB); }));
''')
bug('c14-ed-hash', 'C14', 'an Ed25519 key record with h=sha1', 'the hash restriction is not applied to Ed25519 signatures',
 [(VAL, 'if (pub.GetDigestAlgorithms().size() > 0)', 'if (pub.GetDigestAlgorithms().size() > 0 && sig.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA)')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(str(32, 'k')); }) + "\r\n" + m;
	unsigned char pk[32], sk[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)str(32, 'k').data()); str p = b64(str((char*)pk, 32));
	CHECK(verify(s, "k=ed25519; p=" + p) == "pass"); CHECK(verify(s, "k=ed25519; h=sha1; p=" + p) == "permerror");
''', pre='#include <sodium.h>\n')
bug('c15-domain-case', 'C15', 'upper-case letters in d=', 'the key is looked up at the name as written instead of in lower case',
 [(VAL, 'std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();', 'TagListEntry d;\n		sig.GetTag("d", d);\n		std::string query = sig.GetSelector() + "._domainkey." + d.GetValue();')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetDomain("Example.COM"); }) + "\r\n" + m;
	std::istringstream in(s); DKIM::Validatory v(in); str asked; v.CustomDNSResolver = [&](const str& n, str& r, void*) { asked = n; r = REC; return true; };
	DKIM::Signature g; DKIM::PublicKey p; v.GetSignature(v.GetSignatures().begin(), g); v.GetPublicKey(g, p); CHECK(asked == "sel._domainkey.example.com");
''')
bug('c15-empty-temporary', 'C15', 'a lookup that succeeds with an empty answer', 'it is a temporary error instead of a permanent one',
 [(VAL, '''			if (publicKey.empty())
				throw DKIM::PermanentError(StringFormat(''', '''			if (publicKey.empty())
				throw DKIM::TemporaryError(StringFormat(''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; CHECK(verify(sign(m) + "\r\n" + m, "") == "permerror");
''')
DNSPRE = r'''#include <cstring>
#include <resolv.h>
#include <netdb.h>
#include <src/Resolver.hpp>
#undef res_nquery
static int answer(res_state st, unsigned char* b)
{
ANSWER
}
extern "C" int res_nquery(res_state s, const char*, int, int, unsigned char* b, int) { return answer(s, b); }
extern "C" int __res_nquery(res_state s, const char*, int, int, unsigned char* b, int) { return answer(s, b); }
'''
bug('c16-nodata', 'C16', 'a name that exists without TXT records', 'this is reported as a failed lookup',
 [('src/Resolver.cpp', 'if (err == NO_DATA)\n			return true;', 'if (err == NO_DATA)\n			return false;')], r'''
	DKIM::Util::Resolver r; str t; CHECK(r.GetTXT("x.example", t)); CHECK(t == "");
''', pre=DNSPRE.replace('ANSWER', '	st->res_h_errno = NO_DATA; return -1;'))
bug('c16-signed-length', 'C16', 'a character-string of 128 octets or more', 'its length is taken for negative, so it is lost',
 [('src/Resolver.cpp', 'size_t txt_len = *ptr;', 'size_t txt_len = *(const signed char*)ptr;')], r'''
	DKIM::Util::Resolver r; str t; CHECK(r.GetTXT("x.example", t)); CHECK(t == str(200, 'k'));
''', pre=DNSPRE.replace('ANSWER', '	static const unsigned char a[] = {0, 0, 0x81, 0x80, 0, 0, 0, 1, 0, 0, 0, 0, /**/ 0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 201, 200}; memcpy(b, a, sizeof a); memset(b + sizeof a, \'k\', 200); return (int)sizeof a + 200;'))
bug('c16-two-questions', 'C16', 'an answer with two questions', 'only one question is skipped',
 [('src/Resolver.cpp', 'int qc = ntohs((unsigned short)header->qdcount);', 'int qc = header->qdcount ? 1 : 0;')], r'''
	DKIM::Util::Resolver r; str t; CHECK(r.GetTXT("x.example", t)); CHECK(t == "abc");
''', pre=DNSPRE.replace('ANSWER', "	static const unsigned char a[] = {0, 0, 0x81, 0x80, 0, 2, 0, 1, 0, 0, 0, 0, /**/ 1, 'x', 0, 0, 16, 0, 1, /**/ 1, 'y', 0, 0, 16, 0, 1, /**/ 0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 4, 3, 'a', 'b', 'c'}; memcpy(b, a, sizeof a); return (int)sizeof a;"))
bug('c17-class-names', 'C17', 'an exception created with the class policy or neutral', 'the two class names are exchanged in PermanentError',
 [('src/Exception.hpp', '''				switch (ar_class)
				{
					case AR_NONE: return "none";
					case AR_PASS: return "pass";
					case AR_FAIL: return "fail";
					case AR_POLICY: return "policy";
					case AR_NEUTRAL: return "neutral";
					case AR_TEMPERROR: return "temperror";
					case AR_PERMERROR: return "permerror";
				}
				return "permerror";
			}
		private:
			AR_CLASS ar_class;
	};
	class TemporaryError''', '''				switch (ar_class)
				{
					case AR_NONE: return "none";
					case AR_PASS: return "pass";
					case AR_FAIL: return "fail";
					case AR_NEUTRAL: return "policy";
					case AR_POLICY: return "neutral";
					case AR_TEMPERROR: return "temperror";
					case AR_PERMERROR: return "permerror";
				}
				return "permerror";
			}
		private:
			AR_CLASS ar_class;
	};
	class TemporaryError''')], r'''
	CHECK(str(DKIM::PermanentError("", DKIM::AR_POLICY).getAuthenticationResult()) == "policy");
''')
bug('c17-order', 'C17', 'a key record that forbids the signature together with a signature that does not verify', 'the restriction is checked last, so the class is fail instead of permerror',
 [(VAL, '''	if (sig.GetSignatureAlgorithm() != pub.GetSignatureAlgorithm())
		throw DKIM::PermanentError("Signature algorithm type mismatch");
''', '''	if (sig.GetSignatureAlgorithm() != pub.GetSignatureAlgorithm())
		throw DKIM::PermanentError("Signature algorithm type mismatch", AR_FAIL);
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; CHECK(verify(sign(m) + "\r\n" + m, "k=ed25519; p=" + b64(str(32, '\x11'))) == "permerror");
''')
bug('c20-lower-hex', 'C20', 'an escape whose second digit is lower case', 'it is accepted',
 [('src/QuotedPrintable.cpp', '''			if ((data.peek() >= 'A' && data.peek() <= 'F') || (data.peek() >= '0' && data.peek() <= '9'))
				hex += (char)data.get();
			else
				throw DKIM::PermanentError(StringFormat("Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld",
							data.peek() & 0xff,
							(ssize_t)data.tellg()
							)
						);

			output''', '''			if (isxdigit(data.peek()))
				hex += (char)data.get();
			else
				throw DKIM::PermanentError(StringFormat("Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld",
							data.peek() & 0xff,
							(ssize_t)data.tellg()
							)
						);

			output''')], r'''
	CHECK(throws([] { DKIM::Conversion::QuotedPrintable::Decode("=4a"); })); CHECK(DKIM::Conversion::QuotedPrintable::Decode("=4A") == "J");
''')
bug('c21-empty-word', 'C21', 'an encoded word with empty text', 'it is kept undecoded',
 [('src/EncodedWord.cpp', '''			while (!fail) {
				try {''', '''			if (encdata.empty()) fail = true;
			while (!fail) {
				try {''')], r'''
	CHECK(DKIM::Conversion::EncodedWord::Decode("=?utf-8?Q??=") == "");
''')
bug('c21-b-question', 'C21', 'a Q encoded word with an equals sign right behind a decoded question mark escape (=3F=3D)', 'the decoded text of one word is decoded again',
 [('src/EncodedWord.cpp', '''						encdata = DKIM::Conversion::QuotedPrintable::Decode(encdata, true);
''', '''						encdata = DKIM::Conversion::QuotedPrintable::Decode(encdata, true);
						if (encdata.find('=') != std::string::npos)
							encdata = DKIM::Conversion::QuotedPrintable::Decode(encdata, true);
''')], r'''
	CHECK(DKIM::Conversion::EncodedWord::Decode("=?utf-8?Q?=3D41?=") == "=41");
''')
bug('c22-nested-comment', 'C22', 'a comment nested two deep', 'depth is not counted past two, so the comment ends early',
 [(TOK, '''				if (data.peek() == '(')
					++depth;''', '''				if (data.peek() == '(' && depth < 2)
					++depth;''')], r'''
	auto l = DKIM::Tokenizer::ParseAddressList("a@b (x (y (z) y) x), c@d"); CHECK(l.size() == 2 && l.front() == "a@b" && l.back() == "c@d");
''')
bug('c23-inner-fws', 'C23', 'a list element with white space of more than one octet inside', 'it is reduced to its last piece',
 [(TOK, '			value_buf += ws;\n', '			if (!ws.empty()) value_buf = ws;\n')], r'''
	auto l = DKIM::Tokenizer::ValueList("a \r\n\t \r\n b:c"); CHECK(l.size() == 2 && l.front() == "a \r\n\t \r\n b");
''')
bug('c24-reset-local', 'C24', 'one Signature object used, after Reset(), for a signature without c= after one with relaxed', 'the canonicalization of the earlier signature stays in force',
 [(SIG, '	m_header = DKIM_C_SIMPLE;\n	m_body', '	m_body')], r'''
	DKIM::Signature s; str f = "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA"; CHECK(parses(f + "; c=relaxed/relaxed", &s)); s.Reset(); CHECK(parses(f, &s)); CHECK(s.GetCanonModeHeader() == DKIM::DKIM_C_SIMPLE);
''')
bug('c25-static-answer', 'C25', 'two threads looking up keys at the same time', 'the DNS answer buffer is shared',
 [('src/Resolver.cpp', '	unsigned char answer[64 * 1024];', '	static unsigned char answer[64 * 1024]; // too large for small stacks')], r'''
	std::vector<std::thread> t; std::atomic<int> wrong{0};
	for (int k = 0; k < 6; ++k) t.emplace_back([k, &wrong] { for (int i = 0; i < 300; ++i) { DKIM::Util::Resolver r; str s; r.GetTXT("x.example", s); if (s.size() != 200 || s != str(200, s[0])) ++wrong; } });
	for (auto& x : t) x.join(); CHECK(wrong == 0);
''', pre='#include <thread>\n#include <atomic>\n#include <vector>\n#include <unistd.h>\nstatic std::atomic<int> count{0};\n' + DNSPRE.replace('ANSWER', '	static const unsigned char a[] = {0, 0, 0x81, 0x80, 0, 0, 0, 1, 0, 0, 0, 0, /**/ 0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 201, 200}; memcpy(b, a, sizeof a); int c = \'a\' + count++ % 26; for (int i = 0; i < 200; ++i) { b[sizeof a + i] = (unsigned char)c; if (i % 50 == 0) usleep(1); } return (int)sizeof a + 200;'))
bug('c25-static-b64', 'C25', 'two threads decoding base64 at the same time', 'the output buffer is shared',
 [('src/Base64.cpp', '	char b[1024];\n	int r;\n	std::string result;', '	static char b[1024];\n	int r;\n	std::string result;')], r'''
	std::vector<std::thread> t; std::atomic<int> wrong{0};
	for (int k = 0; k < 8; ++k) t.emplace_back([k, &wrong] { str d(900, (char)('a' + k)), e = b64(d); for (int i = 0; i < 30000; ++i) if (DKIM::Conversion::Base64_Decode(e) != d) ++wrong; });
	for (auto& x : t) x.join(); CHECK(wrong == 0);
''', pre='#include <thread>\n#include <atomic>\n#include <vector>\n')
bug('c26-set-before-check', 'C26', 'an invalid selector given to an additional signature after a valid one', 'the refused value replaces the earlier one',
 [('src/SignatoryOptions.cpp', '''	if (!DKIM::Util::ValidateDomain(selector))
		throw DKIM::PermanentError("Invalid selector (s=)");

	m_selector = selector;''', '''	m_selector = selector;
	if (!DKIM::Util::ValidateDomain(m_selector))
		throw DKIM::PermanentError("Invalid selector (s=)");
''')], r'''
	DKIM::SignatoryOptions o; auto& a = o.AddAdditionalSignature(); a.SetSelector("good"); CHECK(throws([&] { a.SetSelector("b d"); })); CHECK(a.GetSelector() == "good");
''')
bug('c26-del-once', 'C26', 'removing a header that is listed twice', 'only its first occurrence is removed',
 [('src/SignatoryOptions.cpp', '		m_headers.remove(header);', '	{\n		auto i = std::find(m_headers.begin(), m_headers.end(), header);\n		if (i != m_headers.end())\n			m_headers.erase(i);\n	}'), ('src/SignatoryOptions.cpp', 'using DKIM::SignatoryOptions;', '#include <algorithm>\n\nusing DKIM::SignatoryOptions;')], r'''
	DKIM::SignatoryOptions o; o.SetHeaders({"a", "b"}).AddHeaders({"a"}).DelHeaders({"a"}); CHECK(o.GetHeaders() == std::list<str>({"b"}));
''')
bug('c27-bio-leak', 'C27', 'a PEM text that holds no usable key', 'its buffer is leaked',
 [('src/SignatoryOptions.cpp', '''				EVP_PKEY* privateKey = PEM_read_bio_PrivateKey(o, nullptr, nullptr, nullptr);
				BIO_free_all(o);
				if (!privateKey)
					throw DKIM::PermanentError("RSA key could not be loaded from PEM");
''', '''				EVP_PKEY* privateKey = PEM_read_bio_PrivateKey(o, nullptr, nullptr, nullptr);
				if (!privateKey)
					throw DKIM::PermanentError("RSA key could not be loaded from PEM");
				BIO_free_all(o);
''')], r'''
	auto many = [&](int n) { for (int i = 0; i < n; ++i) { DKIM::SignatoryOptions o; CHECK(throws([&] { o.SetPrivateKey("-----" + str(500, 'x')); })); CHECK(throws([&] { o.AddAdditionalSignature().SetPrivateKey("-----" + str(500, 'x')); })); } };
	many(50); size_t a = mallinfo2().uordblks; many(500); size_t b = mallinfo2().uordblks; CHECK(b < a + 50000);
''', pre='#include <malloc.h>\n', all=True)
bug('c27-lent-freed', 'C27', 'an RSA key lent to an additional signature without ownership', 'the library frees it',
 [('src/SignatoryOptions.cpp', '''	m_privateKeyRSA = privatekey;
	m_privateKeyRSAFree = privatekeyfree;''', '''	m_privateKeyRSA = privatekey;
	m_privateKeyRSAFree |= privatekeyfree;''')], r'''
	BIO* b = BIO_new_mem_buf(KEY.data(), (int)KEY.size()); EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); BIO_free(b); RSA* r = EVP_PKEY_get1_RSA(k); EVP_PKEY_free(k);
	static int freed = 0; int x = RSA_get_ex_new_index(0, nullptr, nullptr, nullptr, [](void*, void*, CRYPTO_EX_DATA*, int, long, void*) { ++freed; }); RSA_set_ex_data(r, x, &freed);
	{ DKIM::SignatoryOptions o; o.AddAdditionalSignature().SetRSAPrivateKey(r, false); } CHECK(freed == 0); if (!freed) RSA_free(r);
''', pre='#include <openssl/rsa.h>\n')
bug('c29-instance-50', 'C29', 'an ARC message signature of instance 50', 'it is refused',
 [(SIG, 'if (m_arcInstance < 1 || m_arcInstance > 50)', 'if (m_arcInstance < 1 || m_arcInstance >= 50)')], r'''
	str m = "From: a\r\n\r\nb\r\n"; CHECK(verify(sign(m, [](DKIM::SignatoryOptions& o) { o.SetARCInstance(50); }) + "\r\n" + m, REC, 0, true) == "pass");
''')
bug('c29-name-case', 'C29', 'an ARC-Message-Signature field with its name in other letter case', 'it is parsed as a DKIM signature',
 [(SIG, '''	transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
	if (headerName == "arc-message-signature")''', '''	if (headerName == "ARC-Message-Signature")''')], r'''
	DKIM::Signature s; CHECK(parses("ARC-message-signature: i=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA", &s)); CHECK(s.IsARC());
''')
bug('c30-limit-equal', 'C30', 'a body length limit of exactly the size of the canonical body', 'signing is refused',
 [(CAN, 'return !(bodyLimit && bodySize > 0);', 'return !(bodyLimit && (bodySize > 0 || lastFull));'), (CAN, '	bool emptyBody = true;\n', '	bool emptyBody = true;\n	bool lastFull = false; // the limit ends with the body\n'),
  (CAN, '''			size_t left = std::min(buf.size(), bodySize);
			func(buf.c_str(), left);
			bodySize -= left;
		} else {
			func(buf.c_str(), buf.size());
		}
	}

	return''', '''			size_t left = std::min(buf.size(), bodySize);
			func(buf.c_str(), left);
			lastFull = left == buf.size() && bodySize == left && bodyOffset == -1;
			bodySize -= left;
		} else {
			func(buf.c_str(), buf.size());
		}
	}

	return''')], r'''
	bool ok = true; try { sign("From: a\r\n", [](DKIM::SignatoryOptions& o) { o.SetSignBodyLength(2); }); } catch (DKIM::PermanentError&) { ok = false; } CHECK(ok);
''')
bug('c31-oversign-once', 'C31', 'a name listed twice for oversigning', 'it is oversigned once only',
 [(SGN, '	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());', '	std::set<std::string> over(oversign.begin(), oversign.end());\n	signedHeaders.insert(signedHeaders.end(), over.begin(), over.end());')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.SetOversignHeaders({"to", "to"}); }); CHECK(s.find("to:to") != str::npos);
''')
bug('c12-relative-no-t', 'C12', 'a relative expiration without a timestamp', 'the expiration counts from the epoch',
 [(SGN, '(timestamp == -1 ? time(nullptr) : timestamp)', '(timestamp == -1 ? 0 : timestamp)')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.SetExpiration(100, false); }); CHECK(s.find(" x=100;") == str::npos);
''')
bug('c05-limit-arc', 'C05', 'a body length limit together with an ARC instance', 'l= is left out although the body hash is limited',
 [(SGN, '		if (options.GetBodySignLength())\n			limit', '		if (options.GetBodySignLength() && !arcInstance)\n			limit')], r'''
	str s = sign("From: a\r\n\r\nbody\r\n", [](DKIM::SignatoryOptions& o) { o.SetARCInstance(1).SetSignBodyLength(2); }); CHECK(s.find("l=2") != str::npos);
''')
bug('c03-trailing-blank-line', 'C03', 'lines of blanks only at the end of a relaxed body', 'they count as text, so a relay that removes them breaks the signature',
 [(CAN, '''				if (buffer[i] == '\\n')
				{
					pendingwsp = false;''', '''				if (buffer[i] == '\\n')
				{
					if (pendingwsp && lines > 1)
						while (lines > 0)
						{
							buf += "\\r\\n";
							--lines;
						}
					pendingwsp = false;''')], r'''
	auto rel = [](DKIM::SignatoryOptions& o) { o.SetCanonModeBody(DKIM::DKIM_C_RELAXED); }; str h = "From: a\r\n\r\n";
	CHECK(verify(sign(h + "b\r\n", rel) + "\r\n" + h + "b\r\n\r\n \r\n") == "pass");
''')
bug('c18-fws-rescan', 'C18', 'a header value with very many blanks and a CRLF that is no folding', 'every blank is read again for every other one: quadratic time',
 [(CAN, '''		do x += (char)(c = data.get());
		while ((c == ' ' || c == '\\t') && (data.peek() == ' ' || data.peek() == '\\t'));''', '''		x += (char)(c = data.get());''')], r'''
	DKIM::Conversion::CanonicalizationHeader c(DKIM::DKIM_C_RELAXED); clock_t t = clock(); try { c.FilterHeader("a:" + str(30000, ' ') + "\r\nb"); } catch (DKIM::PermanentError&) {} CHECK(clock() - t < 4 * CLOCKS_PER_SEC);
''', pre='#include <ctime>\n')
bug('c28-stale', 'C28', 'a file with several signatures, a later one malformed', 'its line shows domain and selector of the signature before it',
 [('tools/src/main.cpp', '''			DKIM::PublicKey pub;
			DKIM::Signature sig;
			try {
''', '''			static DKIM::Signature sig;
			DKIM::PublicKey pub;
			if (x == 0 && i == mail.GetSignatures().begin())
				sig.Reset();
			try {
''')], '', script=r'''#!/bin/bash
# the line of a malformed signature must not show another signature's names
set -u
repo=$(pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -rf -- "$dir"' EXIT
printf 'DKIM-Signature: v=1; a=rsa-sha256; d=first.example; s=one; h=from; bh=AAAA; b=AAAA\r\nDKIM-Signature: junk\r\nFrom: a\r\n\r\nb\r\n' > "$dir/m.eml"
tool=$(find "$repo/_build" -type f -name dkimtool | head -1)
out=$(timeout 60 "$tool" -v "$dir/m.eml" 2>/dev/null)
[ "$(printf '%s\n' "$out" | grep -c 'first.example')" = 1 ]
''')
bug('c28-second-file', 'C28', 'validating two files', 'only the first file is validated',
 [('tools/src/main.cpp', 'for (int x = 0; x < argc; x++)', 'for (int x = 0; x < 1; x++)')], '', script=r'''#!/bin/bash
# every file given is validated
set -u
repo=$(pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -rf -- "$dir"' EXIT
printf 'DKIM-Signature: v=1; a=rsa-sha256; d=first.example; s=one; h=from; bh=AAAA; b=AAAA\r\nFrom: a\r\n\r\nb\r\n' > "$dir/m.eml"; cp "$dir/m.eml" "$dir/n.eml"
tool=$(find "$repo/_build" -type f -name dkimtool | head -1)
out=$(timeout 60 "$tool" -v "$dir/m.eml" "$dir/n.eml" 2>/dev/null)
[ "$(printf '%s\n' "$out" | grep -c 'first.example')" = 2 ]
''')

# ---- third batch
QP, B64, EW, OPT, RES, UTL, TOOL = 'src/QuotedPrintable.cpp', 'src/Base64.cpp', 'src/EncodedWord.cpp', 'src/SignatoryOptions.cpp', 'src/Resolver.cpp', 'src/Util.cpp', 'tools/src/main.cpp'
bug('c05-long-key', 'C05', 'an RSA key of more than 2048 bits', 'only the first 256 octets of the signature are written to b=',
 [(SGN, 'tmp3 = std::string((const char*)sig, sig_len);', 'tmp3 = std::string((const char*)sig, std::min(sig_len, 256u));')], r'''
	EVP_PKEY* k = EVP_RSA_gen(3072); BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr); char* p; long n = BIO_get_mem_data(b, &p); str pem(p, (size_t)n); BIO_free(b); unsigned char* d = nullptr; int m = i2d_PUBKEY(k, &d); str rec = "p=" + b64(str((char*)d, (size_t)m));
	str msg = "From: a\r\n\r\nb\r\n"; CHECK(verify(sign(msg, [&](DKIM::SignatoryOptions& o) { o.SetPrivateKey(pem); }) + "\r\n" + msg, rec) == "pass");
''', pre='#include <openssl/rsa.h>\n')
bug('c02-vertical-tab', 'C02', 'a vertical tab in a relaxed header field', 'it counts as white space, so it can be added to or taken for a blank',
 [(TOK, '''				if (stream.peek() == ' ' || stream.peek() == '\\t')
				{''', '''				if (stream.peek() == ' ' || stream.peek() == '\\t' || stream.peek() == '\\v')
				{'''),
  ], r'''
	str m = "From: a\r\nSubject: x y\r\n\r\nb\r\n", m2 = "From: a\r\nSubject: x\v y\r\n\r\nb\r\n";
	str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetCanonModeHeader(DKIM::DKIM_C_RELAXED); }); CHECK(verify(s + "\r\n" + m) == "pass"); CHECK(verify(s + "\r\n" + m2) == "fail");
''')
bug('c06-ed-consumes', 'C06', 'an Ed25519 signature between two others', 'its end goes on into the signatures below it, which then do not verify',
 [(SGN, '''		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
''', '''		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
		if (signature.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519 && !dkimHeaders.empty())
			EVP_DigestUpdate(evpmdhead.get(), "\\r\\n", 2);
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.AddAdditionalSignature().SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(str(32, 'k')).SetDomain("e.com").SetSelector("e"); o.AddAdditionalSignature().SetPrivateKey(KEY).SetDomain("t.com").SetSelector("t"); });
	CHECK(verify(s + "\r\n" + m, REC, 0) == "pass"); CHECK(verify(s + "\r\n" + m, REC, 2) == "pass");
''')
bug('c20-signed-nibble', 'C20', 'an octet of 0x81 or more', 'the upper hex digit is one too large',
 [(QP, "result += qp_digits[(i >> 4) & 0x0f];", "result += qp_digits[(i / 16) & 0x0f];")], r'''
	CHECK(DKIM::Conversion::QuotedPrintable::Encode("\xe9") == "=E9"); CHECK(DKIM::Conversion::QuotedPrintable::Decode(DKIM::Conversion::QuotedPrintable::Encode("\xe9")) == "\xe9");
''')
bug('c21-tab-behind', 'C21', 'an encoded word followed by a tab', 'it is kept undecoded',
 [(EW, r"if (!fail && data.peek() != EOF && data.peek() != ' ' && data.peek() != '\r' && data.peek() != '\n' && data.peek() != '\t')", r"if (!fail && data.peek() != EOF && data.peek() != ' ' && data.peek() != '\r' && data.peek() != '\n')")], r'''
	CHECK(DKIM::Conversion::EncodedWord::Decode("=?utf-8?q?a?=\tb") == "a\tb");
''')
bug('c22-nul-quoted', 'C22', 'a NUL character in a quoted string', 'it is accepted',
 [(TOK, "		if (token.find('\\0') != std::string::npos)", "		if (type == TOK_ATOM && token.find('\\0') != std::string::npos)")], r'''
	CHECK(throws([] { DKIM::Tokenizer::ParseAddressList(str("\"a\0b\" <c@d>", 11)); }));
''')
bug('c22-escape-comment', 'C22', 'an escaped parenthesis in a comment', 'it counts for the nesting',
 [(TOK, '''				if (data.peek() == '\\\\')
				{
					data.get();
					if (data.peek() == EOF)
						throw DKIM::PermanentError("incomplete escape sequence");
					// rfc822: However, quoting is PERMITTED for any character.
					//if (data.peek() != ')' && data.peek() != '(')
					//	throw DKIM::PermanentError("unclosed comment");
					token += (char)data.get();
					continue;
				}
''', '''				if (data.peek() == '\\\\')
				{
					data.get();
					if (data.peek() == EOF)
						throw DKIM::PermanentError("incomplete escape sequence");
				}
''')], r'''
	auto l = DKIM::Tokenizer::ParseAddressList("a@b (x \\) y), c@d"); CHECK(l.size() == 2 && l.front() == "a@b");
''')
bug('c30-sign-zero', 'C30', 'signing with a body length limit of 0', 'the whole body is signed and no l= written',
 [(OPT, '''	m_bodyLength = bodylength;
	m_bodySignLength = true;
''', '''	m_bodyLength = bodylength;
	m_bodySignLength = bodylength != 0;
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetSignBodyLength(0); }); CHECK(verify(s + "\r\n" + m + "more\r\n") == "pass");
''')
bug('c15-retry', 'C15', 'a lookup that fails', 'the resolver is asked a second time',
 [(VAL, '''					CustomDNSResolver(query, publicKey, CustomDNSData):
''', '''					(CustomDNSResolver(query, publicKey, CustomDNSData) || CustomDNSResolver(query, publicKey, CustomDNSData)):
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; std::istringstream in(sign(m) + "\r\n" + m); DKIM::Validatory v(in); int n = 0;
	v.CustomDNSResolver = [&](const str&, str&, void*) { ++n; return false; }; auto i = v.GetSignatures().begin(); DKIM::Signature s; DKIM::PublicKey p; v.GetSignature(i, s);
	try { v.GetPublicKey(s, p); } catch (DKIM::TemporaryError&) {} CHECK(n == 1);
''')
bug('c16-many-answers', 'C16', 'an answer with more than 255 records', 'only the number of records modulo 256 is read',
 [(RES, 'int cc = ntohs((unsigned short)header->ancount);', 'unsigned char cc = (unsigned char)ntohs((unsigned short)header->ancount);')], r'''
	DKIM::Util::Resolver r; str t; CHECK(r.GetTXT("x.example", t)); CHECK(t == str(300, 'a'));
''', pre=DNSPRE.replace('ANSWER', "	static const unsigned char h[] = {0, 0, 0x81, 0x80, 0, 1, 1, 44, 0, 0, 0, 0, /**/ 1, 'x', 0, 0, 16, 0, 1}; static const unsigned char a[] = {0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 2, 1, 'a'}; unsigned char* p = b; memcpy(p, h, sizeof h); p += sizeof h; for (int i = 0; i < 300; ++i) { memcpy(p, a, sizeof a); p += sizeof a; } return (int)(p - b);"))
bug('c24-failbit', 'C24', 'a stream whose failbit is set without eof, before signing or verifying', 'the state is only cleared at end of file, so the body is taken as empty',
 [(CAN, '''		stream.clear();
		stream.seekg(bodyOffset''', '''		if (stream.eof())
			stream.clear();
		stream.seekg(bodyOffset''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str f = sign(m) + "\r\n" + m; std::istringstream in(f); DKIM::Validatory v(in); in.clear(); in.setstate(std::ios::failbit); DKIM::Signature s; CHECK(!throws([&] { v.GetSignature(v.GetSignatures().begin(), s); }));
''')
bug('c25-static-format', 'C25', 'two threads writing timestamps, limits or error texts at the same time', 'formatted text goes through a shared buffer',
 [(UTL, '''	char* mem = nullptr;
	if (vasprintf(&mem, fmt, args) == -1)
		throw std::bad_alloc();
	std::string result = mem;
	free(mem);
''', '''	static char mem[65536];
	vsnprintf(mem, sizeof mem, fmt, args);
	std::string result = mem;
''')], r'''
	std::vector<std::thread> t; std::atomic<int> wrong{0};
	for (int k = 0; k < 8; ++k) t.emplace_back([k, &wrong] { str want = str(20, 'a' + k); for (int i = 0; i < 200000; ++i) if (DKIM::Util::StringFormat("%s", want.c_str()) != want) ++wrong; });
	for (auto& x : t) x.join(); CHECK(wrong == 0);
''', pre='#include <thread>\n#include <atomic>\n#include <vector>\n#include <src/Util.hpp>\n')
bug('c26-failed-ed-key', 'C26', 'an unusable Ed25519 key given to an additional signature that has one', 'the earlier key is lost',
 [(OPT, '''				if (tmp.size() == crypto_sign_SECRETKEYBYTES)
					m_privateKeyED25519 = tmp;
''', '''				m_privateKeyED25519 = tmp;
				if (tmp.size() == crypto_sign_SECRETKEYBYTES)
					;
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; auto f = [&](bool again) { return sign(m, [&](DKIM::SignatoryOptions& o) { auto& a = o.AddAdditionalSignature().SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(str(32, 'k')).SetDomain("e.com").SetSelector("e"); if (again) CHECK(throws([&] { a.SetPrivateKey("bm90IGEga2V5"); })); }); };
	str a, b; CHECK(!throws([&] { a = f(false); b = f(true); })); CHECK(a == b);
''')
bug('c27-double-reset', 'C27', 'a PublicKey object reset twice after holding an RSA key', 'the key is freed twice',
 [(PK, '''	RSA_free(m_publicKeyRSA);
	m_publicKeyRSA = nullptr;
	m_publicKeyED25519.clear();''', '''	RSA_free(m_publicKeyRSA);
	m_publicKeyED25519.clear();''')], r'''
	DKIM::PublicKey k; k.Parse("p=" + PUB); k.Reset(); CHECK(k.GetRSAPublicKey() == nullptr); std::fflush(nullptr); _Exit(bad ? 1 : 0);
''', pre='#include <openssl/rsa.h>\n')
bug('c28-no-file', 'C28', 'dkimtool -v without a file', 'nothing is printed and the status is 0',
 [(TOOL, '''	if (argc < 1)
		usage(stderr, 2);
''', '''	if (argc < 1 && !validate)
		usage(stderr, 2);
''')], '', script=r'''#!/bin/bash
# validating needs a file
set -u
repo=$(pwd)
tool=$(find "$repo/_build" -type f -name dkimtool | head -1)
timeout 60 "$tool" -v >/dev/null 2>&1
[ $? = 2 ]
''')
bug('c28-soft', 'C28', 'a signature that fails with a testing key', 'it is shown as a plain failure',
 [(TOOL, 'if (pub.SoftFail())', 'if (pub.SoftFail() && sig.GetDomain().empty())')], '', script=r'''#!/bin/bash
# a failure with a key in testing mode is a soft failure
set -u
repo=$(pwd)
grep -q SOFT "$repo/tools/src/main.cpp" || exit 3
dir=$(mktemp -d) || exit 3
trap 'rm -rf -- "$dir"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
cat > "$dir/shim.cpp" <<'X'
#include <functional>
#include <string>
#include <cstring>
#include <resolv.h>
#include <arpa/nameser.h>
#undef res_nquery
static int answer(unsigned char* b)
{
	static const char t[] = "t=y; p=MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQDOjay5OkCYKRbmF6Sy4hQS6U5tEk3KRXxa4YNrdLmpS2LWS57Kcfx9Sa7mlfAFPXm+ulIfPeKU+A0yCygMHxtNmEWRht+RcnWEbzSwTcR24aNCOSNHsMm2vkolfoHlQnZjGJDTVg7pbemcGrmttwoqHK7mvrDY706Bx4Wr+iiiEQIDAQAB";
	const size_t n = sizeof t - 1;
	unsigned char h[] = {0, 0, 0x81, 0x80, 0, 1, 0, 1, 0, 0, 0, 0, 1, 'x', 0, 0, 16, 0, 1, 0, 0, 16, 0, 1, 0, 0, 0, 0, (unsigned char)((n + 1) >> 8), (unsigned char)(n + 1), (unsigned char)n};
	memcpy(b, h, sizeof h); memcpy(b + sizeof h, t, n); return (int)(sizeof h + n);
}
extern "C" int res_nquery(res_state, const char*, int, int, unsigned char* b, int) { return answer(b); }
extern "C" int __res_nquery(res_state, const char*, int, int, unsigned char* b, int) { return answer(b); }
X
g++ -shared -fPIC -w -o "$dir/shim.so" "$dir/shim.cpp" || exit 3
bh=$(printf 'b\r\n' | openssl dgst -sha256 -binary | base64)
printf 'DKIM-Signature: v=1; a=rsa-sha256; d=first.example; s=one; h=from; bh=%s; b=AAAA\r\nFrom: a\r\n\r\nb\r\n' "$bh" > "$dir/m.eml"
tool=$(find "$repo/_build" -type f -name dkimtool | head -1)
out=$(LD_PRELOAD="$dir/shim.so" timeout 60 "$tool" -v "$dir/m.eml" 2>/dev/null)
printf '%s\n' "$out" >&2
printf '%s\n' "$out" | grep -q 'SOFT'
''')
bug('c11-q-first', 'C11', 'a q= that names another method before dns/txt', 'only the first method is looked at',
 [(SIG, '''		if (std::find(methods.begin(), methods.end(), "dns/txt") != methods.end())''', '''		if (!methods.empty() && methods.front() == "dns/txt")''')], r'''
	CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=c; h=from; bh=AAAA; b=AAAA; q=future : dns/txt"));
''')
bug('c11-encoded-at', 'C11', 'an identity whose domain part holds an escaped character', 'the identity is split before it is decoded',
 [(SIG, '''			std::string mail = QuotedPrintable::Decode(i.GetValue());
''', '''			std::string mail = i.GetValue();
'''), (SIG, '''			m_mailLocalPart = mail.substr(0, mailsep);
''', '''			m_mailLocalPart = QuotedPrintable::Decode(mail.substr(0, mailsep));
'''), (SIG, '''			m_mailDomain = mail.substr(mailsep+1);
''', '''			m_mailDomain = mail.substr(mailsep+1); // (domains need no escapes)
''')], r'''
	DKIM::Signature s; CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=c; h=from; bh=AAAA; b=AAAA; i=x@a=2Eb", &s)); CHECK(s.GetMailDomain() == "a.b");
''')
bug('c07-limit-chunks', 'C07', 'a limit within a body of several 8096-octet reads', 'the limit applies to every read on its own',
 [(CAN, '''				size_t left = std::min(buf.size(), bodySize);
				func(buf.c_str(), left);
				bodySize -= left;
			} else {
				func(buf.c_str(), buf.size());
			}

			if (!buf.empty())''', '''				size_t left = std::min(buf.size(), bodySize);
				func(buf.c_str(), left);
				if (left < sizeof buffer)
					bodySize -= left;
			} else {
				func(buf.c_str(), buf.size());
			}

			if (!buf.empty())''')], r'''
	std::istringstream in(str(30000, 'x')); size_t n = 0; DKIM::Conversion::CanonicalizationBody(in, DKIM::DKIM_C_SIMPLE, 0, true, 20000, [&](const char*, size_t k) { n += k; }); CHECK(n == 20000);
''')
bug('c07-lines-chunk', 'C07', 'a line end as the last octet of an 8096-octet read', 'the line end is lost',
 [(CAN, '''		size_t lines = 0;
		while (stream.good())
		{
''', '''		while (stream.good())
		{
			size_t lines = 0;
''')], r'''
	str body = str(8095, 'x') + "\ny"; std::istringstream in(body); str out; DKIM::Conversion::CanonicalizationBody(in, DKIM::DKIM_C_SIMPLE, 0, false, 0, [&](const char* p, size_t n) { out.append(p, n); }); CHECK(out == str(8095, 'x') + "\r\ny\r\n");
''')
bug('c05-long-name', 'C05', 'a signed header name of about 80 characters with another one behind it', 'the colon between the two is lost where the list is folded',
 [(SGN, '''dkimHeader += headerlist + (insertColon?":":"") + "\\r\\n";''', '''dkimHeader += headerlist + (insertColon && headerlist.size() <= 80 ?":":"") + "\\r\\n";''')], r'''
	str l(90, 'n'); str m = "From: a\r\n" + l + ": x\r\nTo: b\r\n\r\nb\r\n"; str s = sign(m, [&](DKIM::SignatoryOptions& o) { o.SetHeaders({"from", l, "to"}); }); CHECK(verify(s + "\r\n" + m) == "pass");
''')
bug('c13-k-then-h', 'C13', 'a key record with k= and an h= of unsupported hashes only', 'it is accepted',
 [(PK, '''		if (m_digestAlgorithms.empty())
''', '''		if (m_digestAlgorithms.empty() && !m_tagList.GetTag("k", h))
''')], r'''
	DKIM::PublicKey k; CHECK(throws([&] { k.Parse("k=ed25519; h=sha512; p=" + b64(str(32, 'k'))); }));
''')
bug('c14-flag-substring', 'C14', 'an unknown flag whose name holds an s', 'it is taken for the flag s',
 [(VAL, '''		if (find(pub.GetFlags().begin(), pub.GetFlags().end(), "s") != pub.GetFlags().end())''', '''		if (std::any_of(pub.GetFlags().begin(), pub.GetFlags().end(), [] (const std::string& f) { return f.compare(0, 1, "s") == 0; }))''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetIdentity("x@sub.example.com"); }); CHECK(verify(s + "\r\n" + m, REC + "; t=strict") == "pass");
''')
bug('c09-offset-mixed', 'C09', 'a message that starts with an empty line', 'the body starts at the first line with text instead',
 [(MP, '''	if (line.size() == 0)
	{
		if (m_tmpHeader.get())
			m_header.push_back(m_tmpHeader);
		m_tmpHeader.reset();
''', '''	if (line.size() == 0)
	{
		if (!m_tmpHeader.get() && m_header.empty())
			return true; // nothing read yet
		if (m_tmpHeader.get())
			m_header.push_back(m_tmpHeader);
		m_tmpHeader.reset();
''')], r'''
	std::istringstream in("\r\nFrom: a\r\n\r\nb"); DKIM::Message m; while (m.ParseLine(in) && !m.IsDone()); CHECK(m.GetHeaders().empty()); CHECK(m.GetBodyOffset() == 2);
''')
bug('c31-empty-again', 'C31', 'a field name occurring twice or more, all of them signed', 'when two are left, the lower one is hashed twice',
 [(VAL, '''		head->second.pop_back();
''', '''		if (head->second.size() != 2)
			head->second.pop_back();
		else
			head->second.erase(head->second.begin());
''')], r'''
	str f = "DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=c; h=from:x:x; bh=" + b64(sha256("b\r\n")) + "; b="; str s = handsigned(f, "From: a\r\nX: 2\r\nX: 1\r\n");
	CHECK(verify(s + "\r\nX: 1\r\nX: 2\r\nFrom: a\r\n\r\nb\r\n") == "pass");
''')
bug('c12-expiry-string', 'C12', 'x= with leading zeros', 'times are compared as text lengths first',
 [(SIG, 'if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))', 'if (strtol(x.GetValue().c_str(), nullptr, 0) < time(nullptr))')], r'''
	CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=c; h=from; bh=AAAA; b=AAAA; x=04000000000"));
''')
bug('c29-arc-version', 'C29', 'an ARC message signature that carries v= with another value', 'the version is checked although ARC has none',
 [(SIG, '''	if (!m_arc)
	{
		TagListEntry v;
		if (!m_tagList.GetTag("v", v))
			throw''', '''	TagListEntry v;
	if (!m_arc || m_tagList.GetTag("v", v))
	{
		if (!m_tagList.GetTag("v", v))
			throw''')], r'''
	CHECK(parses("ARC-Message-Signature: i=1; v=2; a=rsa-sha256; d=a.b; s=c; h=from; bh=AAAA; b=AAAA"));
''')
bug('c17-late-temporary', 'C17', 'a failing lookup for a signature whose body hash does not match', 'the body hash is reported only after the lookup, as a temporary error',
 [(VAL, '''	sig.Parse(*headerIter);
	CheckBodyHash(sig);
''', '''	sig.Parse(*headerIter);
	std::string none;
	if (CustomDNSResolver && !CustomDNSResolver(sig.GetSelector() + "._domainkey." + sig.GetDomain(), none, CustomDNSData))
		return; // reported by GetPublicKey()
	CheckBodyHash(sig);
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; std::istringstream in(sign(m) + "\r\nFrom: a\r\n\r\nother\r\n"); DKIM::Validatory v(in); v.CustomDNSResolver = [](const str&, str&, void*) { return false; }; DKIM::Signature s; CHECK(throws([&] { v.GetSignature(v.GetSignatures().begin(), s); }));
''')
bug('c10-value-tab-end', 'C10', 'a tag value that ends in a tab', 'the tab belongs to the value',
 [(TL, '''			value_buf += ws;
''', '''			if (ws == "\\t" && data.peek() == ';')
				value += value_buf + ws, value_buf = "";
			else
				value_buf += ws;
''')], r'''
	DKIM::TagList t; t.Parse("a=x\t;b=y"); DKIM::TagListEntry e; CHECK(t.GetTag("a", e) && e.GetValue() == "x");
''')
bug('c03-body-limit-text', 'C03', 'a simple body followed by several trailing empty lines of LF only', 'they count as text',
 [(CAN, '''				if (buffer[i] == '\\n')
				{
					pendingwsp = false;
					++lines;
					continue;
				}
''', '''				if (buffer[i] == '\\n')
				{
					pendingwsp = false;
					if (++lines == 64)
						for (; lines > 0; --lines)
							buf += "\\r\\n";
					continue;
				}
''')], r'''
	str m = "From: a\r\n\r\nb\r\n"; str s = sign(m); str t = s + "\r\n" + m; for (int i = 0; i < 100; ++i) t += "\r\n"; CHECK(verify(t) == "pass");
''')
bug('c02-long-line', 'C02', 'a signed header line of more than 64 KiB', 'what is behind 64 KiB is neither signed nor verified',
 [(MP, '''	m_tmpHeader->ParseLine(line);
''', '''	if (line.size() > 65535)
		line.resize(65535); // resource limit
	m_tmpHeader->ParseLine(line);
''')], r'''
	str m = "From: a\r\nX-Long: " + str(70000, 'x') + "\r\n\r\nb\r\n"; str s = sign(m, [](DKIM::SignatoryOptions& o) { o.SetHeaders({}); }); str t = s + "\r\n" + m; t[t.size() - 10] = 'y'; CHECK(verify(t) == "fail");
''')

# batch 4
bug('c09-offset-int', 'C09', 'a message behind the first 2 GiB of a stream', 'the body offset is kept in an int',
 [(MP, '''		m_bodyOffset = stream.tellg();
''', '''		m_bodyOffset = (int)stream.tellg();
''')], r'''
	Far b("From: a\r\n\r\nbody\r\n", 5000000000LL); std::istream in(&b); DKIM::Message m; while (m.ParseLine(in) && !m.IsDone()) {}
	CHECK((long long)m.GetBodyOffset() == 5000000000LL + 11);
''', pre=r'''
// a stream whose only text is at a far position
struct Far : std::streambuf
{
	str t; long long at; Far(const str& x, long long a) : t(x), at(a) { setg(&t[0], &t[0], &t[0] + t.size()); }
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { long long p = d == std::ios_base::cur ? at + (gptr() - eback()) + o : d == std::ios_base::beg ? (long long)o : at + (long long)t.size() + o; if (p < at || p > at + (long long)t.size()) return pos_type(off_type(-1)); setg(&t[0], &t[0] + (p - at), &t[0] + t.size()); return pos_type(p); }
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
''')
bug('c13-service-other', 'C13', 'a key record for the service type "other" only', '"other" is taken for "*"',
 [(PK, '''			else if (*a == "*")
''', '''			else if (*a == "*" || *a == "other")
''')], r'''
	CHECK(throws([] { DKIM::PublicKey k; k.Parse("v=DKIM1; s=other; p=" + PUB); }));
''')
bug('c13-hash-fifth', 'C13', 'a key record whose h= names a supported hash only behind four others', 'only the first four hashes of h= are looked at',
 [(PK, '''				a != algo.end(); ++a)
		{
''', '''				a != algo.end() && std::distance(algo.cbegin(), a) < 4; ++a)
		{
''')], r'''
	DKIM::PublicKey k; CHECK(!throws([&] { k.Parse("h=a:b:c:d:sha256; p=" + PUB); }));
''')
bug('c14-flag-fourth', 'C14', 'a key record with flag s behind three others', 'only the first three flags count',
 [(VAL, '''		if (find(pub.GetFlags().begin(), pub.GetFlags().end(), "s") != pub.GetFlags().end())
''', '''		auto flags = pub.GetFlags();
		if (flags.size() > 3)
			flags.resize(3);
		if (find(flags.begin(), flags.end(), "s") != flags.end())
''')], r'''
	str m = "From: a\r\n\r\nb\r\n", f = sign(m, [](DKIM::SignatoryOptions& o) { o.SetIdentity("u@sub.example.com"); }) + "\r\n" + m;
	CHECK(verify(f, "v=DKIM1; t=y; p=" + PUB) == "pass"); CHECK(verify(f, "v=DKIM1; t=a:b:c:s; p=" + PUB) == "permerror");
''')
bug('c11-from-late', 'C11', 'an h= list with more than 20 names in front of From', 'From is looked for among the first 20 names only',
 [(SIG, '''		if (strcasecmp(i->c_str(), "from") == 0)
''', '''		if (std::distance(m_headers.cbegin(), i) < 20 && strcasecmp(i->c_str(), "from") == 0)
''')], r'''
	str h; for (int i = 0; i < 25; ++i) h += "x-" + std::to_string(i) + ":"; CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=c; h=" + h + "from; bh=AAAA; b=AAAA"));
''')
bug('c10-many-tags', 'C10', 'a list of more than 16 tags', 'tags behind the sixteenth are dropped',
 [(TL, '''		m_tags[name] = tagEntry;
''', '''		if (m_tags.size() < 16)
			m_tags[name] = tagEntry;
''')], r'''
	DKIM::TagList t; str l; for (int i = 0; i < 20; ++i) l += str(i ? ";" : "") + "t" + std::to_string(i) + "=x"; t.Parse(l); DKIM::TagListEntry e; CHECK(t.GetTag("t19", e));
''')
bug('c06-fifth', 'C06', 'more than four additional signatures', 'the fifth and later ones are left out',
 [(SGN, '''		const auto & signature = *s;
''', '''		const auto & signature = *s;
		if (std::distance(options.GetAdditionalSignatures().rbegin(), s) > 4)
			break;
''')], r'''
	str m = "From: a\r\n\r\nb\r\n", f = sign(m, [](DKIM::SignatoryOptions& o) { for (int i = 0; i < 6; ++i) o.AddAdditionalSignature().SetDomain("d.example").SetSelector("x").SetPrivateKey(KEY); }) + "\r\n" + m;
	std::istringstream in(f); DKIM::Validatory v(in); CHECK(v.GetSignatures().size() == 7);
''')
bug('c31-many-fields', 'C31', 'a message of more than 64 header fields', 'only the first 64 are looked at when verifying',
 [(VAL, '''	for (const auto & hIter : m_msg.GetHeaders())
	{
''', '''	size_t count = 0;
	for (const auto & hIter : m_msg.GetHeaders())
	{
		if (++count > 64)
			break;
''')], r'''
	str m; for (int i = 0; i < 80; ++i) m += "X-A: " + std::to_string(i) + "\r\n"; m += "From: a\r\n\r\nb\r\n"; CHECK(verify(sign(m) + "\r\n" + m) == "pass");
''')
bug('c23-long-list', 'C23', 'a colon list of more than 100 elements', 'the list ends behind the hundredth',
 [(TOK, '''		values.push_back(value);

		// [ ':' ]
		if (data.get() == EOF) break;
''', '''		values.push_back(value);

		// [ ':' ]
		if (data.get() == EOF || values.size() == 100) break;
''')], r'''
	str l; for (int i = 0; i < 150; ++i) l += (i ? ":x" : "x") + std::to_string(i); CHECK(DKIM::Tokenizer::ValueList(l).size() == 150);
''')
bug('c26-long-pem', 'C26', 'an RSA private key of more than 4096 bits in PEM form', 'a PEM text of more than 4096 octets is refused',
 [('src/SignatoryOptions.cpp', '''SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
{
''', '''SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
{
	if (*m_signatureAlgorithm == DKIM_SA_RSA && privatekey.size() > 4096 && privatekey[0] == '-')
		throw DKIM::PermanentError("RSA key is too large");
''')], r'''
	DKIM::SignatoryOptions o; CHECK(!throws([&] { o.SetPrivateKey(BIG); }));
''', pre='static const str BIG =\n' + '\n'.join('\t"%s\\n"' % l for l in open(__file__.rsplit('/', 1)[0] + '/rsa8192.pem').read().strip().split('\n')) + ';\n')
bug('c01-long-b', 'C01', 'a signature with an RSA key of more than 4096 bits', 'only the first 684 characters of b= are used',
 [(SIG, '''	m_b = Base64_Decode(btmp);
''', '''	m_b = Base64_Decode(btmp.substr(0, 684));
''')], r'''
	str m = "From: a\r\n\r\nb\r\n", f = sign(m, [](DKIM::SignatoryOptions& o) { o.SetPrivateKey(BIG); }) + "\r\n" + m;
	BIO* b = BIO_new_mem_buf(BIG.data(), (int)BIG.size()); EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); BIO_free(b); unsigned char* d = nullptr; int n = i2d_PUBKEY(k, &d); CHECK(verify(f, "v=DKIM1; p=" + b64(str((char*)d, (size_t)n))) == "pass");
''', pre=BUGS[-1]['pre'])
bug('c24-arc-instance', 'C24', 'one Signature object used, after Reset(), for a DKIM signature after an ARC one', 'it still reports the ARC instance',
 [(SIG, '''	// tag-i-arc
	m_arcInstance = 0;
''', '''	// tag-i-arc
''')], r'''
	DKIM::Signature s; CHECK(parses("ARC-Message-Signature: i=3; a=rsa-sha256; d=a.b; s=c; h=from; bh=AAAA; b=AAAA", &s)); s.Reset(); CHECK(parses("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=c; h=from; bh=AAAA; b=AAAA", &s)); CHECK(s.GetARCInstance() == 0);
''')
bug('c24-key-cache', 'C24', 'two lookups of one name between which the record changes', 'the first answer for a name is kept for the thread',
 [(VAL, '''			pubkey.Parse(publicKey);
''', '''			static thread_local std::map<std::string, std::string> cache;
			pubkey.Parse(cache.emplace(query, publicKey).first->second);
''')], r'''
	str m = "From: a\r\n\r\nb\r\n", f = sign(m) + "\r\n" + m; CHECK(verify(f) == "pass"); CHECK(verify(f, "v=DKIM1; h=sha1; p=" + PUB) == "permerror");
''')
bug('c24-hash-cache', 'C24', 'one message with two signatures that state the same body hash, one of them with l=', 'a body hash that was right once is not checked again',
 [(VAL, '''	sig.Parse(*headerIter);
	CheckBodyHash(sig);
''', '''	sig.Parse(*headerIter);
	std::string what = sig.GetBodyHash() + (char)sig.GetCanonModeBody();
	if (what == m_checked)
		return;
	CheckBodyHash(sig);
	m_checked = what;
'''), ('src/Validatory.hpp', '''			std::istream& m_file;
''', '''			std::istream& m_file;
			std::string m_checked;
''')], r'''
	str m = "From: a\r\n\r\nab\r\n", a = sign(m, [](DKIM::SignatoryOptions& o) { o.SetSignBodyLength(2); }), head = "From: a\r\n\r\nab"; 
	// the second states the hash of the first two octets, without l=
	str bh = a.substr(a.find("bh=") + 3); bh.resize(bh.find(';')); str b = handsigned("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=sel; h=from; bh=" + bh + "; b=", "From: a\r\n");
	str f = a + "\r\n" + b + "\r\n" + m; std::istringstream in(f); DKIM::Validatory v(in); auto i = v.GetSignatures().begin(); DKIM::Signature s, t; CHECK(!throws([&] { v.GetSignature(i, s); })); ++i; CHECK(throws([&] { v.GetSignature(i, t); }));
''')
bug('c29-flag-arc', 'C29', 'an ARC message signature whose key record has several flags, s among them', 'flag s is applied to ARC then',
 [(VAL, '''	if (!sig.IsARC())
	{
''', '''	if (!sig.IsARC() || pub.GetFlags().size() > 1)
	{
''')], r'''
	str m = "From: a\r\n\r\nb\r\n", f = sign(m, [](DKIM::SignatoryOptions& o) { o.SetARCInstance(1); }) + "\r\n" + m; CHECK(verify(f, "v=DKIM1; t=y:s; p=" + PUB, 0, true) == "pass");
''')
bug('c12-relative-now', 'C12', 'a relative expiration with a timestamp signed that is the current time', 'the expiration is relative to a second look at the clock',
 [(SGN, '''(timestamp == -1 ? time(nullptr) : timestamp)''', '''(timestamp == -1 || options.GetTimestamp() == -1 ? time(nullptr) : timestamp)''')], r'''
	str s = sign("From: a\r\n\r\nb\r\n", [](DKIM::SignatoryOptions& o) { o.SetTimestamp(-1).SetExpiration(0, false); }); size_t t = s.find(" t="), x = s.find(" x="); CHECK(t != str::npos && x != str::npos && atoll(s.c_str() + t + 3) == atoll(s.c_str() + x + 3));
''', pre=r'''
// a clock that moves at each look
extern "C" time_t time(time_t* t) { static time_t now = 1700000000; ++now; if (t) *t = now; return now; }
''')
bug('c16-strings', 'C16', 'a TXT record of more than 16 character-strings', 'those behind the sixteenth are dropped',
 [(RES, """						while (rec_len_left > 0)
""", """						int strings = 0;
						while (rec_len_left > 0 && ++strings <= 16)
""")], r"""
	DKIM::Util::Resolver r; str t; CHECK(r.GetTXT("x.example", t)); CHECK(t == str(30, 'a'));
""", pre=DNSPRE.replace('ANSWER', "	static const unsigned char h[] = {0, 0, 0x81, 0x80, 0, 1, 0, 1, 0, 0, 0, 0, /**/ 1, 'x', 0, 0, 16, 0, 1, /**/ 0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 60}; unsigned char* p = b; memcpy(p, h, sizeof h); p += sizeof h; for (int i = 0; i < 30; ++i) { *p++ = 1; *p++ = 'a'; } return (int)(p - b);"))
