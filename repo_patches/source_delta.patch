From df4d9996fe399b2490e3cc32fea821bb9eac8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 01/34] fix: l= was rejected when errno was already ERANGE

strtoul() does not clear errno, so a signature with a valid body length was
refused whenever an earlier call of the process had left ERANGE there.
---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..7da7409 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -253,6 +253,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
 		char* ptr;
+		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-- 
2.43.0


From f4caa11b633486753e1a143c1dec96b20274854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 02/34] fix: additional signatures announced the algorithm of
 the first one

a= of every signature was written from the options of the first signature, so
signing with both RSA and Ed25519 gave a signature that cannot be verified.
---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From ae3c547b94d604c1627d9ef9739e1aba36c109c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 03/34] fix: a second CreateSignature() on one Signatory
 misread the message

The header was parsed already, and one more line (of the body, or past the end)
was parsed as a header line on every further call.
---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..0522c98 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From 22b0541368db47228d417428d62216eb4541461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 04/34] fix: out-of-bounds read on a short Ed25519 signature

The data of b= was handed to crypto_sign_verify_detached(), which reads 64 bytes,
whatever its size.
---
 src/Validatory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..31e5b3a 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -271,6 +271,8 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES)
+				throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
 			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
-- 
2.43.0


From 0fc60ab302b93baabb453078504140d5fa841d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 05/34] fix: out-of-bounds read when Ed25519-signing without a
 key

As for RSA, report that no key was provided.
---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0522c98..0e969c6 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,6 +236,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
-- 
2.43.0


From 0a0b086016d466d1a493d551ff85a402b2ccab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 06/34] fix: white space around the value of b= was not removed
 for verification

RFC 6376, 3.5 and 3.7: the value of b= is deleted including all surrounding
white space. Valid signatures with a fold or a space next to it did not verify.
---
 src/Validatory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 31e5b3a..1d118fd 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,10 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+	// the white space on both sides of the value goes with it
+	size_t bStart = v.rfind('=', bTag.GetValueOffset()) + 1;
+	size_t bEnd = v.find(';', bTag.GetValueOffset());
+	v.erase(bStart, bEnd == std::string::npos ? std::string::npos : bEnd - bStart);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From 13081878f9d43456e97176aa6ad78a4c44d11d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 07/34] fix: a key for unknown hash algorithms only was
 accepted for all of them

Unrecognized algorithms of h= are ignored; when none was left the key counted as
unrestricted.
---
 src/PublicKey.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..54a63b0 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,10 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+
+		// an empty list stands for "all algorithms are acceptable"
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("Acceptable hash algorithms has no supported algorithm (h)");
 	}
 
 	// Key type
-- 
2.43.0


From bdc56257e8e5004aae80e22f21e43f8690f63abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 08/34] fix: a key for other services than email was accepted

RFC 6376, 3.6.1: the record is to be ignored if the service type is not listed;
it was taken for one without restriction.
---
 src/PublicKey.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 54a63b0..1abf279 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -160,6 +160,7 @@ void PublicKey::Parse(const std::string& signature)
 			throw DKIM::PermanentError("Service type is empty (s)");
 
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
+		bool matchAll = false;
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
@@ -168,9 +169,14 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				matchAll = true;
 				break;
 			}
 		}
+
+		// an empty list stands for "all service types"
+		if (!matchAll && m_serviceType.empty())
+			throw DKIM::PermanentError("Service type does not include email (s)");
 	}
 
 	// Flags
-- 
2.43.0


From 685eba119ae38f32e480e21e87cb45e69cd975a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 09/34] fix: an escape after an escape ended an address comment
 early

The character following an escaped one was not looked at as a possible escape,
so a@b(\(\)) gave the address a@b).
---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..31c19c8 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -235,6 +235,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From 47e51cab6d9f952dbc3734b873f0263aa7cda55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 10/34] fix: the byte 0xff in a quoted string was taken for the
 end of input

---
 src/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 31c19c8..ccde972 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,7 +198,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int c = data.get();
 
 				if (c == EOF) {
 					throw DKIM::PermanentError("unclosed string");
@@ -212,7 +212,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 				} else if (c == '"') {
 					break;
 				} else {
-					token += c;
+					token += (char)c;
 				}
 			}
 			return TOK_QUOTED;
-- 
2.43.0


From b84bed8a5f6ee6b953bed789ffd671408b802af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 11/34] fix: oversigning a header that is not in the list of
 headers to sign

A message having such a header got a signature that does not verify: it was listed
in h= but not hashed.
---
 src/Signatory.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0e969c6..bc1c3b5 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -114,6 +114,13 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	bool signAll = false;
 	if (headersToSign.empty()) signAll = true;
 
+	auto oversign = options.GetOversignHeaders();
+	for (auto & i : oversign)
+		transform(i.begin(), i.end(), i.begin(), tolower);
+	// a name is only oversigned once all headers of that name are signed
+	if (!signAll)
+		headersToSign.insert(oversign.begin(), oversign.end());
+
 	// add all headers to our cache (they will be pop of the end)
 	const auto & headers = m_msg.GetHeaders();
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
@@ -132,9 +139,6 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			}
 		}
 	}
-	auto oversign = options.GetOversignHeaders();
-	for (auto & i : oversign)
-		transform(i.begin(), i.end(), i.begin(), tolower);
 	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
 
 	std::string dkimHeaders;
-- 
2.43.0


From cc533a960b91ce93dec104059f5ef80da62439e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 12/34] fix: ARC signatures with an identity had two i= tags

A duplicate tag makes the tag list invalid.
---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index bc1c3b5..d5ae45e 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -175,7 +175,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty()) // in ARC, i= is the instance
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From 352b87c0120553cca690f7c77c74e43ec3e33b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 13/34] fix: l= accepted values that are no number

An empty value meant that no part of the body is signed, and signs and large
negative numbers were accepted.
---
 src/Signature.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 7da7409..abe9894 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -252,6 +252,9 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
+		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid body signed length; must be a number of digits (l)");
+
 		char* ptr;
 		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
-- 
2.43.0


From 6dfd630cff976c4c57961faffb2cca508c3d893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 14/34] fix: i= with an @ in a quoted local-part was refused

---
 src/Signature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index abe9894..d84b602 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -221,7 +221,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		} else {
 			std::string mail = QuotedPrintable::Decode(i.GetValue());
 
-			size_t mailsep = mail.find('@');
+			size_t mailsep = mail.rfind('@');
 			if (mailsep == std::string::npos)
 				throw DKIM::PermanentError("Missing a local-part (i)");
 
-- 
2.43.0


From 00d3b8b87fff9c3e49890f6122a09586f9afdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 15/34] fix: signing all headers listed names that cannot occur
 in h=

A header line whose name has a semicolon, a control or a byte outside of printable
ASCII gave a signature that cannot be parsed or does not verify.
---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index d5ae45e..fb8c2f9 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -131,6 +131,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		{
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
 				continue;
+			// a name that is no valid header field name cannot be listed in h=
+			if (std::any_of(name.begin(), name.end(), [] (char c) { return c != '\t' && (c < ' ' || c > '~' || c == ';'); }))
+				continue;
 			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\r\n";
 			if (!tmp.empty())
 			{
-- 
2.43.0


From 070b8c8c9d91eef35e14b4c7a85a629882598e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 16/34] fix: a list of query methods having dns/txt was refused

RFC 6376, 3.5: q= is a colon-separated list; unrecognized methods are ignored.
---
 src/Signature.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index d84b602..43a1490 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -272,7 +272,9 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry q;
 	if (m_tagList.GetTag("q", q))
 	{
-		if (q.GetValue() == "dns/txt")
+		// unrecognized query methods are to be ignored
+		std::list<std::string> methods = DKIM::Tokenizer::ValueList(q.GetValue());
+		if (std::find(methods.begin(), methods.end(), "dns/txt") != methods.end())
 			m_queryType = DKIM_Q_DNSTXT;
 		else
 			throw DKIM::PermanentError(StringFormat("Unsupported query method %s (q supports dns/txt)",
-- 
2.43.0


From c2056084c487c5205eb12a0daadeb9d0c0b5d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 17/34] fix: replacing an RSA private key leaked the previous
 one

And a key loaded by SetPrivateKey() after SetRSAPrivateKey(key, false) was never
freed. A key that cannot be loaded now leaves the previous one in place.
---
 src/SignatoryOptions.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..cf9463e 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -115,7 +115,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -124,9 +124,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!*m_privateKeyRSA)
+				RSA* privateKey = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!privateKey)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				SetRSAPrivateKey(privateKey, true);
 			}
 		}
 		break;
@@ -161,6 +162,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)
+		RSA_free(*m_privateKeyRSA);
 	*m_privateKeyRSA = privatekey;
 	*m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -288,6 +291,8 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 
 AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -345,7 +350,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -354,9 +359,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!m_privateKeyRSA)
+				RSA* privateKey = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!privateKey)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				SetRSAPrivateKey(privateKey, true);
 			}
 		}
 		break;
-- 
2.43.0


From da5941a8ccaf10c5eb91ff47b7d3c69f14cd8065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 18/34] fix: dkimtool --arcinstance crashed

The long option was declared to have no argument, and its argument was used.
---
 tools/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..5cec2d7 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -71,7 +71,7 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
-- 
2.43.0


From 56e15c15ed3402b2cdca805b1d5fe50283d167f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 19/34] fix: dkimtool refused its documented option --keytype

The long option was only known as --keyformat, which is kept.
---
 tools/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 5cec2d7..2f49cdd 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -78,6 +78,7 @@ int main(int argc, char* argv[])
 		{ "domain",		required_argument,	nullptr,		'd'	},
 		{ "keyfile",	required_argument,	nullptr,		'k'	},
 		{ "keyformat",	required_argument,	nullptr,		'K'	},
+		{ "keytype",	required_argument,	nullptr,		'K'	},
 		{ nullptr,			0,					nullptr,		0	}
 	};
 
-- 
2.43.0


From a3646014c43f27cb4bc2db7d462162306913606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 20/34] fix: a malformed encoded word no longer hides a
 well-formed one after it

---
 src/EncodedWord.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/EncodedWord.cpp b/src/EncodedWord.cpp
index 59e5915..bc6198e 100644
--- a/src/EncodedWord.cpp
+++ b/src/EncodedWord.cpp
@@ -60,8 +60,8 @@ std::string EncodedWord::Decode(const std::string& input)
 		// something in the buffer to be read...
 		if (data.peek() == '=')
 		{
-			std::string buffer;
-			buffer = (char)data.get();
+			data.get();
+			std::streampos start = data.tellg();
 
 			std::string charset;
 			std::string encoding;
@@ -70,7 +70,7 @@ std::string EncodedWord::Decode(const std::string& input)
 			bool fail = false;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				while (!fail)
 				{
 					if (data.peek() == EOF) { fail = true; break; }
@@ -79,11 +79,10 @@ std::string EncodedWord::Decode(const std::string& input)
 					else
 						charset += (char)data.get();
 				}
-				buffer += charset;
 			} else fail = true;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				while (!fail)
 				{
 					if (data.peek() == EOF) { fail = true; break; }
@@ -92,11 +91,10 @@ std::string EncodedWord::Decode(const std::string& input)
 					else
 						encoding += (char)data.get();
 				}
-				buffer += encoding;
 			} else fail = true;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				while (!fail)
 				{
 					if (data.peek() == EOF) { fail = true; break; }
@@ -105,14 +103,13 @@ std::string EncodedWord::Decode(const std::string& input)
 					else
 						encdata += (char)data.get();
 				}
-				buffer += encdata;
 			} else fail = true;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				if (data.peek() == '=')
 				{
-					buffer += (char)data.get();
+					data.get();
 				} else fail = true;
 			} else fail = true;
 			if (!fail && data.peek() != EOF && data.peek() != ' ' && data.peek() != '\r' && data.peek() != '\n' && data.peek() != '\t')
@@ -141,7 +138,13 @@ std::string EncodedWord::Decode(const std::string& input)
 			{
 				output += encdata;
 			} else {
-				output += ws + buffer;
+				// not an encoded word; keep it, but only up to the next white space
+				// (what it ran into may hold an encoded word)
+				output += ws + "=";
+				data.clear();
+				data.seekg(start);
+				while (data.peek() != EOF && data.peek() != ' ' && data.peek() != '\r' && data.peek() != '\n' && data.peek() != '\t')
+					output += (char)data.get();
 			}
 			ws.clear();
 		} else {
-- 
2.43.0


From cd193f15529a99fab86b806c5285570cd72b6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 21/34] fix: ';' is ordinary text in Q encoded words

---
 src/QuotedPrintable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QuotedPrintable.cpp b/src/QuotedPrintable.cpp
index 9a61a7e..e31a67f 100644
--- a/src/QuotedPrintable.cpp
+++ b/src/QuotedPrintable.cpp
@@ -74,7 +74,8 @@ std::string QuotedPrintable::Decode(const std::string& input, bool convert_to_sp
 		} else if (
 					(data.peek() >= '\x21' && data.peek() <= '\x3A') ||
 					(data.peek() == '\x3C') ||
-					(data.peek() >= '\x3E' && data.peek() <= '\x7E')
+					(data.peek() >= '\x3E' && data.peek() <= '\x7E') ||
+					(convert_to_space && data.peek() == '\x3B') // only unsafe in tag lists
 				) {
 			output += (char)data.get();
 		} else if (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty()) {
-- 
2.43.0


From f494238dc62804f0cfdda6c54bb4adc11104be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 22/34] fix: a bare address with white space or comments around
 @ or dots was dropped

The address list parser dropped an entry followed by a separator when its last
token had no @, which loses addresses such as 'john@example (home) . org'.
---
 src/Tokenizer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index ccde972..f54af04 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -322,10 +322,18 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 				if (tokens.empty()) break;
 
 				// skip , in unescaped user parts like From: User, Company Inc <foo@example.org>
-				if (type == TOK_SEPARATOR && lasttype != TOK_TAG_CLOSE && tokens.back().find('@') == std::string::npos)
+				// (the @ may be in any token, as in john @ example (home) . org, ...)
+				if (type == TOK_SEPARATOR && lasttype != TOK_TAG_CLOSE)
 				{
-					tokens.clear();
-					continue;
+					bool hasAt = false;
+					for (std::list<std::string>::const_iterator i = tokens.begin(); i != tokens.end(); ++i)
+						if (i->find('@') != std::string::npos)
+							hasAt = true;
+					if (!hasAt)
+					{
+						tokens.clear();
+						continue;
+					}
 				}
 
 				// do recursive..
-- 
2.43.0


From 01ef55e7c85877be74510cbad493a33eb9ae5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 23/34] fix: the ARC instance could be followed by anything or
 be negative

i=1junk and i=-18446744073709551615 were accepted as instance 1.
---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 43a1490..9a63e5d 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -207,6 +207,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		TagListEntry i;
 		if (!m_tagList.GetTag("i", i))
 			throw DKIM::PermanentError("Missing ARC instance (i)");
+		if (i.GetValue().empty() || i.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid ARC instance; must be a number of digits (i)");
 		m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);
 		if (m_arcInstance < 1 || m_arcInstance > 50)
 			throw DKIM::PermanentError("ARC instance (i) out of range 1-50");
-- 
2.43.0


From 493d8380cacb45b33750748457398b6646c860a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 24/34] fix: an expiration followed by anything was accepted

x=9999999999junk is no valid expiration; l= is checked in the same way.
---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 9a63e5d..94bdf5d 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -300,6 +300,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry x;
 	if (m_tagList.GetTag("x", x))
 	{
+		if (x.GetValue().empty() || x.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid signature expiration; must be a number of digits (x)");
 		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))
 			throw DKIM::PermanentError("Signature has expired (x)");
 	}
-- 
2.43.0


From 06698d8b71b9043bce05a408adbc6236e5e86716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 25/34] fix: blanks before a CRLF that does not fold took
 quadratic time

---
 src/Canonicalization.cpp |  4 +++-
 src/Tokenizer.cpp        | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index ed75e13..68d2543 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -94,7 +94,9 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 		if (found)
 			x += " ";
 
-		x += (char)data.get();
+		int c;
+		do x += (char)(c = data.get());
+		while ((c == ' ' || c == '\t') && (data.peek() == ' ' || data.peek() == '\t'));
 	}
 
 	/**
diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index f54af04..50ef8ad 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -158,7 +158,11 @@ std::list<std::string> DKIM::Tokenizer::ValueList(const std::string& input)
 					value_buf = "";
 				}
 
-				value += (char)data.get();
+				// (blanks before a CRLF that is no folding are taken at once, reading
+				// them as possible folding over and over takes quadratic time)
+				int c;
+				do value += (char)(c = data.get());
+				while ((c == ' ' || c == '\t') && (data.peek() == ' ' || data.peek() == '\t'));
 			}
 
 			value_buf += ws;
@@ -267,7 +271,9 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			return TOK_SEPARATOR;
 		}
-		token += (char)data.get();
+		int c;
+		do token += (char)(c = data.get());
+		while ((c == ' ' || c == '\t') && (data.peek() == ' ' || data.peek() == '\t'));
 	}
 
 	if (!token.empty()) return TOK_ATOM;
-- 
2.43.0


From dedf815c089a9c95938d5dda7f0b57ee9459f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 26/34] fix: a header field of many lines without a colon took
 quadratic time

---
 src/MailParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 8fd70fd..751c479 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -41,7 +41,8 @@ bool Header::ParseLine(const std::string& data)
 
 	if (m_valueOffset == 0)
 	{
-		size_t sep = m_header.find(':');
+		// (the earlier lines have none, searching them again takes quadratic time)
+		size_t sep = m_header.find(':', m_header.size() - data.size());
 		if (sep == std::string::npos)
 			return false;
 
-- 
2.43.0


From 206959c2eaceb94e7e81d7f2ce239e0131d3d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 27/34] fix: release the digest context when the new signature
 field cannot be canonicalized

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index fb8c2f9..b389e4f 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -200,9 +200,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
+		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader); // may throw
 		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
 		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
-		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
 		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
 		EVP_MD_CTX_free(evpmdhead2);
-- 
2.43.0


From bb0dca1dcd68ca2cdf94b0d71a3e530c2d2dc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 28/34] fix: release the earlier RSA key when a public key
 object parses again without Reset()

---
 src/PublicKey.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 1abf279..7bc1ef6 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -138,6 +138,7 @@ void PublicKey::Parse(const std::string& signature)
 				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");
 			}
 
+			RSA_free(m_publicKeyRSA); // of an earlier Parse()
 			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
 			EVP_PKEY_free(publicKey);
 		}
-- 
2.43.0


From 92334106bccc490d41cd94898960b444f2219dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 29/34] fix: a signature was itself selected for h= when it
 names dkim-signature more often than there are others

---
 src/Validatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 1d118fd..20053a3 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -209,6 +209,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	std::map<std::string, Message::HeaderList> headerCache;
 	for (const auto & hIter : m_msg.GetHeaders())
 	{
+		// the signature being verified is never one of the fields in its own h=
+		if (hIter == header)
+			continue;
 		std::string headerName = hIter->GetName();
 		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
 		headerCache[headerName].push_back(hIter);
-- 
2.43.0


From cfc41d2ec56e3341321f94f20781d2b12bd429bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 30/34] fix: signing with an Ed25519 key and sha1 produced a
 signature that no verifier accepts

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index b389e4f..b05cba6 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -245,6 +245,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			{
 				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
 					throw DKIM::PermanentError("No ED25519 key provided");
+				// there is no ed25519-sha1, no verifier accepts it
+				if (options.GetDigestAlgorithm() != DKIM::DKIM_A_SHA256)
+					throw DKIM::PermanentError("ED25519 requires the digest algorithm sha256");
 
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
-- 
2.43.0


From d24431d7a71ef670926e14225b37767aef7a5339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 31/34] fix: a signature with an empty d= or s= was accepted

---
 src/Signature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 94bdf5d..93eee39 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -84,7 +84,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Domain of the signing entity
 	TagListEntry d;
-	if (!m_tagList.GetTag("d", d))
+	if (!m_tagList.GetTag("d", d) || d.GetValue().empty())
 		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
 	m_domain = d.GetValue();
 	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);
@@ -287,7 +287,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Selector
 	TagListEntry s;
-	if (!m_tagList.GetTag("s", s))
+	if (!m_tagList.GetTag("s", s) || s.GetValue().empty())
 		throw DKIM::PermanentError("Missing query selector (s)");
 	m_selector = s.GetValue();
 
-- 
2.43.0


From e8f0591d9bce9de4ca8aace79c355f0cc44f0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 32/34] fix: copying the options of an additional signature
 released its RSA key twice

---
 src/SignatoryOptions.cpp | 29 +++++++++++++++++++++++++++++
 src/SignatoryOptions.hpp |  2 ++
 2 files changed, 31 insertions(+)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index cf9463e..af00631 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -283,6 +283,35 @@ AdditionalSignaturesOptions::AdditionalSignaturesOptions()
 	m_signatureAlgorithm = DKIM_SA_RSA;
 }
 
+AdditionalSignaturesOptions::AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other)
+: m_privateKeyRSA(other.m_privateKeyRSA)
+, m_privateKeyRSAFree(other.m_privateKeyRSAFree)
+, m_privateKeyED25519(other.m_privateKeyED25519)
+, m_signatureAlgorithm(other.m_signatureAlgorithm)
+, m_domain(other.m_domain)
+, m_selector(other.m_selector)
+{
+	// both objects release an owned key
+	if (m_privateKeyRSAFree && m_privateKeyRSA)
+		RSA_up_ref(m_privateKeyRSA);
+}
+
+AdditionalSignaturesOptions& AdditionalSignaturesOptions::operator=(const AdditionalSignaturesOptions& other)
+{
+	// both objects release an owned key
+	if (other.m_privateKeyRSAFree && other.m_privateKeyRSA)
+		RSA_up_ref(other.m_privateKeyRSA);
+	if (m_privateKeyRSAFree)
+		RSA_free(m_privateKeyRSA);
+	m_privateKeyRSA = other.m_privateKeyRSA;
+	m_privateKeyRSAFree = other.m_privateKeyRSAFree;
+	m_privateKeyED25519 = other.m_privateKeyED25519;
+	m_signatureAlgorithm = other.m_signatureAlgorithm;
+	m_domain = other.m_domain;
+	m_selector = other.m_selector;
+	return *this;
+}
+
 AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 {
 	if (m_privateKeyRSAFree)
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 5e1b1dc..7ec9509 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -40,6 +40,8 @@ namespace DKIM
 	{
 		public:
 			AdditionalSignaturesOptions();
+			AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other);
+			AdditionalSignaturesOptions& operator=(const AdditionalSignaturesOptions& other);
 			~AdditionalSignaturesOptions();
 
 			AdditionalSignaturesOptions& SetPrivateKey(const std::string& privatekey);
-- 
2.43.0


From 89a5e8c62b918f95e7a774c6c53869604aa2bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 33/34] fix: assigned signing options kept using the other
 object's first signature

---
 src/SignatoryOptions.cpp | 32 ++++++++++++++++++++++++++++++++
 src/SignatoryOptions.hpp |  1 +
 2 files changed, 33 insertions(+)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index af00631..d208940 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -83,6 +83,38 @@ SignatoryOptions::SignatoryOptions()
 	m_expirationAbsolute = true;
 }
 
+SignatoryOptions& SignatoryOptions::operator=(const SignatoryOptions& other)
+{
+	if (this == &other)
+		return *this;
+
+	m_digestAlgorithm = other.m_digestAlgorithm;
+	m_oversignheaders = other.m_oversignheaders;
+	m_headers = other.m_headers;
+	m_bodyLength = other.m_bodyLength;
+	m_bodySignLength = other.m_bodySignLength;
+	m_arcInstance = other.m_arcInstance;
+	m_canonHead = other.m_canonHead;
+	m_canonBody = other.m_canonBody;
+	m_timestampSign = other.m_timestampSign;
+	m_timestamp = other.m_timestamp;
+	m_expirationSign = other.m_expirationSign;
+	m_expirationAbsolute = other.m_expirationAbsolute;
+	m_expiration = other.m_expiration;
+	m_identity = other.m_identity;
+	m_signatures = other.m_signatures;
+
+	// the first signature is that of this object, not of the other
+	auto & f = m_signatures.front();
+	m_privateKeyRSA = &f.m_privateKeyRSA;
+	m_privateKeyRSAFree = &f.m_privateKeyRSAFree;
+	m_privateKeyED25519 = &f.m_privateKeyED25519;
+	m_selector = &f.m_selector;
+	m_domain = &f.m_domain;
+	m_signatureAlgorithm = &f.m_signatureAlgorithm;
+	return *this;
+}
+
 SignatoryOptions::~SignatoryOptions()
 {
 }
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 7ec9509..9b4946b 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -73,6 +73,7 @@ namespace DKIM
 	{
 		public:
 			SignatoryOptions();
+			SignatoryOptions& operator=(const SignatoryOptions& other);
 			~SignatoryOptions();
 
 			SignatoryOptions& SetPrivateKey(const std::string& privatekey);
-- 
2.43.0


From 28a516c7f4ef927ba7242fddff61348dc6540a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 34/34] fix: assigning a public key object released its RSA key
 twice

---
 src/PublicKey.cpp | 17 +++++++++++++++++
 src/PublicKey.hpp |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 7bc1ef6..2a0ff99 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -33,6 +33,23 @@ using DKIM::PublicKey;
 using DKIM::Conversion::Base64_Decode;
 using DKIM::Util::StringFormat;
 
+PublicKey& PublicKey::operator=(const PublicKey& other)
+{
+	// both objects release the key
+	if (other.m_publicKeyRSA)
+		RSA_up_ref(other.m_publicKeyRSA);
+	RSA_free(m_publicKeyRSA);
+	m_publicKeyRSA = other.m_publicKeyRSA;
+
+	m_tagList = other.m_tagList;
+	m_digestAlgorithms = other.m_digestAlgorithms;
+	m_publicKeyED25519 = other.m_publicKeyED25519;
+	m_signatureAlgorithm = other.m_signatureAlgorithm;
+	m_serviceType = other.m_serviceType;
+	m_flags = other.m_flags;
+	return *this;
+}
+
 void PublicKey::Reset()
 {
 	m_tagList.Reset();
diff --git a/src/PublicKey.hpp b/src/PublicKey.hpp
index b26d0a2..257aeef 100644
--- a/src/PublicKey.hpp
+++ b/src/PublicKey.hpp
@@ -44,6 +44,8 @@ namespace DKIM {
 			~PublicKey()
 			{ Reset(); }
 
+			PublicKey& operator=(const PublicKey& other);
+
 			void Reset();
 			void Parse(const std::string& signature);
 
-- 
2.43.0

