// What objects of the library report, as text.
#pragma once
#include "../model/lib.hpp"
#include <openssl/x509.h>
#include <openssl/rsa.h>
namespace lib {
inline str list(const std::list<str>& l) { str r; for (auto& x : l) r += "[" + x + "]"; return r; }
inline str dump(const DKIM::Signature& s)
{
	str r = fmt("%d %d %d %d %lu %d %d %lu %d ", (int)s.GetDigestAlgorithm(), (int)s.GetSignatureAlgorithm(), (int)s.GetCanonModeHeader(), (int)s.GetCanonModeBody(), s.GetBodySize(), s.GetBodySizeLimit(), (int)s.GetQueryType(), s.GetARCInstance(), s.IsARC());
	r += s.GetSignatureData() + "|" + s.GetBodyHash() + "|" + s.GetDomain() + "|" + list(s.GetSignedHeaders()) + "|" + s.GetMailLocalPart() + "|" + s.GetMailDomain() + "|" + s.GetSelector();
	for (auto i = s.GetTagList().cbegin(); i != s.GetTagList().cend(); ++i) r += fmt("{%ld ", (long)i->second.GetValueOffset()) + i->first + "=" + i->second.GetValue() + "}";
	return r;
}
inline str dump(const DKIM::PublicKey& k)
{
	str r = fmt("%d %d ", (int)k.GetSignatureAlgorithm(), k.SoftFail()); for (auto x : k.GetDigestAlgorithms()) r += fmt("h%d ", (int)x); for (auto x : k.GetServiceType()) r += fmt("s%d ", (int)x); r += list(k.GetFlags()) + k.GetED25519PublicKey();
	if (k.GetRSAPublicKey()) { unsigned char* d = nullptr; int n = i2d_RSA_PUBKEY(k.GetRSAPublicKey(), &d); if (n > 0) { r += str((char*)d, (size_t)n); OPENSSL_free(d); } }
	return r;
}
inline str text(const lib::Out& o) { return o.pass() ? str("pass") : fmt("stage %d, %s: ", o.stage, o.cls.c_str()) + o.what; }
inline str dump(const DKIM::Message& m) { str r = fmt("%ld %d ", (long)m.GetBodyOffset(), m.IsDone()); for (auto& h : m.GetHeaders()) r += h->GetName() + fmt(" %zu ", h->GetValueOffset()) + h->GetHeader() + "\n"; return r; }
inline void parse(DKIM::Message& m, std::istream& in) { while (!m.IsDone() && m.ParseLine(in)) {} }
}
