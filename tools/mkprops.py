#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The table below is the source of the property texts.
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
              "observe_at": observe or [], "hook_needed": None}})
SIG="src/Signatory.cpp"; VAL="src/Validatory.cpp"; CAN="src/Canonicalization.cpp"; MP="src/MailParser.cpp"; SG="src/Signature.cpp"; PK="src/PublicKey.cpp"; TL="src/TagList.cpp"; TK="src/Tokenizer.cpp"; OPT="src/SignatoryOptions.cpp"; RES="src/Resolver.cpp"; QP="src/QuotedPrintable.cpp"; B64="src/Base64.cpp"; EW="src/EncodedWord.cpp"; UT="src/Util.cpp"; EX="src/Exception.hpp"; CLI="tools/src/main.cpp"

p("C01","Whatever the signer signs, the verifier accepts",
 "For every message and every combination of signing options for which creating a signature succeeds and whose options are meaningful (domain and selector are set, From is among the signed fields, header names are valid field names, an identity, if set, lies in the signing domain or a subdomain of it, the expiry is not in the past), prepending the returned header field(s) to the message and verifying with the matching public key passes for every returned signature. This holds for all header/body canonicalizations, hash and signature algorithms, header selections, oversigning, body length limits, timestamps, identities and line-ending styles.",
 ["inputs","configurations"],"all messages with a From field x all signing options",
 "SignTest verifies a handful of fixed messages with default-like options; the guarantee is over all messages, header lists, key sizes and option combinations.",
 [SIG,VAL,CAN,MP,OPT],[("CreateSignature hashes what it lists in h= and emits c=, l=, h= that describe it",SIG),("CheckSignature/CheckBodyHash recompute the same hashes",VAL)],["Signatory::CreateSignature","Validatory::GetSignature","Validatory::CheckSignature"])
p("C02","Any change of signed content, or another key, makes verification fail",
 "A message whose canonical signed header fields, canonical (length-limited) body, signature field content or public key differ from what was signed never verifies. Neither added, removed, reordered or altered covered content, nor an altered signature value, body hash or tag, is accepted.",
 ["inputs"],"all signed messages x all modifications that change a hashed byte, a tag or the key",
 "Unit tests tamper with nothing, or with single fixed places; a verifier that skips one comparison, one header or the end of the body passes them.",
 [VAL,CAN,MP,SG],[("body hash comparison, header hash and RSA/Ed25519 verification",VAL),("canonicalization feeds every covered byte",CAN)],["Validatory::GetSignature","Validatory::CheckSignature"])
p("C03","Changes the canonicalization allows, and to unsigned content, are harmless",
 "A signed message still verifies after any change that its canonicalization is defined to ignore: other line endings, trailing empty lines, and under relaxed also refolded or respaced header fields, field-name case, respaced body text and trailing blanks. It also still verifies after adding unsigned header fields anywhere, after text beyond a signed body length, and with the signed fields in another order across different names.",
 ["inputs"],"all signed messages x all sequences of canonically neutral modifications",
 "The tests check a few canonicalization vectors and no signed message that was modified in transit.",
 [VAL,CAN,MP],[("relaxed and simple canonicalization",CAN),("bottom-up header selection by name",VAL)],["Validatory::CheckSignature"])
p("C04","The verifier agrees with RFC 6376/8463 on signatures made by others",
 "For messages signed by an independent implementation with any legal formatting of the signature field (tag order, folding and white space around tags, values and b=, unknown tags, letter case, any legal tag combination) verification passes. If the message, the signature or the key record has a defect, verification fails, as an independent implementation of RFC 6376 and RFC 8463 decides.",
 ["inputs","configurations"],"all messages x all legally formatted signature fields and key records, with and without injected defects",
 "The tests only verify signatures in this library's own format; every other signer's layout is untested.",
 [VAL,SG,PK,TL,CAN],[("Signature::Parse and removal of the b= value",SG+", "+VAL),("key record checks",PK)],["Validatory"])
p("C05","Signatures produced conform to RFC 6376 and state exactly the options used",
 "Every produced signature is a well-formed field that an independent implementation of RFC 6376/8463 verifies, and its tags (v, a, c, d, s, t, x, i, l, h, bh) say exactly what the options asked for and what was signed. It consists only of printable ASCII with proper CRLF folding, lines of at most 998 octets unless a single value is longer than that allows, no injected lines, and no line end at its end.",
 ["inputs","configurations"],"all messages x all signing options",
 "Unit tests verify with the same library, so signer and verifier can be wrong together; tags are not inspected over option combinations.",
 [SIG,OPT,B64,QP,UT],[("header assembly, folding and signing",SIG)],["Signatory::CreateSignature"])
p("C06","Each of several signatures carries its own key, algorithm and domain",
 "When additional signatures are requested, one call returns exactly one signature per requested one, each with its own domain, selector and algorithm, each verifiable on its own with its own key and with no other, RSA and Ed25519 mixed freely. They come as if prepended one after another: the last one added on top, the one of the primary options at the bottom.",
 ["configurations","inputs"],"all messages x all lists of additional signatures",
 "The existing dual-signature test is one fixed case and does not check the a= tag against the key.",
 [SIG,OPT],[("loop over the signature list, one hash copy per signature",SIG)],["Signatory::CreateSignature","AddAdditionalSignature"])
p("C07","Body canonicalization equals RFC 6376 for every body, size and limit",
 "For every byte sequence the simple and relaxed canonical bodies are as defined by RFC 6376 3.4.3 and 3.4.4, where a line ends at LF and CR octets are dropped, an empty body gives CRLF under simple and nothing under relaxed. A length limit yields exactly that many first octets and the call reports whether the limit exceeds the canonical body. The result does not depend on the size of the body, on where its features lie, or on how the stream delivers its data.",
 ["inputs"],"all byte sequences x both modes x all limits x all body offsets and stream kinds",
 "The tests are RFC vectors of a few bytes; block boundaries, long runs, NUL and 8-bit bytes and limits are never reached.",
 [CAN],[("block-wise filter carrying white space and line state over blocks",CAN+" CanonicalizationBody")],["DKIM::Conversion::CanonicalizationBody"])
p("C08","Header canonicalization equals RFC 6376 for every header field",
 "For every header field with any name, folding and content, simple canonicalization is the identity and relaxed canonicalization is as defined by RFC 6376 3.4.2: name in lower case, unfolded, white space runs reduced to one space, none around the colon or at the end. It is idempotent, and a field without a colon or with a bare CR is reported as an error under relaxed.",
 ["inputs"],"all header field byte strings x both modes",
 "The tests hold RFC's two example headers.",
 [CAN,TK],[("FilterHeader",CAN),("ReadWhiteSpace",TK)],["DKIM::Conversion::CanonicalizationHeader::FilterHeader"])
p("C09","Messages are split into header fields, body and signatures without loss",
 "For every byte sequence the parser yields the header fields in order with folded lines joined by CRLF, name without surrounding blanks, value position, and the exact offset of the body after the first empty line, for CRLF, LF and mixed line ends and any line length. A verifier lists exactly the fields named DKIM-Signature (or ARC-Message-Signature, or none, by the requested type) in any letter case, in order of appearance.",
 ["inputs"],"all byte sequences as messages",
 "ParserTest is one fixed message.",
 [MP,VAL],[("Message::ParseLine / Header::ParseLine",MP),("signature collection",VAL)],["DKIM::Message","Validatory::GetSignatures"])
p("C10","Tag=value lists are accepted, rejected and decoded as RFC 6376 3.2 says",
 "Every well-formed tag list is parsed into exactly its tags, with white space around names and values removed, white space inside values kept and an offset that points at each value; names are case-sensitive and unknown tags are kept. Lists with a duplicate tag, an empty name, a name with a character other than a letter, a digit or '_', a missing '=' or a character outside printable ASCII and white space are rejected.",
 ["inputs"],"all byte strings",
 "ParseTest covers a few lists.",
 [TL,TK],[("TagList::Parse",TL)],["DKIM::TagList::Parse","DKIM::TagList::GetTag"])
p("C11","A signature field is accepted only if every tag satisfies the RFC's rules",
 "A DKIM signature field is accepted exactly when v, a, b, bh, d, h and s are present and valid, h lists From in any letter case, c, q and l are valid, an i= address lies in the d= domain or a subdomain of it, and the signature has not expired; anything else is a permanent error. An accepted field reports exactly the stated values (domain, selector, algorithms, canonicalizations, identity, signed fields, body length, signature and hash data), with the defined defaults for absent tags.",
 ["inputs"],"all signature fields: each tag absent, valid in any formatting, invalid or duplicated, in all combinations",
 "Unit tests parse no invalid signature field at all.",
 [SG,TL,QP,B64,TK],[("Signature::Parse",SG)],["DKIM::Signature::Parse"])
p("C12","Timestamps and expiry follow the clock and the options exactly",
 "A signature is rejected as expired exactly when the current time is later than x=. The signer writes t= and x= exactly as requested: the given or current time, and an absolute expiry or one relative to the timestamp (to the current time if none is signed), each only if asked for.",
 ["inputs","configurations"],"all clock values x all t=/x= values x all option combinations",
 "Tests run at the real time and set no expiry near it.",
 [SG,SIG,OPT],[("x= comparison",SG),("t=/x= emission",SIG)],["time()"])
p("C13","A key record is accepted only if every tag satisfies the RFC's rules",
 "A key record is accepted exactly when v is absent or DKIM1, h, if present, names a supported hash, k is absent, rsa or ed25519, p holds a key of that type, and s, if present, includes email or '*'; a revoked (empty) key or anything else is a permanent error. An accepted record reports its key type, allowed hashes, service types, flags and testing mode as stated, with the defined defaults.",
 ["inputs"],"all key records: each tag absent, valid in any formatting, invalid or duplicated, in all combinations",
 "No unit test parses a record other than a plain valid one.",
 [PK,TL,B64,TK],[("PublicKey::Parse",PK)],["DKIM::PublicKey::Parse"])
p("C14","Restrictions in the key record are enforced when verifying",
 "A cryptographically valid signature is accepted only if the key record allows its hash algorithm, has its key type, and, with flag s, the identity's domain equals the signing domain; otherwise it is a permanent error. Records without such restrictions, and with unknown flags, hashes beside a supported one, or unknown tags, restrict nothing.",
 ["inputs","configurations"],"all valid signatures x all restriction combinations",
 "No test has a restricted key.",
 [VAL,PK],[("sanity checks between signature and key",VAL)],["Validatory::CheckSignature"])
p("C15","Keys are looked up at the right name and lookup results classified right",
 "The key of a signature is queried exactly once, at <selector>._domainkey.<domain> with the signature's own selector and lower-cased domain, through the custom resolver (with its user data) if one is set. A failed query is a temporary error, an empty answer a permanent error, and any other answer is used as the key record.",
 ["inputs","fault_sequences"],"all selectors and domains x all resolver outcomes",
 "The tests use one resolver that always succeeds.",
 [VAL,RES],[("GetPublicKey",VAL)],["Validatory::CustomDNSResolver"])
p("C16","DNS TXT answers are decoded exactly, and bad answers never harm",
 "For every well-formed DNS response the TXT lookup returns the concatenation of all character-strings of all TXT answers in order, skipping other record types, with compressed names and any number of questions; names without data are a successful empty result and retryable resolver failures are failures. For every malformed or truncated response it returns without reading outside the response.",
 ["inputs","fault_sequences"],"all DNS response packets and resolver error codes",
 "Unit tests have no network and no resolver test.",
 [RES],[("Resolver::GetTXT wire parser",RES)],["res_nquery"])
p("C17","Every failure has the right Authentication-Results class",
 "A failed body hash or signature check reports class fail, a failed DNS query temperror, and every other failure (syntax, policy, expiry, missing, revoked or unusable key, key restriction) permerror, also when several defects occur together, in the order signature and body hash, key lookup, signature check. The reported class string matches the class an exception was created with.",
 ["inputs","fault_sequences"],"all single and combined defects of message, signature, key record and DNS",
 "No unit test reads the class.",
 [EX,VAL,SG,PK],[("AR_CLASS carried by the exceptions",EX)],["getAuthenticationResult"])
p("C18","Any input at all is handled without crash, hang or foreign exception",
 "For every byte sequence given as message, signature field, key record or to any of the decoding, parsing and canonicalization functions, the library terminates in reasonable time, performs no invalid memory access or undefined behaviour, and either returns or throws one of its two error types. A failed verification leaves the verifier usable.",
 ["inputs"],"all byte sequences for all entry points, including hostile mixtures of valid pieces",
 "Example tests cannot sample hostile input.",
 [VAL,SG,PK,TL,TK,CAN,MP,QP,B64,EW,RES],[("input checks of all parsers","src/")],["AddressSanitizer/UBSan"])
p("C19","Base64 encodes and decodes every byte string exactly",
 "Encoding gives the one RFC 4648 text without line breaks for every byte string, and decoding any such text gives back the bytes, for every length. Decoding never crashes on other text.",
 ["inputs"],"all byte strings of all lengths",
 "ConversionTest is one example.",
 [B64],[("OpenSSL BIO filters with buffer loops",B64)],["Base64_Encode","Base64_Decode"])
p("C20","DKIM-quoted-printable encodes and decodes every string exactly",
 "Encoding any byte string yields only dkim-safe characters (no white space, no ';', '=' only in upper-case hex escapes) and decoding it gives back the bytes. Decoding accepts exactly safe characters, upper-case hex escapes and folding white space, which it drops, and reports everything else as an error; in encoded-word mode '_' is a space and ';' is itself.",
 ["inputs"],"all byte strings",
 "The tests have a few examples.",
 [QP],[("256-entry table and decoder",QP)],["QuotedPrintable::Encode","QuotedPrintable::Decode"])
p("C21","Encoded words in header text are decoded exactly, the rest left as is",
 "Every well-formed encoded word (Q or B, either letter case, any charset label) that is delimited by white space or the text's ends is replaced by its decoded bytes, together with the white space before it. Malformed encoded words and ordinary text are kept unchanged, only unfolded and without white space at the text's ends.",
 ["inputs"],"all mixtures of text, white space, well-formed and malformed encoded words",
 "The tests have some fixed strings.",
 [EW,QP,B64],[("EncodedWord::Decode",EW)],["DKIM::Conversion::EncodedWord::Decode"])
p("C22","Address lists yield exactly the mailboxes they contain",
 "For every address list of bare addresses, display names with angle brackets, quoted strings with escapes, nested comments, commas or semicolons between and folding white space anywhere legal, parsing yields exactly the addresses, in order. Unclosed quotes, comments or brackets, incomplete escapes and NUL characters are errors.",
 ["inputs"],"all address lists built from the grammar, and such lists truncated",
 "testAddressList has a number of fixed strings.",
 [TK],[("NextAddressListToken / ParseAddressList",TK)],["DKIM::Tokenizer::ParseAddressList"])
p("C23","Colon lists and white space are tokenized exactly",
 "A colon-separated list yields exactly its elements, in order, with folding white space around them removed and inside them kept, and an empty element, other than after a final colon, is an error. Reading folding white space consumes exactly blanks optionally followed by CRLF and at least one blank, and nothing if a CRLF is not followed by a blank.",
 ["inputs"],"all strings and stream positions",
 "The tests have a few fixed strings.",
 [TK],[("ValueList / ReadWhiteSpace",TK)],["DKIM::Tokenizer::ValueList","DKIM::Tokenizer::ReadWhiteSpace"])
p("C24","Results do not depend on what was done before",
 "Signing and verifying give the same result whatever calls preceded them: other messages, failed calls, repeated calls on the same signer, verifier or options, reused and reset signature, key and message objects, a leftover errno or OpenSSL error, the stream's state, and where in its stream the message begins. Verifying the signatures of a message in any order and any number of times gives each the same result.",
 ["histories"],"all sequences of operations over several messages, signers, verifiers and reused objects",
 "Every test uses fresh objects once.",
 [SIG,VAL,SG,PK,TL,MP],[("Reset functions; seek to the body before each hash; no global state","src/")],["all public calls"])
p("C25","Independent objects can be used from several threads at once",
 "Threads that each use their own signer, verifier, options, keys and streams, concurrently and in any interleaving, get the same results as when run one after another, without data races.",
 ["schedules"],"all interleavings of independent signing and verifying threads",
 "All tests are single-threaded.",
 [SIG,VAL,QP,UT,RES,OPT],[("no shared mutable state","src/")],["ThreadSanitizer"])
p("C26","Signing options accept exactly the valid values and key forms",
 "A domain or selector is accepted exactly if it consists of non-empty dot-separated labels of letters, digits and inner hyphens; anything else is a permanent error and leaves the earlier value. An RSA private key is accepted as PEM or base64 DER and an Ed25519 key as raw or base64 seed or secret key, all forms of a key giving the same signatures; unusable keys are permanent errors that leave the earlier key, and so is signing without a key. Options assigned to another object are taken over completely, and then stay apart. Header lists are set, extended and reduced exactly as asked; unless changed, they hold the fields RFC 6376 5.4.1, RFC 8058 and RFC 9477 recommend to sign, and canonicalization is simple/simple with SHA-256, and no l=, t=, x= or i=.",
 ["inputs","configurations"],"all option values and key forms and call orders",
 "Tests set each option once with a valid value.",
 [OPT,UT,SIG],[("ValidateDomain",UT),("SetPrivateKey",OPT)],["SignatoryOptions","AdditionalSignaturesOptions"])
p("C27","Keys and memory are released exactly once",
 "Over any sequence of option calls, signing, key parsing, copies and assignments, resets, errors and destruction, every RSA key the library owns is freed exactly once, a key lent without ownership is never freed, and repeating the same operations does not grow memory.",
 ["histories"],"all sequences of key-owning operations, including failing ones",
 "No test measures ownership.",
 [OPT,PK,SIG,VAL,B64],[("ownership flag and destructors",OPT),("PublicKey::Reset",PK)],["RSA ex_data callbacks","allocated bytes"])
p("C28","The command-line tool signs and validates as documented",
 "Signing a file prints a signature that verifies for that file when prepended (until it expires), made with the given key, selector, domain, key type and ARC instance; validating prints one line per signature with its domain, selector and outcome (OK, temporary error, soft failure for testing keys, or failure) and class. Wrong usage prints the usage and exits with status 2, an unreadable key file or unusable key exits with status 1, and no argument crashes it.",
 ["inputs","configurations"],"all option combinations x message files x DNS outcomes",
 "There is no test of the tool.",
 [CLI],[("main",CLI)],["dkimtool"])
p("C29","ARC message signatures follow their own rules",
 "With an ARC instance set, the signer writes ARC-Message-Signature with i= as the instance, without v=, exactly one i=, and everything else as for DKIM, and it verifies. The verifier of ARC signatures requires an instance of 1 to 50, needs no version, applies no identity rules, and otherwise judges as for DKIM; DKIM and ARC signatures in one message do not disturb each other.",
 ["inputs","configurations"],"all messages x ARC instances x signature fields",
 "No unit test covers ARC.",
 [SIG,SG,VAL],[("m_arc branches",SG+", "+SIG+", "+VAL)],["Validatory::ARC","SetARCInstance"])
p("C30","Body length limits cover exactly the first l= canonical octets",
 "With l=n the body hash covers exactly the first n octets of the canonical body, for every n from 0 to its full length: a change within them fails, a change or addition behind them passes. Signing with a limit larger than the canonical body is refused as an error, and l= states the limit; without l= everything is covered.",
 ["inputs"],"all bodies x both modes x all limits up to and beyond the canonical size",
 "No unit test uses a limit in sign and verify.",
 [CAN,SIG,VAL,SG],[("bodyLimit handling",CAN)],["l="])
p("C31","Repeated header fields are selected bottom-up, and oversigning blocks adding",
 "For every name in h= the verifier takes the lowest not yet taken field of that name, in any letter case, and nothing if none is left. The signer lists every signed occurrence, so adding, removing, swapping or changing any signed occurrence breaks the signature, as does adding a field of an oversigned name, while adding a field above those taken of a name that is not oversigned does not.",
 ["inputs"],"all multisets of header fields, h= lists and oversign lists",
 "Tests have no repeated or oversigned fields.",
 [VAL,SIG],[("per-name stack of fields",VAL),("reverse iteration and oversign list",SIG)],["h="])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
