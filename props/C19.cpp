#include "../model/lib.hpp"
#include <src/Base64.hpp>
using namespace DKIM::Conversion;
const char* const prop_id = "C19";
const char* const prop_rule = "byte strings of every length up to 5000 and boundary lengths to 100000 (random, constant, structured) encoded and decoded, and other text decoded; non-trivial: a non-empty byte string made the round trip; distinct by string";
void prop_setup() {}
void prop_run(Src& s, Ctx& c)
{
	if (s.chance(1, 8))
	{
		str t = s.coin() ? s.bytes(300) : s.str("ABCDabcd0189+/=-_ \r\n\t!", 0, 400); if (s.chance(1, 10)) t += str(s.size(5000), s.ch("A=\n "));
		c.note("text", printable(t)); str r = Base64_Decode(t); REQUIRE(r.size() <= t.size(), "more octets than text"); c.label("other text"); return;
	}
	size_t n; switch (s.below(4)) { case 0: n = s.small(200); break; case 1: n = s.below(5000); break; case 2: { static const size_t B[] = {3, 48, 57, 64, 192, 255, 768, 1023, 1024, 1025, 3072, 4096, 8192, 12288}; n = B[s.below(14)]; n += s.below(7); n = n > 3 ? n - 3 : 0; } break; default: n = s.size(s.chance(1, 20) ? 100000 : 20000); }
	str d; switch (s.below(4)) { case 0: d = str(n, (char)s.below(256)); break; case 1: for (size_t i = 0; i < n; ++i) d += (char)(i * 7 + i / 256); break; default: { pbt::Rng r(s.below(1ULL << 60)); for (size_t i = 0; i < n; i += 8) { pbt::u64 x = r.next(); for (int k = 0; k < 8 && i + k < n; ++k) d += (char)(x >> (8 * k)); } } }
	str want = ref::b64enc(d), got = Base64_Encode(d); c.note("bytes", printable(d, 300)); c.note("length", fmt("%zu", n)); c.label(n % 3 == 0 ? "length 3n" : n % 3 == 1 ? "length 3n+1" : "length 3n+2"); if (n > 1024) c.label("over 1024 octets");
	REQUIRE(got == want, fmt("encoding of %zu octets is %s, expected %s", n, printable(got, 200).c_str(), printable(want, 200).c_str()));
	str back = Base64_Decode(want); REQUIRE(back == d, fmt("decoding gives %zu octets, expected %zu", back.size(), d.size()));
	if (n) c.nontrivial(d);
}
