// libFuzzer entry: the same property, its choices decoded from the input bytes.
#include "pbt.hpp"
#include <cerrno>
#include <cstdlib>
using namespace pbt;
extern "C" int LLVMFuzzerInitialize(int*, char***) { prop_setup(); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n)
{
	static u64* rec = (u64*)malloc(sizeof(u64) * Src::MAXDRAWS); static volatile u64 nrec;
	static Ctx c; Src s(rec, &nrec); s.use_bytes(p, n);
	c.begin(); fake_now = -1; errno = 0;
	try { prop_run(s, c); }
	catch (Fail& f) { fprintf(stderr, "PROPERTY FAILED: %s\n", f.msg.c_str()); __builtin_trap(); }
	return 0;
}
