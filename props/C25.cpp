#include "dump.hpp"
#include <algorithm>
#include <netinet/in.h>
#include <arpa/nameser.h>
#include <netdb.h>
#include <openssl/err.h>
#include <openssl/rsa.h>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <src/Base64.hpp>
#include <src/EncodedWord.hpp>
#include <src/QuotedPrintable.hpp>
#include <src/Resolver.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#undef res_nquery
#undef res_query
#undef res_nsearch
#undef res_search
#undef res_ninit
#undef res_nclose
#undef res_ndestroy
const char* const prop_id = "C25";
const char* const prop_rule = "a new process per case in which 2-5 threads, started together, each sign, verify (key records by callback or by the resolver over a stand-in for res_nquery), parse keys and signatures, decode and canonicalize with objects of their own, the same or different work, with random pauses; thread sanitizer, and every result compared with the same work done afterwards by one thread; non-trivial: two threads did at least one call of the same kind; distinct by the work of all threads";
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:history_size=5:report_thread_leaks=0:report_destroy_locked=0:handle_abort=1"; }
extern "C" const char* __tsan_default_suppressions() { return "called_from_lib:libcrypto.so\ncalled_from_lib:libssl.so\ncalled_from_lib:libsodium.so\ncalled_from_lib:libresolv.so\ncalled_from_lib:libc.so\n"; }
void prop_setup() { ref::keys(); }
namespace {
std::map<str, str> records; // read only while threads run
// The answers of the name server; what is kept in st belongs to one resolver
int answer(res_state st, const char* name, int type, unsigned char* b, int size)
{
	st->id = (unsigned short)(st->id + 1); int e = 0; str r; unsigned char h[HFIXEDSZ] = {0}; h[2] = 0x81; h[3] = 0x80;
	auto it = records.find(ref::lower(name)); if (it == records.end() || type != T_TXT) e = HOST_NOT_FOUND;
	if (e) { st->res_h_errno = e; h_errno = e; return -1; }
	h[7] = 1; r.assign((char*)h, sizeof h); str d; for (size_t i = 0; i < it->second.size() || !i; i += 200) { str p = it->second.substr(i, 200); d += (char)p.size(); d += p; }
	r += '\0'; r += '\0'; r += (char)T_TXT; r += '\0'; r += (char)C_IN; r += str(4, '\0'); r += (char)(d.size() >> 8); r += (char)(d.size() & 255); r += d;
	int n = (int)r.size(); for (int i = 0; i < n && i < size; ++i) b[i] = (unsigned char)r[(size_t)i]; return n;
}
}
extern "C" {
__attribute__((visibility("default"))) int res_ninit(res_state st) { st->nscount = 1; st->id = 1; st->options |= RES_INIT; return 0; }
__attribute__((visibility("default"))) int __res_ninit(res_state st) { return res_ninit(st); }
__attribute__((visibility("default"))) void res_nclose(res_state st) { st->id = 0; }
__attribute__((visibility("default"))) void __res_nclose(res_state st) { res_nclose(st); }
__attribute__((visibility("default"))) void res_ndestroy(res_state st) { res_nclose(st); }
__attribute__((visibility("default"))) int res_nquery(res_state st, const char* n, int, int t, unsigned char* b, int l) { return answer(st, n, t, b, l); }
__attribute__((visibility("default"))) int __res_nquery(res_state st, const char* n, int, int t, unsigned char* b, int l) { return answer(st, n, t, b, l); }
__attribute__((visibility("default"))) int res_query(const char* n, int, int t, unsigned char* b, int l) { return answer(&_res, n, t, b, l); }
__attribute__((visibility("default"))) int __res_query(const char* n, int, int t, unsigned char* b, int l) { return answer(&_res, n, t, b, l); }
__attribute__((visibility("default"))) int res_nsearch(res_state st, const char* n, int, int t, unsigned char* b, int l) { return answer(st, n, t, b, l); }
__attribute__((visibility("default"))) int __res_nsearch(res_state st, const char* n, int, int t, unsigned char* b, int l) { return answer(st, n, t, b, l); }
}
namespace {
struct Job { int kind; str name; std::function<str()> f; int pause; };
using lib::list; using lib::dump; using lib::text;
str verify_all(const str& raw, bool arc, const std::vector<lib::Dns>& dns, bool resolver)
{
	str r; std::istringstream in(raw); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); size_t n = v.GetSignatures().size();
	for (size_t k = 0; k < n; ++k)
	{
		DKIM::Signature sg; DKIM::PublicKey pk; lib::Out o;
		if (resolver)
		{
			auto it = v.GetSignatures().begin(); std::advance(it, (long)k);
			o = lib::guard(1, [&] { v.GetSignature(it, sg); }); if (o.pass()) o = lib::guard(2, [&] { v.GetPublicKey(sg, pk); }); if (o.pass()) o = lib::guard(3, [&] { v.CheckSignature(it, sg, pk); });
		}
		else { lib::Dns d; if (k < dns.size()) d = dns[k]; else d.state = 1; o = lib::verify_nth(v, k, d, &sg, &pk); }
		r += text(o) + "\n"; if (o.pass() || o.stage > 1) r += dump(sg) + "\n"; if (o.pass() || o.stage > 2) r += dump(pk) + "\n";
	}
	return r;
}
str guarded(const std::function<str()>& f) { str r; lib::Out o = lib::guard(0, [&] { r = f(); }); return o.pass() ? r : text(o); }
str canon(const str& d, bool rel, const strs& heads)
{
	str r; DKIM::Conversion::CanonicalizationHeader h(rel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); for (auto& x : heads) r += h.FilterHeader(x) + "\n";
std::istringstream in(d); bool ok = DKIM::Conversion::CanonicalizationBody(in, rel ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, 0, false, 0, [&](const char* p, size_t n) { r.append(p, n); }); r += fmt(" %d", ok); return r;
}
Job job(Src& s, int kind, long long now)
{
	Job j; j.kind = kind; j.pause = (int)s.below(4);
	switch (kind)
	{
		case 0: case 1:
		{
			gen::Message m = gen::message(s); if (m.body.size() > 6000) m.body.resize(6000); gen::Cfg g = gen::cfg(s, m, true, now); for (auto& q : g.sigs) if (q.key == 8) q.key = 4; str raw = m.raw(); j.name = "sign " + g.text() + " " + raw;
			j.f = [raw, g] { return guarded([&] { std::istringstream in(raw); DKIM::SignatoryOptions o; g.apply(o); DKIM::Signatory y(in); str a = y.CreateSignature(o); return a + y.CreateSignature(o); }); };
		} break;
		case 2: case 3: case 4:
		{
			gen::Message m = gen::message(s); if (m.body.size() > 6000) m.body.resize(6000); m.headers.erase(std::remove_if(m.headers.begin(), m.headers.end(), [](const str& h) { str n = gen::name_of(h); return n == "dkim-signature" || n == "arc-message-signature"; }), m.headers.end());
			bool arc = s.chance(1, 4), resolver = kind == 4; size_t nt = 1 + s.below(3); std::vector<lib::Dns> dns;
			for (size_t k = 0; k < nt; ++k)
			{
				gen::ThirdParty t = gen::third_party(s, m, now); if (t.key == 8) t.key = 4; t.arc = arc; t.d = fmt("t%zu.example", (size_t)s.below(1000)); t.has_i = false; if (s.chance(1, 5)) { static const char* D[] = {"a", "h", "bh", "v", "c", "d"}; t.drop.push_back(D[s.below(6)]); }
				str h = gen::ref_sign(s, m, t); if (h.empty()) continue; lib::Dns d; d.rec = gen::key_record(s, ref::keys()[s.below(8) ? t.key : s.below(8)]); dns.insert(dns.begin(), d); if (s.below(6)) records[ref::lower(t.sel + "._domainkey." + t.d)] = d.rec; m.headers.insert(m.headers.begin(), h);
			}
			if (s.chance(1, 3)) gen::tamper(s, m, arc); str raw = m.raw(); j.name = str(resolver ? "verify by resolver " : "verify ") + raw;
			j.f = [=] { return guarded([&] { return verify_all(raw, arc, dns, resolver); }); };
		} break;
		case 5: { str rec = gen::key_record(s, ref::keys()[s.below(13)]); if (s.chance(1, 4) && !rec.empty()) rec[s.below(rec.size())] = (char)s.below(256); j.name = "key " + rec; j.f = [rec] { return guarded([&] { DKIM::PublicKey k; k.Parse(rec); return dump(k); }); }; } break;
		case 6:
		{
			str in; switch (s.below(4)) { case 0: in = s.str("abcXYZ=?_ \r\n\"<>@,;()\\", 0, 40); break; case 1: in = "=?utf-8?Q?a=41_b?= =?x?B?QUFB?=" + s.bytes(6); break; case 2: in = "\"a, b\" <c@d>, e@f, (g) h"; break; default: in = s.bytes(60); }
			j.name = "decode " + in;
			j.f = [in] { str r; r += guarded([&] { return DKIM::Conversion::Base64_Decode(in); }) + "\n"; r += guarded([&] { return DKIM::Conversion::Base64_Encode(in); }) + "\n"; r += guarded([&] { return DKIM::Conversion::QuotedPrintable::Decode(in); }) + "\n"; r += guarded([&] { return DKIM::Conversion::QuotedPrintable::Encode(in); }) + "\n"; r += guarded([&] { return DKIM::Conversion::EncodedWord::Decode(in); }) + "\n"; r += guarded([&] { return list(DKIM::Tokenizer::ParseAddressList(in)); }) + "\n"; r += guarded([&] { return list(DKIM::Tokenizer::ValueList(in)); }); return r; };
		} break;
		case 7: { str b = gen::body(s); if (b.size() > 5000) b.resize(5000); bool rel = s.coin(); strs h; size_t n = s.below(4); for (size_t i = 0; i < n; ++i) h.push_back(gen::hname(s) + ":" + gen::hvalue(s)); j.name = "canonicalize " + b; j.f = [=] { return guarded([&] { return canon(b, rel, h); }); }; } break;
		default:
		{
			// keys as text and as RSA objects of the thread's own, identities, option errors
			size_t k = s.below(8), a = s.below(6); str dom = s.below(3) ? gen::domain(s) : s.str("ab.-_ ", 0, 8); j.name = fmt("options %zu %zu ", k, a) + dom;
			j.f = [=] { str r; DKIM::SignatoryOptions o; r += guarded([&] { gen::set_key(o, ref::keys()[k]); return str("key"); }); r += guarded([&] { o.SetDomain(dom); return o.GetDomain(); }); r += guarded([&] { o.SetSelector(dom); return o.GetSelector(); }); r += guarded([&] { o.SetHeaders({"a", "B"}).AddHeaders({"From"}).DelHeaders({"a"}); return list(o.GetHeaders()); }); r += guarded([&] { o.SetPrivateKey(a % 2 ? "-----BEGIN x" : ""); return str("key"); }); r += guarded([&] { DKIM::Util::Resolver z; str x; bool ok = z.GetTXT("s._domainkey." + dom, x); return fmt("%d ", ok) + x; }); return r; };
		}
	}
	return j;
}
struct Report { char msg[6000]; };
Report* report;
// in a process of its own: the library has not been used in it before
void child(const std::vector<std::vector<Job>>& T, size_t)
{
	size_t n = T.size(); std::vector<strs> got(n); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, (unsigned)n); std::vector<std::thread> th;
	for (size_t t = 0; t < n; ++t) th.emplace_back([&, t] {
		pthread_barrier_wait(&bar);
		for (auto& j : T[t]) { switch (j.pause) { case 1: sched_yield(); break; case 2: usleep(30); break; case 3: for (volatile int i = 0; i < 2000; ++i) {} break; } try { got[t].push_back(j.f()); } catch (std::exception& e) { got[t].push_back(str("foreign exception ") + e.what()); } }
	});
	for (auto& x : th) x.join();
	for (size_t t = 0; t < n; ++t) for (size_t i = 0; i < T[t].size(); ++i)
	{
		str w; try { w = T[t][i].f(); } catch (std::exception& e) { w = str("foreign exception ") + e.what(); }
		if (w != got[t][i]) { snprintf(report->msg, sizeof report->msg, "thread %zu, call %zu (%s): %s\nalone: %s", t, i, printable(T[t][i].name, 300).c_str(), printable(got[t][i], 2000).c_str(), printable(w, 2000).c_str()); _exit(77); }
	}
	_exit(0);
}
}
void prop_run(Src& s, Ctx& c)
{
	if (!report) report = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	long long now = 1600000000 + (long long)s.below(100000000); pbt::fake_now = now; records.clear();
	size_t nt = 2 + s.below(4); std::vector<std::vector<Job>> T(nt); int mode = (int)s.below(3); size_t n = 1 + s.small(7); str all; std::map<int, std::set<size_t>> who;
	for (size_t i = 0; i < n; ++i)
	{
		int kind = (int)s.below(9); Job same; if (mode == 0) same = job(s, kind, now);
		for (size_t t = 0; t < nt; ++t) { if (mode == 2) kind = (int)s.below(9); T[t].push_back(mode == 0 ? same : job(s, kind, now)); T[t].back().pause = (int)s.below(4); who[kind].insert(t); all += fmt("%zu: ", t) + T[t].back().name + "\n"; }
	}
	for (size_t t = 0; t < nt; ++t) { str h; for (auto& j : T[t]) h += printable(j.name, 160) + "\n"; c.note(fmt("thread %zu", t), h); }
	report->msg[0] = 0; fflush(nullptr);
	pid_t p = fork(); if (p == 0) child(T, 0);
	REQUIRE(p > 0, "fork"); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) fail(str("another result than alone: ") + report->msg);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 66) fail("data race reported by the thread sanitizer");
	REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, fmt("the process ended with status %d", st));
	for (auto& w : who) if (w.second.size() > 1) { c.nontrivial(all); static const char* K[] = {"sign", "sign", "verify", "verify", "resolve", "key", "decode", "canonicalize", "options"}; c.label(str("concurrent ") + K[w.first]); }
}
