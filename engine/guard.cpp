// OpenSSL and libsodium are not instrumented, so they would read past the end
// of a buffer handed to them without anyone noticing. These stand-ins look at
// the whole buffer in instrumented code first and then call the real function.
#include <dlfcn.h>
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <cstddef>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define GUARD_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define GUARD_ASAN 1
#endif
#ifdef GUARD_ASAN
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);
// reading the first octet that is out of bounds makes AddressSanitizer report it
static void in(const void* p, size_t n) { if (p && n) if (volatile const char* q = (const char*)__asan_region_is_poisoned((void*)p, n)) (void)*q; }
static void out(void* p, size_t n) { if (p && n) if (volatile char* q = (char*)__asan_region_is_poisoned(p, n)) *q = 0; }
#else
static void in(const void*, size_t) {}
static void out(void*, size_t) {}
#endif
#define VIS __attribute__((visibility("default")))
template <class F> static F next(F, const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(f) static auto real = next(&f, #f)
extern "C" {
int crypto_sign_verify_detached(const unsigned char*, const unsigned char*, unsigned long long, const unsigned char*);
int crypto_sign_detached(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
int crypto_sign_seed_keypair(unsigned char*, unsigned char*, const unsigned char*);
VIS int crypto_sign_verify_detached(const unsigned char* sig, const unsigned char* m, unsigned long long n, const unsigned char* pk) { REAL(crypto_sign_verify_detached); in(sig, 64); in(m, n); in(pk, 32); return real(sig, m, n, pk); }
VIS int crypto_sign_detached(unsigned char* sig, unsigned long long* sn, const unsigned char* m, unsigned long long n, const unsigned char* sk) { REAL(crypto_sign_detached); out(sig, 64); in(m, n); in(sk, 64); return real(sig, sn, m, n, sk); }
VIS int crypto_sign_seed_keypair(unsigned char* pk, unsigned char* sk, const unsigned char* seed) { REAL(crypto_sign_seed_keypair); out(pk, 32); out(sk, 64); in(seed, 32); return real(pk, sk, seed); }
VIS int EVP_DigestUpdate(EVP_MD_CTX* c, const void* p, size_t n) { REAL(EVP_DigestUpdate); in(p, n); return real(c, p, n); }
VIS int BIO_write(BIO* b, const void* p, int n) { REAL(BIO_write); if (n > 0) in(p, (size_t)n); return real(b, p, n); }
VIS BIO* BIO_new_mem_buf(const void* p, int n) { REAL(BIO_new_mem_buf); if (n > 0) in(p, (size_t)n); return real(p, n); }
VIS int RSA_verify(int t, const unsigned char* m, unsigned int mn, const unsigned char* sig, unsigned int sn, RSA* r) { REAL(RSA_verify); in(m, mn); in(sig, sn); return real(t, m, mn, sig, sn, r); }
VIS int RSA_sign(int t, const unsigned char* m, unsigned int mn, unsigned char* sig, unsigned int* sn, RSA* r) { REAL(RSA_sign); in(m, mn); if (r) out(sig, (size_t)RSA_size(r)); return real(t, m, mn, sig, sn, r); }
VIS EVP_PKEY* d2i_PUBKEY(EVP_PKEY** a, const unsigned char** pp, long n) { REAL(d2i_PUBKEY); if (pp && n > 0) in(*pp, (size_t)n); return real(a, pp, n); }
VIS RSA* d2i_RSAPrivateKey(RSA** a, const unsigned char** pp, long n) { REAL(d2i_RSAPrivateKey); if (pp && n > 0) in(*pp, (size_t)n); return real(a, pp, n); }
}
