// C23: Base64 and SHA-1 are correct for every input length.
#include "util.hpp"
#include "crypto_ref.hpp"
#include "frnetlib/Base64.h"
#include "frnetlib/Sha1.h"
#include <mbedtls/base64.h>
#include <mbedtls/sha1.h>
static void b64(const std::string &s)
{
    std::string e, w = ref::base64(s);
    try { e = fr::Base64::encode(s); } catch(const std::exception &x) { mc::fail("encoding '" + mc::printable(s) + "' throws: " + x.what()); }
    if(e != w) mc::fail("'" + mc::printable(s) + "' (" + N((long long) s.size()) + " bytes) is encoded as '" + mc::printable(e) + "' instead of '" + mc::printable(w) + "'");
}
static void sha(const std::string &s)
{
    std::string d = fr::Sha1::sha1_digest(s), w = ref::sha1(s);
    if(d != w) mc::fail("the digest of '" + mc::printable(s) + "' (" + N((long long) s.size()) + " bytes) is " + mc::printable(d) + " instead of " + mc::printable(w));
}
static void both(const std::string &s) { b64(s); sha(s); }
static std::string fill(size_t n, int how) { return how == 0 ? std::string(n, '\0') : how == 1 ? std::string(n, '\xff') : how == 2 ? std::string(n, 'a') : how == 3 ? std::string(n, '\x80') : pattern(n, (unsigned) how); }
void mc_register()
{
#ifdef HUGE_ONLY
    // lengths which take more than 32 bits to count in bits
    mc::add("huge", 0, [] { mc::alloc_refuse = (size_t) 8 << 30; size_t n = ((size_t) 1 << 29) + (size_t) mc::choose(mc::by_tier(1, 3), "size") * 59; std::string s(n, 'h'); for(size_t i = 0; i < n; i += 4093) s[i] = (char) (i >> 3); sha(s); });
    return;
#endif
    mc::add("known", 0, [] {
        if(ref::base64("foobar") != "Zm9vYmFy" || ref::base64("fooba") != "Zm9vYmE=" || ref::base64("foob") != "Zm9vYg==") mc::fail("the reference encoder is wrong");
        static const unsigned char abc[] = {0xa9, 0x99, 0x3e, 0x36, 0x47, 0x06, 0x81, 0x6a, 0xba, 0x3e, 0x25, 0x71, 0x78, 0x50, 0xc2, 0x6c, 0x9c, 0xd0, 0xd8, 0x9d};
        if(ref::sha1("abc") != std::string((const char *) abc, 20)) mc::fail("the reference digest is wrong");
        if(ref::accept("dGhlIHNhbXBsZSBub25jZQ==") != "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") mc::fail("the reference handshake answer is wrong");   // RFC 6455 1.3
        // an implementation from elsewhere agrees with the reference
        for(size_t n = 0; n <= 300; ++n)
        {
            std::string s = fill(n, 6); unsigned char d[20], e[512]; size_t el = 0;
            if(mbedtls_sha1_ret((const unsigned char *) s.data(), n, d) || std::string((const char *) d, 20) != ref::sha1(s)) mc::fail("the reference digest differs from that of mbedtls");
            if(mbedtls_base64_encode(e, sizeof e, &el, (const unsigned char *) s.data(), n) || std::string((const char *) e, el) != ref::base64(s)) mc::fail("the reference encoder differs from that of mbedtls");
        }
        both(""); both("abc"); both("foobar");
    });
    mc::add("bytes1", 0, [] { for(int a = 0; a < 256; ++a) both(std::string(1, (char) a)); });
    mc::add("bytes2", 0, [] { int a = mc::choose(256, "first byte"); for(int b = 0; b < 256; ++b) both(std::string(1, (char) a) + (char) b); }, 8, 1);
    mc::add("bytes3", 0, [] {
        // every value of one byte next to every value of the others around the borders of the six bit groups
        static const int edge[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 48, 63, 64, 65, 127, 128, 129, 191, 192, 193, 240, 252, 254, 255};
        int a = mc::choose(256, "byte");
        for(int x : edge) for(int y : edge) for(int p = 0; p < 3; ++p) { std::string s = {(char) x, (char) y}; s.insert((size_t) p, 1, (char) a); b64(s); b64(s + "q"); b64(s + "qr"); b64("xyz" + s); }
    }, 8, 1);
    if(mc::thorough()) mc::add("all3", 0, [] { int a = mc::choose(256, "first byte"); for(int b = 0; b < 256; ++b) for(int c = 0; c < 256; ++c) b64(std::string(1, (char) a) + (char) b + (char) c); }, 16, 1);
    mc::add("lengths", 0, [] { int how = mc::choose(8, "filling"); for(size_t n = 0; n <= (size_t) mc::by_tier(700, 4200); ++n) both(fill(n, how)); }, 8, 1);
    mc::add("single-bits", 0, [] {
        // one differing bit anywhere, around every block border
        static const size_t ns[] = {1, 2, 3, 54, 55, 56, 57, 59, 60, 61, 63, 64, 65, 119, 120, 121, 127, 128, 129};
        size_t n = ns[mc::choose(19, "length")];
        for(int how : {0, 1, 4}) for(size_t bit = 0; bit < n * 8; ++bit) { std::string s = fill(n, how); s[bit / 8] ^= (char) (1 << bit % 8); both(s); }
    }, 4, 1);
    mc::add("history", 0, [] {
        // whatever was computed before
        static const size_t ns[] = {0, 1, 2, 3, 55, 56, 63, 64, 65, 119, 120, 128, 200};
        int depth = mc::by_tier(3, 4);
        for(int i = 0; i < depth; ++i) both(fill(ns[mc::choose(13, "length")], 4 + i));
    }, 4, 1);
    mc::add("large", 0, [] { for(size_t n : {65535, 65536, 1000000, 16777216 + 55, 16777216 + 56}) both(fill(n, 5)); });
}
