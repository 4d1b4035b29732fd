// Independent SHA-1 (FIPS 180-4) and Base64 (RFC 4648).
#pragma once
#include <cstdint>
#include <string>
namespace ref
{
    inline std::string sha1(const std::string &in)
    {
        std::string m = in;
        m += (char) 0x80;
        while(m.size() % 64 != 56) m += (char) 0;
        uint64_t bits = (uint64_t) in.size() * 8;
        for(int i = 7; i >= 0; --i) m += (char) (bits >> (8 * i));
        uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
        auto rot = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
        for(size_t o = 0; o < m.size(); o += 64)
        {
            uint32_t w[80];
            for(int t = 0; t < 16; ++t) { w[t] = 0; for(int k = 0; k < 4; ++k) w[t] = w[t] << 8 | (unsigned char) m[o + (size_t) (4 * t + k)]; }
            for(int t = 16; t < 80; ++t) w[t] = rot(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
            uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
            for(int t = 0; t < 80; ++t)
            {
                uint32_t f = t < 20 ? ((b & c) | (~b & d)) : t < 40 ? (b ^ c ^ d) : t < 60 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
                uint32_t k = t < 20 ? 0x5A827999u : t < 40 ? 0x6ED9EBA1u : t < 60 ? 0x8F1BBCDCu : 0xCA62C1D6u;
                uint32_t x = rot(a, 5) + f + e + k + w[t];
                e = d; d = c; c = rot(b, 30); b = a; a = x;
            }
            h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
        }
        std::string o;
        for(int i = 0; i < 5; ++i) for(int k = 3; k >= 0; --k) o += (char) (h[i] >> (8 * k));
        return o;
    }
    inline std::string base64(const std::string &in)
    {
        static const char *abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        std::string o;
        uint32_t acc = 0; int bits = 0;
        for(unsigned char c : in)
        {
            acc = acc << 8 | c; bits += 8;
            while(bits >= 6) { bits -= 6; o += abc[(acc >> bits) & 63]; }
        }
        if(bits) o += abc[(acc << (6 - bits)) & 63];
        while(o.size() % 4) o += '=';
        return o;
    }
    inline std::string accept(const std::string &key) { return base64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
}
