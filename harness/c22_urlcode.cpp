// C22: URL encoding is lossless and safe, decoding is total.
#include "mc.hpp"
#include "frnetlib/Http.h"
#include "frnetlib/HttpRequest.h"
#include <cstring>
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string decode(const std::string &s)
{
    std::string r;
    for(size_t i = 0; i < s.size(); ++i)
    {
        if(s[i] == '%' && i + 2 < s.size() && hexval(s[i + 1]) >= 0 && hexval(s[i + 2]) >= 0) { r += (char) (hexval(s[i + 1]) * 16 + hexval(s[i + 2])); i += 2; }
        else r += s[i] == '+' ? ' ' : s[i];
    }
    return r;
}
static void check(const std::string &s)
{
    std::string e;
    try { e = fr::Http::url_encode(s); } catch(const std::exception &x) { mc::fail("encoding '" + mc::printable(s) + "' throws"); }
    for(size_t i = 0; i < e.size(); ++i)
    {
        unsigned char c = (unsigned char) e[i];
        bool safe = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("-_.!~*'()+$,;:@/", c));
        if(c == '%') { if(i + 2 >= e.size() || hexval(e[i + 1]) < 0 || hexval(e[i + 2]) < 0) mc::fail("'" + mc::printable(s) + "' is encoded as '" + mc::printable(e) + "', which has an incomplete escape"); }
        else if(!safe) mc::fail("'" + mc::printable(s) + "' is encoded as '" + mc::printable(e) + "', which isn't safe in a query");
    }
    try
    {
        std::string back = fr::Http::url_decode(e);
        if(back != s) mc::fail("'" + mc::printable(s) + "' is encoded as '" + mc::printable(e) + "', which is decoded as '" + mc::printable(back) + "'");
        // lower case escapes mean the same
        std::string low = e;
        for(size_t i = 0; i < low.size(); ++i) if(low[i] == '%') { low[i + 1] = (char) tolower(low[i + 1]); low[i + 2] = (char) tolower(low[i + 2]); }
        if(fr::Http::url_decode(low) != s) mc::fail("'" + mc::printable(low) + "' is decoded as '" + mc::printable(fr::Http::url_decode(low)) + "'");
        std::string d = fr::Http::url_decode(s), w = decode(s);
        if(d != w) mc::fail("'" + mc::printable(s) + "' is decoded as '" + mc::printable(d) + "' instead of '" + mc::printable(w) + "'");
    }
    catch(const mc::Violation &) { throw; }
    catch(const std::exception &x) { mc::fail("decoding '" + mc::printable(s) + "' throws: " + x.what()); }
}
static void over(const std::vector<std::string> &tok, int len)
{
    std::string s;
    for(int i = 0; i < len; ++i) { int c = mc::choose((int) tok.size() + 1, "character"); if(c == (int) tok.size()) break; s += tok[(size_t) c]; }
    check(s);
}
// one argument through a request line and back
static void argument(const std::string &v)
{
    fr::HttpRequest a, b;
    a.set_type(fr::Http::RequestType::Get); a.set_uri("/x");
    a.get("k") = fr::Http::url_encode(v);
    std::string t = a.construct("h");
    if(b.parse(t.data(), t.size()) != fr::Socket::Status::Success) mc::fail("a request with argument '" + mc::printable(v) + "' isn't parsed: " + mc::printable(t));
    if(fr::Http::url_decode(b.get("k")) != v) mc::fail("argument '" + mc::printable(v) + "' arrives as '" + mc::printable(b.get("k")) + "'");
}
void mc_register()
{
    mc::add("bytes1", 0, [] { check(""); for(int a = 0; a < 256; ++a) check(std::string(1, (char) a)); });
    mc::add("bytes2", 0, [] { int a = mc::choose(256, "first byte"); for(int b = 0; b < 256; ++b) check(std::string(1, (char) a) + (char) b); }, 4, 1);
    mc::add("escapes", 0, [] { int a = mc::choose(256, "first digit"); for(int b = 0; b < 256; ++b) for(std::string pre : {"", "x", "%", "%4"}) for(std::string post : {"", "x", "1", "%", "%41"}) check(pre + "%" + (char) a + (char) b + post); }, 8, 1);
    if(mc::thorough()) mc::add("bytes3", 0, [] { int a = mc::choose(256, "first byte"); for(int b = 0; b < 256; ++b) for(int c = 0; c < 256; ++c) check(std::string(1, (char) a) + (char) b + (char) c); }, 16, 1);
    mc::add("alphabet", 0, [] { over({"%", "+", "0", "9", "a", "A", "f", "F", "g", "G", "/", ":", "@", "`", "&", "=", " ", "\x80", "\xff", std::string(1, 0)}, mc::by_tier(4, 5)); }, 16, 2);
    mc::add("percent", 0, [] { over({"%", "+", "2", "a", "F", "x"}, mc::by_tier(7, 8)); }, 8, 2);
    mc::add("long", 0, [] { for(size_t n = 0; n < 600; ++n) for(std::string f : {"%", "+", "a", " ", "\xff", "%4", "%41"}) { std::string s; while(s.size() < n) s += f; check(s); } });
    mc::add("arguments", 0, [] { int a = mc::choose(256, "first byte"); for(int b = 0; b < 256; ++b) argument(std::string(1, (char) a) + (char) b); }, 8, 1);
}
