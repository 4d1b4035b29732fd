// C27: HTTP field stores and conversions are consistent.
#include "util.hpp"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include <algorithm>
#include <cstring>
#include <map>
using fr::Http;
static std::string lower(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }

// ---- stores ----
static const char *store_name[] = {"header", "query argument", "POST argument"};
struct Model { std::map<std::string, std::string> m[3]; std::string uri = "/", body; int type = (int) Http::RequestType::Unknown, status = 200, version = (int) Http::RequestVersion::V1_1; };
template<class T> static std::string &ref(T &h, int st, const std::string &n) { return st == 0 ? h.header(n) : st == 1 ? h.get(n) : h.post(n); }
template<class T> static bool exists(const T &h, int st, const std::string &n) { return st == 0 ? h.header_exists(n) : st == 1 ? h.get_exists(n) : h.post_exists(n); }

template<class T> static void compare(T &h, const Model &m, const std::vector<std::string> &names, const char *what)
{
    for(int st = 0; st < 3; ++st)
        for(auto &n : names)
        {
            auto it = m.m[st].find(lower(n));
            for(int twice = 0; twice < 2; ++twice)
                MC_CHECK(exists(static_cast<const T &>(h), st, n) == (it != m.m[st].end()), std::string(what) + store_name[st] + " '" + n + "' is said to " + (it == m.m[st].end() ? "exist" : "be missing"));
            if(it != m.m[st].end()) MC_CHECK(ref(h, st, n) == it->second, std::string(what) + store_name[st] + " '" + n + "' is '" + ref(h, st, n) + "' instead of '" + it->second + "'");
        }
    MC_CHECK(h.get_uri() == m.uri, std::string(what) + "the URI is " + h.get_uri() + " instead of " + m.uri);
    MC_CHECK(h.get_body() == m.body && (int) h.get_type() == m.type && (int) h.get_status() == m.status && (int) h.get_version() == m.version, std::string(what) + "body, type, status or version changed");
}
template<class T> static void history(int depth, const std::vector<std::string> &names, bool scalars, bool copies)
{
    T h[2];
    Model m[2];
    int k = (int) names.size();
    for(int i = 0; i < depth; ++i)
    {
        int nops = 3 * k * 2 + (scalars ? 6 : 0) + (copies ? 3 : 0);
        int op = mc::choose(nops, "operation");
        int which = copies ? mc::choose(2, "object") : 0;
        if(op < 6 * k)
        {
            int st = op % 3, read = (op / 3) % 2;
            auto &n = names[(size_t) (op / 6)];
            std::string v = "v" + N(i);
            MC_NOTE(std::string("* ") + (read ? "read " : "set ") + store_name[st] + " '" + n + "'" + (which ? " of the other object" : ""));
            auto &slot = m[which].m[st][lower(n)];
            std::string &r = ref(h[which], st, n);
            MC_CHECK(r == slot, std::string(store_name[st]) + " '" + n + "' is '" + r + "' instead of '" + slot + "'");
            if(!read) { r = v; slot = v; }
        }
        else if((op -= 6 * k) < (scalars ? 6 : 0))
        {
            static const char *uris[] = {"/a", "b", "", "//c", "/d/e.f"};
            MC_NOTE("* scalar " + N(op));
            switch(op)
            {
                case 0: { std::string u = uris[mc::choose(5, "URI")]; h[which].set_uri(u); if(!u.empty()) m[which].uri = u[0] == '/' ? u : "/" + u; break; }
                case 1: h[which].set_body("body" + N(i)); m[which].body = "body" + N(i); break;
                case 2: { int t = mc::choose(5, "type"); h[which].set_type((Http::RequestType) t); m[which].type = t; break; }
                case 3: { int s = i % 2 ? 404 : 599; h[which].set_status((Http::RequestStatus) s); m[which].status = s; break; }
                case 4: h[which].set_version(Http::RequestVersion::V1); m[which].version = 1; break;
                case 5: h[which].construct("host"); break;      // looking at it changes nothing
            }
        }
        else
        {
            op -= scalars ? 6 : 0;
            MC_NOTE("* " + std::string(op == 0 ? "copy" : op == 1 ? "assign" : "move") + " between the objects");
            if(op == 0) { T c(h[which]); h[1 - which] = std::move(c); m[1 - which] = m[which]; }
            else if(op == 1) { h[1 - which] = h[which]; m[1 - which] = m[which]; }
            else { h[1 - which] = std::move(h[which]); m[1 - which] = m[which]; h[which] = T(); m[which] = Model(); }
        }
        compare(h[0], m[0], names, "");
        if(copies) compare(h[1], m[1], names, "the other object's ");
    }
}
// stores filled by the parser are read under any spelling
static void parsed()
{
    static const char *sp[] = {"abc", "ABC", "Abc", "aBc", "x-Y_z", "X-y_Z"};
    std::string a = sp[mc::choose(6, "name sent")], b = sp[mc::choose(6, "name asked for")];
    fr::HttpRequest r;
    std::string t = "POST /u?" + a + "=1 HTTP/1.1\r\n" + a + ": 2\r\nContent-Length: " + N((long long) a.size() + 2) + "\r\n\r\n" + a + "=3";
    MC_CHECK(r.parse(t.data(), t.size()) == Status::Success, "a request isn't parsed");
    bool eq = lower(a) == lower(b);
    MC_CHECK(r.get_exists(b) == eq && r.header_exists(b) == eq && r.post_exists(b) == eq, "a field sent as '" + a + "' is " + (eq ? "missing" : "found") + " as '" + b + "'");
    if(eq) MC_CHECK(r.get(b) == "1" && r.header(b) == "2" && r.post(b) == "3", "a field sent as '" + a + "' has another value as '" + b + "'");
    fr::HttpResponse p;
    t = "HTTP/1.1 200 OK\r\n" + a + ": 2\r\nContent-Length: 0\r\n\r\n";
    MC_CHECK(p.parse(t.data(), t.size()) == Status::Success, "a response isn't parsed");
    MC_CHECK(p.header_exists(b) == eq && (!eq || p.header(b) == "2"), "a header sent as '" + a + "' reads differently as '" + b + "'");
}

// ---- conversions ----
static const char *methods[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
static void method(const std::string &s)
{
    int want = (int) Http::RequestType::Unknown;
    for(int i = 0; i < 5; ++i)
    {
        std::string m = methods[i];
        if(s.compare(0, m.size(), m) == 0) { want = i; break; }
        if(s.size() < m.size() && m.compare(0, s.size(), s) == 0) want = (int) Http::RequestType::Partial;
    }
    int got = (int) Http::string_to_request_type(s);
    if(got != want) mc::fail("'" + mc::printable(s) + "' is converted to request type " + N(got) + " instead of " + N(want));
}
static const char *encodings[] = {"none", "chunked", "compress", "deflate", "gzip", "identity"};
static void encoding(const std::string &s)
{
    int want = 0;
    for(int i = 0; i < 6; ++i) if(lower(s) == encodings[i]) want = i;
    int got = (int) Http::string_to_transfer_encoding(s);
    if(got != want) mc::fail("'" + mc::printable(s) + "' is converted to transfer encoding " + N(got) + " instead of " + N(want));
}
static void over(const std::string &alphabet, int len, void (*f)(const std::string &))
{
    std::string s;
    for(int i = 0; i < len; ++i) { int c = mc::choose((int) alphabet.size() + 1, "character"); if(c == (int) alphabet.size()) break; s += alphabet[(size_t) c]; }
    f(s);
}
static void near_misses()
{
    for(int i = 0; i < 5; ++i)
    {
        std::string m = methods[i];
        MC_CHECK(Http::request_type_to_string((Http::RequestType) i) == m, std::string("the name of ") + m + " is " + Http::request_type_to_string((Http::RequestType) i));
        for(size_t n = 0; n <= m.size(); ++n)
            for(int c = -1; c < 256; ++c)
            {
                std::string s = m.substr(0, n);
                if(c >= 0) s += (char) c;
                method(s); method(s + "x"); method(s + m); method(" " + s); method(s + " "); method(lower(s));
                for(size_t k = 0; k < s.size(); ++k) { auto t = s; t[k] ^= 0x20; method(t); t = s; t.erase(k, 1); method(t); }
            }
    }
    for(auto t : {Http::RequestType::Unknown, Http::RequestType::Partial, Http::RequestType::RequestTypeCount, (Http::RequestType) 8, (Http::RequestType) 1000000})
        MC_CHECK(Http::request_type_to_string(t) == "UNKNOWN", "an unknown request type has the name " + Http::request_type_to_string(t));
    for(int i = 0; i < 6; ++i)
    {
        std::string e = encodings[i];
        for(unsigned m = 0; m < (1u << e.size()); ++m)
        {
            std::string s = e; for(size_t k = 0; k < e.size(); ++k) if(m >> k & 1) s[k] = (char) toupper(s[k]);
            encoding(s);
            if(m < 4) for(int c = 0; c < 256; ++c) { encoding(s + (char) c); encoding((char) c + s); for(size_t k = 0; k < s.size(); ++k) { auto t = s; t[k] = (char) c; encoding(t); } }
            encoding(s.substr(1)); encoding(s.substr(0, s.size() - 1)); encoding(s + "," + s);
        }
    }
}
static void statuses()
{
    static const char *names[] = {"Unknown", "Success", "Listen Failed", "Bind Failed", "The Socket Is Not Connected", "Error", "Would Block", "Connection Failed", "Handshake Failed", "Verification Failed",
        "Max Packet Size Exceeded", "Not Enough Data", "Parse Error", "HTTP Header Too Big", "HTTP Body Too Big", "Address Lookup Failure", "Send Error", "Receive Error", "Accept Error", "SSL Error", "No Route To Host", "Timeout"};
    static const bool detail[] = {0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 0};
    std::vector<int> errs; for(int e = -600; e <= 600; ++e) errs.push_back(e); for(int e : {-2147483647 - 1, 2147483647, -0x7780, -0x2700, -0x6800, 70000}) errs.push_back(e);
    for(int s = -3; s < 40; ++s)
        for(int e : errs)
        {
            errno = e;
            std::string n = fr::Socket::status_to_string((Status) s);
            if(s < 0 || s >= 22) { MC_CHECK(n == "Unknown", "status " + N(s) + " has the name " + n); continue; }
            if(!detail[s]) MC_CHECK(n == names[s], "status " + N(s) + " has the name " + n);
            else MC_CHECK(n.compare(0, strlen(names[s]) + 2, std::string(names[s]) + " (") == 0 && n.back() == ')', "status " + N(s) + " has the name " + n);
        }
}
static void mime()
{
    static const struct { const char *ext, *type; } table[] = {
#include "mime_table.inc"
    };
    std::map<std::string, std::string> t;
    for(auto &x : table) t[x.ext] = x.type;
    static const char *pre[] = {"", "a", "a.b", "/x/y", "..", "x.html", "html", "x.html.bin", "with space", "./", "/etc.d/x"};
    for(auto &x : t)
    {
        for(auto p : pre) { std::string n = std::string(p) + "." + x.first, g = Http::get_mimetype(n); if(g != x.second) mc::fail("'" + n + "' has the type " + g + " instead of " + x.second); }
        std::string g = Http::get_mimetype(x.first);
        if(g != x.second) mc::fail("the extension '" + x.first + "' has the type " + g + " instead of " + x.second);
        // neighbours
        for(int c = 33; c < 127; ++c)
            for(std::string n : {x.first + (char) c, std::string(1, (char) c) + x.first})
            {
                if(c == '.' || c == ',') continue;
                auto it = t.find(n);
                std::string want = it == t.end() ? "application/octet-stream" : it->second;
                if(n == "ccxml" || n == "java") continue;
                for(std::string q : {"f." + n, "." + n}) if(Http::get_mimetype(q) != want) mc::fail("'" + q + "' has the type " + Http::get_mimetype(q) + " instead of " + want);
            }
    }
    for(std::string n : {"", ".", "a.", "..", "x.unknown", "noextension", ".html.", "a.html/", "a.html.xyzq", "jpeg, .jpg", ", .xml"}) if(Http::get_mimetype(n) != (n == "jpeg, .jpg" ? "image/jpeg" : n == ", .xml" ? "application/xml" : "application/octet-stream")) mc::fail("'" + n + "' has the type " + Http::get_mimetype(n));
}
static void mime_any(const std::string &s)
{
    static std::map<std::string, std::string> t;
    if(t.empty()) { static const struct { const char *ext, *type; } table[] = {
#include "mime_table.inc"
    }; for(auto &x : table) t[x.ext] = x.type; }
    auto d = s.rfind('.');
    auto it = t.find(d == std::string::npos ? s : s.substr(d + 1));
    std::string want = it == t.end() ? "application/octet-stream" : it->second;
    if(Http::get_mimetype(s) != want) mc::fail("'" + s + "' has the type " + Http::get_mimetype(s) + " instead of " + want);
}
static std::string upper(std::string s) { for(auto &c : s) if(c >= 'a' && c <= 'z') c = (char) (c - 32); return s; }
// any number of fields; names and values of any length, with any byte
template<class T> static void any_number()
{
    T h;
    std::vector<std::pair<std::string, std::string>> f;
    int dim = mc::choose(4, "what"), n = mc::choose(mc::by_tier(300, 1200), "size") + 1, st = mc::choose(3, "store");
    std::string big((size_t) n, 'x');
    for(size_t i = 0; i < big.size(); ++i) big[i] = (char) ((i % 2 ? 'A' : 'a') + (i * 7 + i / 26) % 26);
    if(dim == 0) for(int i = 0; i < n; ++i) f.push_back({"Key" + N(i), "v" + N(i)});
    if(dim == 1) f = {{"b", "1"}, {big, "2"}, {"zz", "3"}};
    if(dim == 2) f = {{"b", "1"}, {"NaMe", big}, {"zz", "3"}};
    if(dim == 3) { if(n > 255) return; std::string one(1, (char) n); f = {{one + "-x", one}, {"y" + one, one + one}}; if(n >= 'A' && n <= 'z') f.push_back({"q" + one + "Q", one}); }
    bool back = mc::choose(2, "written backwards");
    if(back) std::reverse(f.begin(), f.end());
    for(auto &x : f) ref(h, st, x.first) = x.second;
    T c(h);
    for(T *o : {&h, &c})
        for(auto &x : f)
            for(auto name : {x.first, upper(x.first), lower(x.first)})
            {
                MC_CHECK(exists(*o, st, name), std::string(store_name[st]) + " '" + mc::printable(name) + "' of " + N((long long) f.size()) + " is missing");
                MC_CHECK(ref(*o, st, name) == x.second, std::string(store_name[st]) + " '" + mc::printable(name) + "' of " + N((long long) f.size()) + " is '" + mc::printable(ref(*o, st, name)) + "'");
                for(int other = 0; other < 3; ++other) if(other != st) MC_CHECK(!exists(*o, other, name), "a field of another store appears");
                MC_CHECK(!exists(*o, st, name + "_") && !exists(*o, st, "_" + name), "a name that was not set exists");
            }
    mc::outcome(mc::mix((uint64_t) n, (uint64_t) dim));
}
void mc_register()
{
    mc::add("any-number", 0, any_number<fr::HttpRequest>, 40, 2);
    mc::add("response/any-number", 0, any_number<fr::HttpResponse>, 40, 2);
    const std::vector<std::string> few = {"ab", "AB", "aC"}, many = {"ab", "AB", "Ab", "", "a-B", "content-length", "Content-Length", "\xc4x"};
    mc::add("stores", 0, [=] { history<fr::HttpRequest>(mc::by_tier(3, 4), many, false, false); }, 8, 1);
    mc::add("stores/few", 0, [=] { history<fr::HttpRequest>(mc::by_tier(4, 5), few, false, false); }, 8, 1);
    mc::add("stores/scalars", 0, [=] { history<fr::HttpRequest>(mc::by_tier(3, 4), few, true, false); }, 8, 1);
    mc::add("stores/copies", 0, [=] { history<fr::HttpRequest>(mc::by_tier(3, 4), few, false, true); }, 8, 1);
    mc::add("response/stores", 0, [=] { history<fr::HttpResponse>(mc::by_tier(2, 3), many, true, true); }, 8, 1);
    mc::add("parsed", 0, parsed);
    mc::add("methods", 0, [] { over("GETPOSUDLACHg ", mc::by_tier(5, 6), method); }, 16, 1);
    mc::add("encodings", 0, [] { over("gzipGPnoeNdty,", mc::by_tier(4, 5), encoding); }, 8, 1);
    mc::add("near-misses", 0, near_misses);
    mc::add("statuses", 0, statuses);
    mc::add("mime", 0, mime);
    mc::add("mime/any", 0, [] { over("pngjsc.x/", mc::by_tier(6, 7), mime_any); }, 8, 1);
}
