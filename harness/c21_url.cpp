// C21: URLs are split and rebuilt correctly.
#include <set>
#include "mc.hpp"
#include "frnetlib/URL.h"
#include <cstring>
using fr::URL;
static std::string N(long long v) { return std::to_string(v); }

struct Parts { int scheme = URL::Unknown; std::string host, port, path, query, fragment; };
static const char *scheme_name(int s)
{
    switch(s) { case URL::HTTP: return "http"; case URL::HTTPS: return "https"; case URL::FTP: return "ftp"; case URL::MAILTO: return "mailto"; case URL::IRC: return "irc"; case URL::SFTP: return "sftp"; default: return "unknown"; }
}
static std::string well_known(int s)
{
    switch(s) { case URL::HTTP: return "80"; case URL::HTTPS: return "443"; case URL::FTP: return "21"; case URL::IRC: return "6697"; case URL::SFTP: return "22"; default: return ""; }
}
static std::string show(const Parts &p) { return "[" + std::string(scheme_name(p.scheme)) + "|" + p.host + "|" + p.port + "|" + p.path + "|" + p.query + "|" + p.fragment + "]"; }
static Parts read(const URL &u) { return {u.get_scheme(), u.get_host(), u.get_port(), u.get_path(), u.get_query(), u.get_fragment()}; }
static bool same(const Parts &a, const Parts &b) { return a.scheme == b.scheme && a.host == b.host && a.port == b.port && a.path == b.path && a.query == b.query && a.fragment == b.fragment; }

// a URL object with a past
static URL used(int how)
{
    switch(how)
    {
        case 1: { URL u("ftp://old.host:2121/old/path?old=query#oldfrag"); return u; }
        case 2: { URL u; u.set_scheme(URL::IRC); u.set_host("other"); u.set_port("9"); u.set_path("/x"); u.set_query("y"); u.set_fragment("z"); return u; }
        default: { URL u; return u; }
    }
}
static void check(const std::string &text, const Parts &want, bool bare_host)
{
    for(int how = 0; how < 3; ++how)
    {
        Parts got;
        try { URL u = how == 0 ? URL(text) : used(how); if(how) u.parse(text); got = read(u); }
        catch(const std::exception &x) { mc::fail("parsing '" + text + "' throws: " + x.what()); }
        if(!same(got, want)) mc::fail("'" + mc::printable(text) + "'" + (how ? " parsed into a used object" : "") + " is split into " + show(got) + " instead of " + show(want));
    }
    URL u(text);
    std::string uri = want.path + (want.query.empty() ? "" : "?" + want.query) + (want.fragment.empty() ? "" : "#" + want.fragment);
    if(u.get_uri() != uri) mc::fail("the URI of '" + text + "' is '" + u.get_uri() + "' instead of '" + uri + "'");
    // rebuilt from the parsed components and from components set one by one
    URL v = used(2);
    v.set_scheme((URL::Scheme) want.scheme); v.set_host(want.host); v.set_port(want.port); v.set_path(want.path); v.set_query(want.query); v.set_fragment(want.fragment);
    if(!(u == v) || !(v == u)) mc::fail("the components of '" + text + "' compare unequal to themselves");
    if(u.get_url() != v.get_url()) mc::fail("'" + mc::printable(text) + "' is rebuilt as '" + u.get_url() + "', its components as '" + v.get_url() + "'");
    // without a scheme, port, path, query or fragment a host can't be told from a path
    if(bare_host) return;
    std::string re = u.get_url();
    Parts again = read(URL(re));
    if(!same(again, want)) mc::fail("'" + mc::printable(text) + "' is rebuilt as '" + re + "', which is split into " + show(again) + " instead of " + show(want));
}

// text: scheme text or "" ; everything else null if absent
static void combo(const char *sch, int scheme, const std::string &host, const char *port, const char *path, const char *query, const char *frag)
{
    std::string t;
    Parts w;
    w.scheme = scheme;
    if(sch) t += std::string(sch) + "://";
    t += host; w.host = host;
    if(port) { t += std::string(":") + port; w.port = port; }
    if(w.port.empty()) w.port = well_known(scheme);
    if(path) { t += path; w.path = path; }
    if(query) { t += std::string("?") + query; w.query = query; }
    if(frag) { t += std::string("#") + frag; w.fragment = frag; }
    if(!sch && !port && !path && !query && !frag && !host.empty()) return;       // "word" is a path by design
    if(!sch && port && !*port && path && !strncmp(path, "//", 2)) return;        // "h://" is a scheme
    check(t, w, w.scheme == URL::Unknown && w.port.empty() && w.path.empty() && w.query.empty() && w.fragment.empty());
}
struct Sch { const char *text; int value; };
static const std::vector<Sch> schemes = {{nullptr, URL::Unknown}, {"http", URL::HTTP}, {"https", URL::HTTPS}, {"ftp", URL::FTP}, {"sftp", URL::SFTP}, {"irc", URL::IRC}, {"mailto", URL::MAILTO}, {"unknown", URL::Unknown},
    {"HTTP", URL::HTTP}, {"Https", URL::HTTPS}, {"sFTP", URL::SFTP}, {"FTP", URL::FTP}, {"gopher", URL::Unknown}, {"svn+ssh", URL::Unknown}, {"h", URL::Unknown}, {"httpss", URL::Unknown}, {"ws", URL::Unknown}};
static const std::vector<const char *> hosts = {"h", "example.com", "127.0.0.1", "a-b.c_d.co.uk", "H", "localhost", "http", "1"};
static const std::vector<const char *> ports = {nullptr, "8080", "1", "65535", "80", "", "0", "00443", "70000"};
static const std::vector<const char *> paths = {nullptr, "/", "/a", "/a/b.c", "/a/", "//", "//a", "/a//b", "/a:b", "/:", "/://", "/http://x:1", "/@;=,!$'()*+~", "/%20%3F", "/a:80/b", "/a&b=c", "/\xc3\xa4"};
static const std::vector<const char *> queries = {nullptr, "", "q", "a=b&c=d", "u=http://x:1/y?z", "/", "?", "a:b", "a=/b/c", "://", "a?b?c", "%20+", ":80", "//x"};
static const std::vector<const char *> frags = {nullptr, "", "f", "a?b", "a/b", "a:b", "://x", "?", "/", "http://x:1/y?z", "a&b=c", ":80"};

static void combos()
{
    auto &s = schemes[(size_t) mc::choose((int) schemes.size(), "scheme")];
    auto h = hosts[(size_t) mc::choose((int) hosts.size(), "host")];
    bool few = !mc::thorough() && std::string(h) != "h" && std::string(h) != "example.com";
    for(auto po : ports) if(!few || po != ports[2]) for(auto pa : paths) for(auto q : queries) for(auto f : frags) if(!few || (pa == paths[0] || pa == paths[1] || pa == paths[8]) || (q == queries[0] && f == frags[0])) combo(s.text, s.value, h, po, pa, q, f);
}
// schemes that resemble the known ones: shortened, extended, changed in one place, joined
static void neighbours()
{
    static const std::vector<std::string> K = {"http", "https", "ftp", "sftp", "irc", "mailto", "unknown"};
    const std::string &k = K[(size_t) mc::choose((int) K.size(), "known scheme")];
    int rest = mc::choose(8, "components");
    std::set<std::string> all;
    for(size_t i = 0; i <= k.size(); ++i)
    {
        if(i && i < k.size()) { all.insert(k.substr(0, i)); all.insert(k.substr(i)); }
        for(char c : std::string("aszhHSZ019+-."))
        {
            all.insert(k.substr(0, i) + c + k.substr(i));
            if(i < k.size()) all.insert(k.substr(0, i) + c + k.substr(i + 1));
        }
        if(i < k.size()) { std::string u = k; u[i] = (char) toupper(u[i]); all.insert(u); all.insert(k.substr(0, i) + k.substr(i + 1)); }
    }
    for(auto &o : K) for(std::string sep : {"", "+", "-", "."}) { all.insert(k + sep + o); all.insert(k + sep + "x"); all.insert("x" + sep + k); }
    for(auto &s : all)
    {
        if(s.empty() || !isalpha((unsigned char) s[0])) continue;
        std::string l = s; for(auto &c : l) c = (char) tolower(c);
        int v = URL::Unknown;
        for(auto &x : schemes) if(x.text && l == x.text) v = x.value;
        combo(s.c_str(), v, "h.x", rest & 1 ? "81" : nullptr, rest & 2 ? "/p:/" : nullptr, rest & 4 ? "q" : nullptr, nullptr);
    }
}
static std::string nth(uint64_t i, const std::string &alphabet)
{
    // enumeration of all strings by length: 0 -> "", ...
    std::string r;
    while(i) { --i; r += alphabet[i % alphabet.size()]; i /= alphabet.size(); }
    return r;
}
static uint64_t upto(size_t a, int len) { uint64_t n = 0, p = 1; for(int i = 0; i <= len; ++i) { n += p; p *= a; } return n; }

// every string over the characters legal in one component
static void component(int which, int len)
{
    const std::string al = which == 0 ? "a/:@." : which == 1 ? "a/:?=&" : which == 2 ? "a/:?=@" : "a1.-_";
    int ctx = mc::choose(24, "context");
    const char *sch = ctx % 3 == 0 ? nullptr : ctx % 3 == 1 ? "http" : "svn"; int sv = ctx % 3 == 1 ? URL::HTTP : URL::Unknown;
    const char *port = (ctx / 3) % 2 ? "81" : nullptr;
    int rest = ctx / 6;            // presence of the two other components
    for(uint64_t i = 0, n = upto(al.size(), len); i < n; ++i)
    {
        std::string v = nth(i, al);
        std::string p = "/" + v;
        if(which == 0) combo(sch, sv, "h.x", port, p.c_str(), rest & 1 ? "q:/?" : nullptr, rest & 2 ? "f:/?" : nullptr);
        else if(which == 1) combo(sch, sv, "h.x", port, rest & 1 ? "/p:/" : nullptr, v.c_str(), rest & 2 ? "f:/?" : nullptr);
        else if(which == 2) combo(sch, sv, "h.x", port, rest & 1 ? "/p:/" : nullptr, rest & 2 ? "q:/?" : nullptr, v.c_str());
        else if(!v.empty()) combo(sch, sv, v, port, rest & 1 ? "/p:/" : nullptr, rest & 2 ? "q:/?" : nullptr, nullptr);
    }
}
// only a URI
static void uris(int len)
{
    int c = mc::choose(4, "components");
    for(uint64_t i = 0, n = upto(4, len); i < n; ++i)
    {
        std::string v = nth(i, "a/:.");
        if(v.substr(0, 1) == "/" ) {}
        std::string p = "/" + v;
        std::string t = p + (c & 1 ? "?q=1:/?" : "") + (c & 2 ? "#f:/?" : "");
        Parts w; w.path = p; if(c & 1) w.query = "q=1:/?"; if(c & 2) w.fragment = "f:/?";
        check(t, w, false);
    }
    if(c) { std::string t = std::string(c & 1 ? "?q=1:/?" : "") + (c & 2 ? "#f:/?" : ""); Parts w; if(c & 1) w.query = "q=1:/?"; if(c & 2) w.fragment = "f:/?"; check(t, w, false); }
    for(std::string word : {"bob", "b", "bob.html", "http", "a-b_c"}) { Parts w; w.path = "/" + word; if(!c) check(word, w, false); }
}

// any text at all: no failure, and an independent reading of those which are URLs
static bool is_host(const std::string &s) { if(s.empty()) return false; for(char c : s) if(!isalnum((unsigned char) c) && c != '.' && c != '-' && c != '_') return false; return true; }
static bool legal(const std::string &t, Parts &w, bool &bare)
{
    std::string s = t;
    bool sch = false, port = false, path = false, q = false, f = false;
    size_t h = s.find('#');
    if(h != std::string::npos) { w.fragment = s.substr(h + 1); s.resize(h); f = true; if(w.fragment.find('#') != std::string::npos) return false; }
    h = s.find('?');
    if(h != std::string::npos) { w.query = s.substr(h + 1); s.resize(h); q = true; }
    for(size_t i = 0; i + 2 < s.size() && (isalnum((unsigned char) s[i]) || strchr(":+-.", s[i])); ++i)
        if(s.compare(i, 3, "://") == 0)
        {
            if(i == 0 || !isalpha((unsigned char) s[0])) return false;
            std::string n = s.substr(0, i); for(auto &c : n) c = (char) tolower(c);
            for(auto &x : schemes) if(x.text && n == x.text) w.scheme = x.value;
            s = s.substr(i + 3); sch = true; break;
        }
        else if(s[i] == ':') break;
    h = s.find('/');
    if(h != std::string::npos) { w.path = s.substr(h); s.resize(h); path = true; }
    h = s.find(':');
    if(h != std::string::npos) { w.port = s.substr(h + 1); s.resize(h); port = true; for(char c : w.port) if(!isdigit((unsigned char) c)) return false; }
    if(s.empty()) { if(sch || port) return false; bare = false; return path || q || f; }
    if(!is_host(s)) return false;
    w.host = s;
    if(!sch && !port && !path && !q && !f) { w.path = "/" + w.host; w.host.clear(); bare = false; return true; }
    if(w.port.empty()) w.port = well_known(w.scheme);
    bare = w.scheme == URL::Unknown && w.port.empty() && w.path.empty() && w.query.empty() && w.fragment.empty();
    return true;
}
static void any(const std::vector<std::string> &tok, int len)
{
    std::string t;
    for(int i = 0; i < len; ++i)
    {
        int c = mc::choose((int) tok.size() + 1, "token");
        if(c == (int) tok.size()) break;
        t += tok[(size_t) c];
    }
    Parts w; bool bare = false;
    if(legal(t, w, bare)) { check(t, w, bare); return; }
    for(int how = 0; how < 2; ++how)
    {
        try
        {
            URL u = used(how);
            u.parse(t);
            Parts a = read(u);
            u.get_url(); u.get_uri();
            if(how == 0) continue;
            URL v(t);
            if(!(u == v)) mc::fail("'" + mc::printable(t) + "' is split into " + show(a) + " by a used object and into " + show(read(v)) + " by a fresh one");
        }
        catch(const std::exception &x) { mc::fail("'" + mc::printable(t) + "' throws: " + x.what()); }
    }
}
static void tables()
{
    for(int s = 0; s <= URL::Unknown; ++s)
    {
        if(URL::scheme_to_string((URL::Scheme) s) != scheme_name(s)) mc::fail(std::string("the name of scheme ") + scheme_name(s) + " is " + URL::scheme_to_string((URL::Scheme) s));
        std::string n = scheme_name(s);
        for(unsigned m = 0; m < (1u << n.size()); ++m)
        {
            std::string x = n; for(size_t i = 0; i < n.size(); ++i) if(m >> i & 1) x[i] = (char) toupper(x[i]);
            if(URL::string_to_scheme(x) != s) mc::fail("'" + x + "' isn't recognised as a scheme");
            for(std::string y : {x + "x", "x" + x, x.substr(1), x.substr(0, x.size() - 1), x + ":", " " + x})
            {
                int want = URL::Unknown; std::string l = y; for(auto &c : l) c = (char) tolower(c);
                for(int k = 0; k < URL::Unknown; ++k) if(l == scheme_name(k)) want = k;
                if(URL::string_to_scheme(y) != want) mc::fail("'" + y + "' is taken for another scheme");
            }
        }
    }
    // equality is about every component
    Parts base{URL::HTTP, "h", "1", "/p", "q", "f"};
    URL a; a.set_scheme(URL::HTTP); a.set_host("h"); a.set_port("1"); a.set_path("/p"); a.set_query("q"); a.set_fragment("f");
    for(int i = 0; i < 6; ++i)
    {
        URL b = a;
        if(!(a == b)) mc::fail("a copy is different");
        if(i == 0) b.set_scheme(URL::FTP); if(i == 1) b.set_host("H"); if(i == 2) b.set_port("2"); if(i == 3) b.set_path("/P"); if(i == 4) b.set_query("Q"); if(i == 5) b.set_fragment("F");
        if(a == b || b == a) mc::fail("URLs which differ in component " + N(i) + " compare equal");
    }
    URL d1, d2("");
    if(!(d1 == d2) || d1.get_scheme() != URL::Unknown) mc::fail("a fresh URL isn't empty");
}
// components of any length
static void lengths()
{
    static const int BIG[] = {255, 256, 257, 1023, 1024, 1025, 2048, 4096, 8192, 65535, 65536, 70000};
    int dim = mc::choose(7, "component"), rest = mc::choose(16, "others");
    for(int i = 0; i < mc::by_tier(420, 1500) + 12; ++i)
    {
        size_t n = i < 12 ? (size_t) BIG[i] : (size_t) i - 11;
        std::string v; while(v.size() < n) v += (char) ('a' + (v.size() * 7 + v.size() / 26) % 26);
        std::string x = dim == 5 ? std::string(n, '8') : dim == 2 || dim == 6 ? "/" + v : v;
        const char *sch = rest & 1 ? "http" : nullptr;
        int sv = rest & 1 ? URL::HTTP : URL::Unknown;
        const char *port = rest & 2 ? "81" : nullptr, *q = rest & 4 ? "q:/?" : nullptr, *f = rest & 8 ? "f:/?" : nullptr;
        if(dim == 0) { if(v == "ftp" || v == "irc") continue; combo(v.c_str(), URL::Unknown, "h.x", port, "/p:/", q, f); }
        if(dim == 1) combo(sch, sv, v, port, rest & 4 ? "/p:/" : nullptr, q, f);
        if(dim == 2) combo(sch, sv, "h.x", port, x.c_str(), q, f);
        if(dim == 3) combo(sch, sv, "h.x", port, rest & 4 ? "/p:/" : nullptr, x.c_str(), f);
        if(dim == 4) combo(sch, sv, "h.x", port, rest & 4 ? "/p:/" : nullptr, q, x.c_str());
        if(dim == 5) combo(sch, sv, "h.x", x.c_str(), rest & 2 ? "/p:/" : nullptr, q, f);
        if(dim == 6) { Parts w; w.path = x; std::string t = x; if(q) { w.query = q; t += std::string("?") + q; } if(f) { w.fragment = f; t += std::string("#") + f; } check(t, w, false); }
    }
}
void mc_register()
{
    mc::add("lengths", 0, lengths, 28, 2);
    mc::add("schemes", 0, neighbours, 7, 1);
    mc::add("combinations", 0, combos, 8, 2);
    for(int w = 0; w < 4; ++w) mc::add("component" + N(w), 0, [=] { component(w, mc::by_tier(5, 6)); }, 4, 1);
    mc::add("uris", 0, [=] { uris(mc::by_tier(6, 8)); });
    mc::add("text", 0, [=] { any({"h", "1", ":", "/", "?", "#"}, mc::by_tier(7, 8)); }, 8, 2);
    mc::add("tokens", 0, [=] { any({"http", "ftp", "://", "h", ":", "80", "/", "?", "#", "@", "[", "%", std::string(1, '\0'), "\xff", " "}, mc::by_tier(4, 5)); }, 8, 2);
    mc::add("tables", 0, tables);
}
