// C10: a request assembled through the API parses back to the same request.
#include "http_strict.hpp"
using RT = fr::Http::RequestType;

static const Fields ARGS = {{"a", "1"}, {"Bee", ""}, {"x-y_z.~", "p%20q+r"}, {"u", "/HTTP/1.1?x"}, {"eq", "a=b=="}, {"GET", "HTTP"}, {"long", std::string(70, 'v')}};
static const Fields HDRS = {{"X-One", "v"}, {"My Header", "never"}, {"EMPTY", ""}, {"Accept", "text/html; q=0.5, */*"}, {"Host", "user.example:8080"}, {"CONNECTION", "close"}, {"uri", "http://h/?a:b"}, {"u8", "caf\xc3\xa9\t!"}, {"Content-Type", "application/x-www-form-urlencoded"}};
static const std::vector<std::string> BODIES = {"", "hello", std::string("\0\xff\r\n\r\n\n\nGET / HTTP/1.1\r\n\r\n", 26), "\r\n\r\n", "a=b", std::string(300, 'z')};
static const char *URIS[] = {"/", "/a/b.html", "nofirst/slash", "", "/HTTP/1.0", "/%20~!*'();:@&=+$,/", "/x//y", "/a.b:80/", "//", "//double", "/./../a", "./b", ".", "a:b"};
static const char *NAMES[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};

static void upto(const Fields &from, int max, Fields &out, const char *what, std::set<size_t> skip = {})
{
    size_t i = 0;
    for(int k = 0; k < max; ++k)
    {
        int c = mc::choose((int) (from.size() - i) + 1, what);
        if(c == 0) return;
        i += (size_t) c;
        if(skip.count(i - 1)) mc::abandon();
        out.push_back(from[i - 1]);
        if(i == from.size()) return;
    }
}
struct Want { int type = -1; std::string uri = "/"; Fields args, post, headers; std::string body; bool v10 = false; bool own_length = false; std::string host = "peer.example"; };

static void assemble(fr::HttpRequest &r, const Want &w, int spelling)
{
    auto sp = [&](const std::string &s) { return spelling == 0 ? s : spelling == 1 ? upper(s) : lower(s); };
    if(w.type >= 0) r.set_type((RT) w.type);
    if(spelling == 1) r.set_uri("/old/uri");
    r.set_uri(w.uri);
    for(auto &a : w.args) { if(spelling) r.get(a.first) = "overwritten"; r.get(sp(a.first)) = a.second; }
    for(auto &a : w.headers) { if(spelling) r.header(a.first) = "overwritten"; r.header(sp(a.first)) = a.second; }
    for(auto &a : w.post) { if(spelling) r.post(a.first) = "overwritten"; r.post(sp(a.first)) = a.second; }
    if(spelling) r.set_body("something else that is replaced");
    r.set_body(w.body);
    if(w.v10) r.set_version(fr::Http::RequestVersion::V1); else if(spelling == 1) r.set_version(fr::Http::RequestVersion::V1_1);
    if(w.own_length) r.header("Content-Length") = std::to_string(w.body.size());
}
static void check(const Want &w, int spelling, bool all_cuts)
{
    fr::HttpRequest r;
    assemble(r, w, spelling);
    const std::string host = w.host;
    std::string t = r.construct(host);
    MC_CHECK(r.construct(host) == t, "constructing twice gives different texts");
    if(spelling == 2) { fr::HttpRequest copy(r); MC_CHECK(copy.construct(host).size() == t.size(), "a copy constructs another text"); }
    Strict s = strict(t, true, 0);
    // request line
    std::string uri = w.uri.empty() ? (spelling == 1 ? "/old/uri" : "/") : w.uri[0] == '/' ? w.uri : "/" + w.uri;
    std::string method = NAMES[w.type < 0 ? 0 : w.type];
    size_t sp1 = s.line.find(' '), sp2 = s.line.rfind(' ');
    MC_CHECK(sp1 != std::string::npos && sp2 > sp1 && s.line.find(' ', sp1 + 1) == sp2, "malformed request line " + mc::printable(s.line));
    MC_CHECK(s.line.substr(0, sp1) == method, "method " + mc::printable(s.line));
    MC_CHECK(s.line.substr(sp2 + 1) == (w.v10 ? "HTTP/1.0" : "HTTP/1.1"), "version " + mc::printable(s.line));
    std::string target = s.line.substr(sp1 + 1, sp2 - sp1 - 1);
    std::string path = target.substr(0, target.find('?')), query = target.find('?') == std::string::npos ? "" : target.substr(target.find('?') + 1);
    MC_CHECK(path == uri, "URI " + mc::printable(path) + " instead of " + uri);
    auto split = [](const std::string &q) { Fields f; size_t p = 0; while(p < q.size()) { size_t e = q.find('&', p); if(e == std::string::npos) e = q.size(); std::string x = q.substr(p, e - p); f.push_back({lower(x.substr(0, x.find('='))), x.find('=') == std::string::npos ? "<none>" : x.substr(x.find('=') + 1)}); p = e + 1; } return f; };
    auto same_set = [](Fields a, Fields b) { for(auto &x : b) x.first = lower(x.first); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; };
    MC_CHECK(query.empty() || query.back() != '&', "query ends with '&': " + mc::printable(query));
    MC_CHECK(same_set(split(query), w.args), "query arguments in the text differ: " + mc::printable(query));
    // headers
    bool has_host = false, has_conn = false;
    for(auto &h : w.headers)
    {
        const std::string *v = field(s, h.first);
        MC_CHECK(v && *v == h.second, "header " + h.first + " was " + (v ? "changed to " + mc::printable(*v) : "dropped"));
        has_host |= lower(h.first) == "host"; has_conn |= lower(h.first) == "connection";
    }
    MC_CHECK(field(s, "host") && (has_host || *field(s, "host") == host), "Host header missing or wrong");
    MC_CHECK(field(s, "connection"), "Connection header missing");
    for(auto &f : s.fields)
    {
        bool known = f.first == "host" || f.first == "connection" || f.first == "content-length";
        for(auto &h : w.headers) known |= lower(h.first) == f.first;
        MC_CHECK(known, "unexpected header " + mc::printable(f.first));
    }
    // body
    if(w.post.empty()) MC_CHECK(s.body == w.body, "the body in the text differs");
    else
    {
        std::string b = s.body;
        while(!b.empty() && (b.back() == '\r' || b.back() == '\n')) b.pop_back();
        MC_CHECK(b.empty() || b.back() != '&', "POST arguments end with '&': " + mc::printable(b));
        MC_CHECK(same_set(split(b), w.post), "POST arguments in the text differ: " + mc::printable(b));
    }
    Msg m;
    m.text = t; m.type = (RT) (w.type < 0 ? 0 : w.type); m.uri = uri; m.query_text = query; m.query = w.args; m.v10 = w.v10; m.headers = w.headers; m.body = s.body; m.post = w.post;
    if(m.type == RT::Post && w.post.empty()) m.type = RT::Post;
    reparse<fr::HttpRequest>(m, all_cuts);
}

void mc_register()
{
    mc::add("line", 0, [] {
        Want w;
        w.type = mc::choose(6, "type") - 1;
        w.uri = URIS[mc::choose((int) (sizeof URIS / sizeof *URIS), "uri")];
        upto(ARGS, mc::by_tier(2, 4), w.args, "query argument");
        w.v10 = mc::choose(2, "version");
        check(w, mc::choose(mc::by_tier(2, 3), "spelling"), w.args.size() <= 1 || mc::thorough());
    }, 48, 2);
    mc::add("headers", 0, [] {
        Want w;
        w.type = mc::choose(2, "type");
        upto(HDRS, mc::by_tier(3, 5), w.headers, "header", {1});
        w.body = mc::choose(2, "body") ? "hello" : "";
        w.own_length = mc::choose(2, "own content-length");
        static const char *const HOSTS[] = {"peer.example", "", "10.0.0.1:8080", "PEER.example", "[::1]:80"};
        if(w.headers.size() <= 1) w.host = HOSTS[mc::choose(5, "host")];
        check(w, mc::choose(3, "spelling"), w.headers.size() <= 2);
    }, 20, 2);
    mc::add("post", 0, [] {
        Want w;
        w.type = 1;
        upto(ARGS, mc::by_tier(3, 5), w.post, "POST argument");
        if(w.post.empty()) mc::abandon();
        if(mc::choose(2, "query too")) w.args = {{"q", "1"}, {"a", "other"}};
        if(mc::choose(2, "headers too")) w.headers = {{"Content-Type", "application/x-www-form-urlencoded"}, {"Host", "h"}};
        check(w, mc::choose(2, "spelling"), true);
    }, 8, 1);
    mc::add("body", 0, [] {
        Want w;
        w.type = mc::choose(6, "type") - 1;
        w.body = BODIES[(size_t) mc::choose((int) BODIES.size(), "body")];
        w.v10 = mc::choose(2, "version");
        w.own_length = mc::choose(2, "own content-length");
        upto(HDRS, 1, w.headers, "header", {1});
        upto(ARGS, 1, w.args, "query argument");
        if(w.type == 1 && w.body == "a=b") mc::abandon();   // on the wire this is a POST argument
        check(w, mc::choose(2, "spelling"), w.headers.empty() || w.args.empty());
    }, 36, 2);
    mc::add("every-size", 0, [] {
        Want w;
        int dim = mc::choose(8, "dimension");
        size_t n = (size_t) mc::choose(mc::by_tier(600, 2000), "size") + 1;
        if(dim == 0) { w.type = 2; w.body = pattern(n - 1, 5); w.own_length = mc::choose(2, "own content-length"); }
        if(dim == 1) w.uri = "/" + plain(n);
        if(dim == 2) w.args = {{"zz1", "1"}, {plain(n), "v"}, {"zz2", "2"}};
        if(dim == 3) w.args = {{"zz1", "1"}, {"name", plain(n)}, {"zz2", "2"}};
        if(dim == 4) w.headers = {{"zz1", "1"}, {plain(n), "v"}, {"zz2", "2"}};
        if(dim == 5) w.headers = {{"zz1", "1"}, {"Name", plain(n)}, {"zz2", "2"}};
        if(dim == 6) { w.type = 1; w.post = {{"zz1", "1"}, {plain(n), "v"}, {"zz2", "2"}}; }
        if(dim == 7) { w.type = 1; w.post = {{"zz1", "1"}, {"name", plain(n)}, {"zz2", "2"}}; }
        check(w, mc::choose(2, "spelling"), false);
    }, 80, 2);
    mc::add("every-count", 0, [] {
        Want w;
        int dim = mc::choose(3, "what");
        int n = mc::choose(mc::by_tier(120, 400) + 22, "how many");
        n = n < 22 ? COUNTS[n] : n - 22;
        Fields f;
        for(int i = 0; i < n; ++i) f.push_back({"k" + std::to_string(i), std::to_string(i * 7)});
        (dim == 0 ? w.headers : dim == 1 ? w.args : w.post) = f;
        w.type = dim == 2 ? 1 : 0;
        check(w, mc::choose(2, "spelling"), false);
    }, 16, 2);
    mc::add("large", 0, [] {
        static const size_t S[] = {4096, 9999, 10000, 10001, 16384, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 1048576};
        Want w;
        w.type = 2;
        w.body = pattern(S[mc::choose(13, "body size")], 3);
        check(w, mc::choose(2, "spelling"), false);
    }, 13, 1);
}
