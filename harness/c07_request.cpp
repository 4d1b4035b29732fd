// C07: the result of parsing a request does not depend on how its bytes arrive.
#include "http_ref.hpp"
using RT = fr::Http::RequestType;

struct Method { const char *name; RT type; };
static const Method METHODS[] = {{"GET", RT::Get}, {"POST", RT::Post}, {"PUT", RT::Put}, {"DELETE", RT::Delete}, {"PATCH", RT::Patch}};
struct Query { const char *text; Fields args; std::set<std::string> maybe; };
static const std::vector<Query> QUERIES = {
    {"", {}, {}}, {"?", {}, {}}, {"?a=1", {{"a", "1"}}, {}}, {"?a=&b=2", {{"a", ""}, {"b", "2"}}, {}}, {"?Name=x%20y+z", {{"name", "x%20y+z"}}, {}},
    {"?a=/HTTP/1.1?&b==", {{"a", "/HTTP/1.1?"}, {"b", "="}}, {}}, {"?flag&x=1", {{"x", "1"}}, {"flag"}}, {"?x=1&flag", {{"x", "1"}}, {"flag"}}, {"?v=HTTP/1.0", {{"v", "HTTP/1.0"}}, {}},
    {"?a=1&b=2&c=3", {{"a", "1"}, {"b", "2"}, {"c", "3"}}, {}}, {"?flag", {}, {"flag"}}, {"?a=1&", {{"a", "1"}}, {}},
};
static const char *PATHS[] = {"/", "/a/b.html", "/HTTP", "/a-_.~!$&'()*+,;=:@%2F", "/x//y", "/HTTP/1.0", "/POST/", "//double", "/.././x", "/\xc3\xa9\xff"};
struct Heads { Fields written, want; };
static const std::vector<Heads> HEADS = {
    {{}, {}},
    {{{"Host:", " example.com"}}, {{"Host", "example.com"}}},
    {{{"Host:", "h"}, {"X-Y:", "   v1 v2"}, {"Accept:", " */*;q=0.5, text/html"}}, {{"Host", "h"}, {"X-Y", "v1 v2"}, {"accept", "*/*;q=0.5, text/html"}}},
    {{{"Empty:", ""}, {"Empty2:", " "}, {"After:", " x"}}, {{"Empty", ""}, {"Empty2", ""}, {"After", "x"}}},
    {{{"Time:", " 12:30:45"}, {"URL:", " http://h:80/?a=b"}}, {{"Time", "12:30:45"}, {"URL", "http://h:80/?a=b"}}},
    {{{"Utf:", " caf\xc3\xa9 \xff"}, {"Tab:", " a\tb"}}, {{"Utf", "caf\xc3\xa9 \xff"}, {"Tab", "a\tb"}}},
    {{{"A:", " GET / HTTP/1.1"}, {"~!#$%&'*+.^_`|b:", " 1"}, {"C:", " =&?"}}, {{"A", "GET / HTTP/1.1"}, {"~!#$%&'*+.^_`|b", "1"}, {"C", "=&?"}}},
};
struct Body { bool declared; std::string data; Fields post; };
static const std::vector<Body> BODIES = {
    {false, "", {}}, {true, "", {}}, {true, "hello", {}}, {true, "x\r\n\r\ny\n\nz", {}}, {true, "\r\n\r\n", {}}, {true, "\nab\n", {}}, {true, std::string("\0\x01\xff\0", 4), {}},
    {true, "a=1&b=2", {{"a", "1"}, {"b", "2"}}}, {true, "a=1&Bc=2\r\n", {{"a", "1"}, {"bc", "2"}}}, {true, "k=%20v+&e=", {{"k", "%20v+"}, {"e", ""}}}, {true, "f&x=1", {{"x", "1"}}},
    {true, "GET / HTTP/1.1\r\nContent-Length: 99\r\n\r\n", {}}, {true, "0123456789", {}},
};
static const char *SURPLUS[] = {"", "X", "\r\n", "GET /next?z=9 HTTP/1.1\r\n\r\n", "&sur=1"};
static const char *CL[] = {"Content-Length: ", "content-length:", "CONTENT-LENGTH:  "};

// eol: 0 CRLF, 1 LF, 2 alternating with a CRLF CRLF end
static Msg build(const Method &me, const std::string &path, const Query &q, bool v10, const Heads &h, int eol, const Body &b, int cl_style, bool cl_first, const char *surplus)
{
    Msg m;
    m.type = me.type; m.uri = path; m.query_text = q.text; m.query = q.args; m.v10 = v10; m.body = b.data;
    std::vector<std::string> lines;
    lines.push_back(std::string(me.name) + " " + path + q.text + (v10 ? " HTTP/1.0" : " HTTP/1.1"));
    std::string cl = CL[cl_style] + std::to_string(b.data.size());
    if(b.declared && cl_first) lines.push_back(cl);
    for(auto &f : h.written) lines.push_back(f.first + f.second);
    if(b.declared && !cl_first) lines.push_back(cl);
    m.headers = h.want;
    if(b.declared) m.headers.push_back({"Content-Length", std::to_string(b.data.size())});
    for(size_t i = 0; i < lines.size(); ++i)
        m.text += lines[i] + (eol == 0 || (eol == 2 && (i % 2 == 1 || i + 1 == lines.size())) ? "\r\n" : "\n");
    m.text += eol == 1 ? "\n" : "\r\n";
    m.text += b.data;
    if(me.type == RT::Post) m.post = b.post;
    if(b.declared) m.surplus = surplus;
    return m;
}
template<typename T> static const T &pick(const std::vector<T> &v, const char *l) { return v[(size_t) mc::choose((int) v.size(), l)]; }

void mc_register()
{
    // request lines
    mc::add("request-line", 0, [] {
        const Method &me = METHODS[mc::choose(5, "method")];
        const char *p = PATHS[mc::choose((int) (sizeof PATHS / sizeof *PATHS), "path")];
        const Query &q = pick(QUERIES, "query");
        bool v10 = mc::choose(2, "version");
        int eol = mc::choose(2, "eol");
        Msg m = build(me, p, q, v10, HEADS[mc::thorough() ? 1 : 0], eol, BODIES[0], 0, false, "");
        segment<fr::HttpRequest>(m, 1, q.maybe);
    }, 35, 2);
    // headers and bodies
    mc::add("headers-and-body", 0, [] {
        const Method &me = METHODS[mc::choose(mc::by_tier(3, 5), "method")];
        const Heads &h = pick(HEADS, "headers");
        const Body &b = pick(BODIES, "body");
        int eol = mc::choose(3, "eol");
        const char *s = b.declared ? SURPLUS[mc::choose(5, "surplus")] : "";
        int style = mc::thorough() && b.declared ? mc::choose(3, "content-length style") : 0;
        bool first = b.declared ? mc::choose(2, "content-length first") : false;
        Msg m = build(me, "/p", QUERIES[2], false, h, eol, b, style, first, s);
        segment<fr::HttpRequest>(m, 1, {"f"});
    }, 36, 2);
    // several cuts
    for(int c = 2; c <= 3; ++c)
        mc::add("cuts/" + N(c), 0, [c] {
            const Method &me = METHODS[mc::choose(2, "method")];
            int eol = mc::choose(3, "eol");
            static const size_t B[] = {0, 2, 3, 4, 5, 7, 8};
            const Body &b = BODIES[B[c == 3 ? 2 + mc::choose(mc::by_tier(1, 3), "body") : mc::choose(7, "body")]];
            const char *s = b.declared ? SURPLUS[mc::choose(2, "surplus") * 3] : "";
            Msg m = build(me, "/", QUERIES[c == 3 ? 0 : 2], false, HEADS[c == 3 ? 0 : 4], eol, b, 1, false, s);
            if(c == 3 && !mc::thorough()) { m = build(me, "/", QUERIES[0], true, HEADS[0], eol, b, 1, false, s); }
            segment<fr::HttpRequest>(m, c);
        }, 42, 3);
    // a long body and long header fields in pieces
    mc::add("similar", 0, [] {
        auto &s = SIMILAR[mc::choose((int) (sizeof SIMILAR / sizeof *SIMILAR), "header")];
        Heads h{{{std::string(s[0]) + ":", std::string(" ") + s[1]}}, {{s[0], s[1]}}};
        const Body &b = BODIES[(size_t) mc::choose(4, "body")];
        bool first = mc::choose(2, "before the length");
        segment<fr::HttpRequest>(build(METHODS[mc::choose(2, "method")], "/", QUERIES[0], false, h, mc::choose(3, "eol"), b, 0, !first, SURPLUS[1]), 1);
    }, 24, 1);
    mc::add("malformed", 0, [] {
        static const struct { std::string text; Status want; } BAD[] = {
            {"XET / HTTP/1.1\r\n\r\n", Status::ParseError}, {"HTTP/1.1 200 OK\r\n\r\n", Status::ParseError}, {" GET / HTTP/1.1\r\n\r\n", Status::ParseError}, {"GXT / HTTP/1.1\n\n", Status::ParseError}, {"POSU / HTTP/1.1\r\n\r\n", Status::ParseError},
            {"\x16\x03\x01\x02\r\n\r\n", Status::ParseError}, {std::string("\0GET / HTTP/1.1\r\n\r\n", 19), Status::ParseError}, {"OPTIONZ / HTTP/1.1\r\n\r\n", Status::ParseError}, {"DELETF / HTTP/1.1\r\n\r\n", Status::ParseError},
            {"GET HTTP/1.1\r\n\r\n", Status::ParseError}, {"GET index.html\r\n\r\n", Status::ParseError}, {"GET /\r\n\r\n", Status::ParseError}, {"GET \r\n\r\n", Status::ParseError}, {"GET HTTP /\r\n\r\n", Status::ParseError},
            {"GET / HTTP/1.1\r\nContent-Length: x\r\n\r\nabc", Status::ParseError}, {"POST / HTTP/1.1\r\nContent-Length:\r\n\r\na=b", Status::ParseError}, {"PUT / HTTP/1.1\nContent-Length: 99999999999999999999999\n\nabc", Status::ParseError},
        };
        int which = mc::choose(2, "kind");
        if(which)
        {
            // methods that resemble the known ones: extended, shortened, changed in one place, joined
            static const char *K[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
            static std::vector<std::string> all;
            if(all.empty())
            {
                std::set<std::string> s;
                for(std::string k : K)
                {
                    for(size_t i = 0; i <= k.size(); ++i)
                        for(char c : std::string("SXsET1-/_\t"))
                        {
                            s.insert(k.substr(0, i) + c + k.substr(i));
                            if(i < k.size()) { s.insert(k.substr(0, i) + c + k.substr(i + 1)); s.insert(k.substr(0, i) + k.substr(i + 1)); s.insert(k.substr(0, i) + (char) tolower(k[i]) + k.substr(i + 1)); }
                        }
                    for(std::string o : K) s.insert(k + o);
                }
                for(auto k : K) s.erase(k);
                all.assign(s.begin(), s.end());
            }
            refused<fr::HttpRequest>(all[(size_t) mc::choose((int) all.size(), "method")] + " / HTTP/1.1\r\nContent-Length: 0\r\n\r\n", Status::ParseError, 1);
            return;
        }
        auto &b = BAD[mc::choose((int) (sizeof BAD / sizeof *BAD), "message")];
        refused<fr::HttpRequest>(b.text, b.want, mc::choose(3, "cuts") + 1);
    }, 17, 2);
    mc::add("beyond", 0, [] { beyond_length<fr::HttpRequest>(mc::choose(2, "method") ? "PUT /x HTTP/1.1" : "GET / HTTP/1.0", false); }, 8, 2);
    mc::add("numbers", 0, [] { numeric_length<fr::HttpRequest>(mc::choose(2, "method") ? "PUT /x HTTP/1.1" : "GET / HTTP/1.0", mc::by_tier(3, 5)); }, 8, 2);
    mc::add("large", 0, [] {
        static const size_t S[] = {1, 100, 4096, 16384, 70000};
        static const int P[] = {1, 2, 3, 7, 1000, 4096, 4097};
        size_t n = S[mc::choose(5, "body size")];
        Body b{true, pattern(n, 3), {}};
        Heads h{{{"Long:", " " + std::string(3000, 'q')}}, {{"Long", std::string(3000, 'q')}}};
        Msg m = build(METHODS[2], "/p", QUERIES[2], false, h, mc::choose(2, "eol"), b, 0, mc::choose(2, "first"), "surplus");
        int p = P[mc::choose(7, "piece")];
        if(p < 1000 && n > 5000) mc::abandon();
        std::vector<size_t> cuts;
        for(size_t i = (size_t) p; i < m.text.size(); i += (size_t) p) cuts.push_back(i);
        feed<fr::HttpRequest>(m, cuts, false);
    }, 4, 1);
    mc::add("every-size", 0, [] {
        int dim = mc::choose(7, "dimension");
        int n = mc::choose(mc::by_tier(600, 1500), "size") + 1;
        Query q{"", {}, {}};
        Heads h;
        Body b{true, "body", {}};
        std::string path = "/p", qt;
        int me = 2;
        if(dim == 0) b.data = pattern((size_t) n - 1, 5);
        else if(dim == 1) { h.written = {{"First:", " 1"}, {plain((size_t) n) + ":", " value"}, {"Last:", " 2"}}; h.want = {{"First", "1"}, {plain((size_t) n), "value"}, {"Last", "2"}}; }
        else if(dim == 2) { h.written = {{"First:", " 1"}, {"Name:", " " + plain((size_t) n)}, {"Last:", " 2"}}; h.want = {{"First", "1"}, {"Name", plain((size_t) n)}, {"Last", "2"}}; }
        else if(dim == 3) { path = "/" + plain((size_t) n); qt = "?a=1"; q.args = {{"a", "1"}}; }
        else if(dim == 4) { qt = "?x=1&" + plain((size_t) n) + "=v&z=2"; q.args = {{"x", "1"}, {plain((size_t) n), "v"}, {"z", "2"}}; if(n == 1) mc::abandon(); }
        else if(dim == 5) { qt = "?x=1&name=" + plain((size_t) n) + "&z=2"; q.args = {{"x", "1"}, {"name", plain((size_t) n)}, {"z", "2"}}; }
        else { me = 1; b.data = "x=1&name=" + plain((size_t) n) + "&z=2"; b.post = {{"x", "1"}, {"name", plain((size_t) n)}, {"z", "2"}}; }
        q.text = qt.c_str();
        pieces<fr::HttpRequest>(build(METHODS[me], path, q, false, h, mc::choose(2, "eol"), b, 0, mc::choose(2, "first"), ""));
    }, 70, 2);
    mc::add("every-count", 0, [] {
        // any number of headers, query arguments or POST arguments
        int dim = mc::choose(3, "what");
        int n = mc::choose(mc::by_tier(140, 400) + 22, "how many");
        n = n < 22 ? COUNTS[n] : n - 22;
        Query q{"", {}, {}};
        Heads h;
        Body b{true, "body", {}};
        std::string text;
        Fields want;
        for(int i = 0; i < n; ++i) { text += (i ? "&" : "") + ("k" + std::to_string(i)) + "=" + std::to_string(i * 7); want.push_back({"k" + std::to_string(i), std::to_string(i * 7)}); }
        if(dim == 0) { for(auto &f : want) h.written.push_back({f.first + ":", " " + f.second}); h.want = want; }
        if(dim == 1) { text = "?" + text; q.text = text.c_str(); q.args = want; }
        if(dim == 2) { b.data = text; b.post = want; }
        pieces<fr::HttpRequest>(build(METHODS[dim == 2 ? 1 : 3], "/p", q, false, h, mc::choose(2, "eol"), b, 0, mc::choose(2, "first"), ""));
    }, 16, 2);
}
