// C08: the result of parsing a response does not depend on how its bytes arrive.
#include "http_ref.hpp"

struct Line { const char *text; int status; bool v10; };
static const std::vector<Line> LINES = {
    {"HTTP/1.1 200 OK", 200, false}, {"HTTP/1.0 404 Not Found", 404, true}, {"HTTP/1.1 301", 301, false}, {"HTTP/1.1 418 ", 418, false}, {"HTTP/1.1 500 a 200 HTTP/1.0 b", 500, false}, {"HTTP/1.0 599 x", 599, true}, {"HTTP/1.1 226 HTTP", 226, false},
};
struct Heads { Fields written, want; };
static const std::vector<Heads> HEADS = {
    {{}, {}},
    {{{"Server:", " nginx/1.10.2"}, {"Date:", "Mon, 25 Sep 2017 13:51:56 GMT"}}, {{"Server", "nginx/1.10.2"}, {"Date", "Mon, 25 Sep 2017 13:51:56 GMT"}}},
    {{{"Empty:", ""}, {"Utf:", "   \xc3\xa9\t\xff"}, {"Location:", " https://h/?a=b:c"}}, {{"Empty", ""}, {"Utf", "\xc3\xa9\t\xff"}, {"Location", "https://h/?a=b:c"}}},
};
static const std::vector<std::string> BODIES = {"", "x", "hello", "x\r\n\r\ny\n\nz", "\r\n\r\n", "\n\n\n", std::string("\0\x01\xff\0", 4), "HTTP/1.1 200 OK\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "0123456789abcdef"};
static const char *SURPLUS[] = {"", "X", "\r\n", "HTTP/1.1 200 OK\r\n\r\n", "0\r\n\r\n"};

// eol as in C07
static std::string head(const Line &l, const std::vector<std::string> &fields, int eol)
{
    std::vector<std::string> lines{l.text};
    for(auto &f : fields) lines.push_back(f);
    std::string t;
    for(size_t i = 0; i < lines.size(); ++i)
        t += lines[i] + (eol == 0 || (eol == 2 && (i % 2 == 1 || i + 1 == lines.size())) ? "\r\n" : "\n");
    return t + (eol == 1 ? "\n" : "\r\n");
}
static Msg declared(const Line &l, const Heads &h, int eol, const std::string &body, const char *cl, bool first, const char *surplus)
{
    Msg m; m.status = l.status; m.v10 = l.v10; m.body = body; m.headers = h.want; m.surplus = surplus;
    std::vector<std::string> f;
    std::string c = cl + std::to_string(body.size());
    if(first) f.push_back(c);
    for(auto &x : h.written) f.push_back(x.first + x.second);
    if(!first) f.push_back(c);
    m.headers.push_back({"content-length", std::to_string(body.size())});
    m.text = head(l, f, eol) + body;
    return m;
}
// chunk style: 0 plain hex, 1 upper case hex, 2 leading zeros, 3 extension, 4 extension with a quoted string
static std::string chunk(const std::string &data, int style)
{
    char b[40];
    snprintf(b, sizeof b, style == 1 ? "%zX" : style == 2 ? "00%zx" : "%zx", data.size());
    std::string s = b;
    if(style == 3) s += ";name=value";
    if(style == 4) s += ";n=\"ff\"";
    return s + "\r\n" + data + "\r\n";
}
static Msg chunked(const Line &l, const Heads &h, int eol, const std::vector<std::string> &chunks, int style, int trailer, const char *te, const char *surplus, bool with_cl = false)
{
    Msg m; m.status = l.status; m.v10 = l.v10; m.headers = h.want; m.surplus = surplus;
    std::vector<std::string> f;
    if(with_cl) f.push_back("Content-Length: 3");
    for(auto &x : h.written) f.push_back(x.first + x.second);
    f.push_back(te);
    m.text = head(l, f, eol);
    for(auto &c : chunks) { m.body += c; m.text += chunk(c, style); }
    m.text += style == 2 ? "000\r\n" : style == 3 ? "0;x=y\r\n" : "0\r\n";
    static const char *T[] = {"", "Trail: er\r\n", "T1: a\r\nT2: 5\r\n", "0: 0\r\n"};
    m.text += T[trailer];
    m.text += "\r\n";
    return m;
}
template<typename T> static const T &pick(const std::vector<T> &v, const char *l) { return v[(size_t) mc::choose((int) v.size(), l)]; }
static const std::vector<std::string> DATA = {"a", "\r\n", "0\r\n\r\n", "0123456789abcdef", "\r\n5\r\n", "hello", std::string("\0\xff", 2), "0123456789"};

void mc_register()
{
    mc::add("declared-length", 0, [] {
        const Line &l = pick(LINES, "status line");
        const Heads &h = pick(HEADS, "headers");
        const std::string &b = pick(BODIES, "body");
        int eol = mc::choose(3, "eol");
        const char *s = SURPLUS[mc::choose(5, "surplus")];
        static const char *CL[] = {"Content-Length: ", "content-length:"};
        int st = mc::thorough() ? mc::choose(2, "style") : (int) b.size() % 2;
        segment<fr::HttpResponse>(declared(l, h, eol, b, CL[st], mc::thorough() ? mc::choose(2, "first") : (int) h.want.size() % 2, s), 1);
    }, 42, 3);
    mc::add("no-body", 0, [] {
        static const std::vector<Line> NB = {{"HTTP/1.1 204 No Content", 204, false}, {"HTTP/1.1 304 Not Modified", 304, false}, {"HTTP/1.1 100 Continue", 100, false}, {"HTTP/1.1 200 OK", 200, false}, {"HTTP/1.1 101 Switching Protocols", 101, false}};
        const Line &l = pick(NB, "status line");
        const Heads &h = pick(HEADS, "headers");
        int eol = mc::choose(3, "eol");
        Msg m; m.status = l.status; m.v10 = l.v10; m.headers = h.want;
        std::vector<std::string> f;
        for(auto &x : h.written) f.push_back(x.first + x.second);
        if(l.status == 304 && mc::choose(2, "length of what was not sent")) f.push_back("Content-Length: 12");
        if(l.status != 200 && l.status != 101) m.surplus = SURPLUS[mc::choose(5, "surplus")];
        m.text = head(l, f, eol);
        segment<fr::HttpResponse>(m, mc::choose(2, "two cuts") + 1);
    }, 15, 2);
    mc::add("chunked/sequences", 0, [] {
        int n = mc::choose(mc::by_tier(3, 4), "chunks");
        std::vector<std::string> c;
        for(int i = 0; i < n; ++i) c.push_back(pick(DATA, "data"));
        int style = mc::choose(5, "style"), trailer = mc::choose(2, "trailer") * 2;
        const char *s = SURPLUS[mc::choose(5, "surplus")];
        segment<fr::HttpResponse>(chunked(LINES[0], HEADS[0], 0, c, style, trailer, "Transfer-Encoding: chunked", s), 1);
    }, 40, 3);
    mc::add("chunked/headers", 0, [] {
        static const char *TE[] = {"Transfer-Encoding: chunked", "transfer-encoding:CHUNKED", "Transfer-Encoding: gzip, chunked", "TRANSFER-ENCODING: Chunked "};
        const Line &l = pick(LINES, "status line");
        const Heads &h = pick(HEADS, "headers");
        int eol = mc::choose(3, "eol"), tr = mc::choose(4, "trailer");
        const char *te = TE[mc::choose(4, "transfer encoding")];
        bool cl = mc::choose(2, "length too");
        segment<fr::HttpResponse>(chunked(l, h, eol, {"hello", "\r\n0\r\n\r\n"}, 0, tr, te, SURPLUS[tr % 3], cl), 1);
    }, 21, 2);
    for(int c = 2; c <= 3; ++c)
    {
        mc::add("declared-length/cuts/" + N(c), 0, [c] {
            int eol = mc::choose(3, "eol");
            const std::string &b = c == 2 ? pick(BODIES, "body") : BODIES[2 + (size_t) mc::choose(mc::by_tier(2, 5), "body")];
            const char *s = SURPLUS[mc::choose(2, "surplus") * 3];
            segment<fr::HttpResponse>(declared(LINES[2], HEADS[0], eol, b, "Content-Length: ", true, s), c);
        }, 30, 2);
        mc::add("chunked/cuts/" + N(c), 0, [c] {
            static const std::vector<std::vector<std::string>> C = {{}, {"hello"}, {"\r\n", "0\r\n\r\n"}, {"0123456789abcdef", "a"}};
            std::vector<std::string> ch = C[(size_t) mc::choose(c == 2 ? 4 : mc::by_tier(2, 4), "chunks")];
            int tr = mc::choose(2, "trailer"), style = c == 2 ? mc::choose(5, "style") : 0;
            const char *s = SURPLUS[mc::choose(2, "surplus") * 3];
            segment<fr::HttpResponse>(chunked(LINES[2], HEADS[0], 0, ch, style, tr, "Transfer-Encoding:chunked", s), c);
        }, 40, 3);
    }
    mc::add("similar", 0, [] {
        auto &s = SIMILAR[mc::choose((int) (sizeof SIMILAR / sizeof *SIMILAR), "header")];
        int kind = mc::choose(3, "length given");
        Heads h{{{std::string(s[0]) + ":", std::string(" ") + s[1]}}, {{s[0], s[1]}}};
        bool first = mc::choose(2, "before the length");
        if(kind == 0) segment<fr::HttpResponse>(declared(LINES[0], h, mc::choose(3, "eol"), BODIES[2], "Content-Length: ", !first, SURPLUS[1]), 1);
        else if(kind == 1) segment<fr::HttpResponse>(chunked(LINES[0], h, 0, {"hello", "\r\n"}, 0, 0, "Transfer-Encoding: chunked", SURPLUS[1], first), 1);
        else
        {
            // codings that resemble chunked
            static const char *TE[] = {"xchunked", "chunkedx", "chunk", "chunked2", "identity", "gzip", "\"chunked\"", "chun ked;"};
            h.written[0] = {"Transfer-Encoding:", std::string(" ") + TE[mc::choose(8, "coding")]}; h.want.clear();
            segment<fr::HttpResponse>(declared(LINES[0], h, 0, BODIES[2], "Content-Length: ", !first, SURPLUS[1]), 1);
        }
    }, 24, 1);
    mc::add("malformed", 0, [] {
        static const std::string H = "HTTP/1.1 200 OK\r\n", C = H + "Transfer-Encoding: chunked\r\n\r\n";
        static const struct { std::string text; Status want; } BAD[] = {
            {"XTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", Status::ParseError}, {"HTTQ/1.1 200 OK\r\n\r\n", Status::ParseError}, {"http/1.1 200 OK\r\n\r\n", Status::ParseError}, {" HTTP/1.1 200 OK\r\n\r\n", Status::ParseError},
            {"\r\n\r\n", Status::ParseError}, {"GET / HTTP/1.1\r\n\r\n", Status::ParseError},
            {"HTTP/1.1\r\n\r\n", Status::ParseError}, {"HTTP/1.1 \r\n\r\n", Status::ParseError}, {"HTTP/1.1 OK 200\r\n\r\n", Status::ParseError}, {"HTTP/1.1 99999999999 OK\n\n", Status::ParseError},
            {H + "Content-Length: x\r\n\r\nabc", Status::ParseError}, {H + "Content-Length:\r\n\r\nabc", Status::ParseError}, {H + "Content-Length: 99999999999999999999999\r\n\r\nabc", Status::ParseError},
            {C + "g\r\nhello\r\n0\r\n\r\n", Status::ParseError}, {C + "\r\nhello\r\n", Status::ParseError}, {C + "-5\r\nhello\r\n0\r\n\r\n", Status::ParseError}, {C + " 5\r\nhello\r\n0\r\n\r\n", Status::ParseError}, {C + ";x\r\n\r\n", Status::ParseError},
            {C + "5\r\nhelloX\r\n0\r\n\r\n", Status::ParseError}, {C + "4\r\nhello\r\n0\r\n\r\n", Status::ParseError}, {C + "5\r\nhello\n\n0\r\n\r\n", Status::ParseError}, {C + "1\r\na\r\nz\r\n\r\n", Status::ParseError},
            {C + "fffffffffffffffff\r\nhello", Status::HttpBodyTooBig}, {C + "ffffffffffffffff\r\nhello", Status::HttpBodyTooBig}, {C + "7fffffffffffffff\r\nhello", Status::HttpBodyTooBig}, {C + "1\r\na\r\nfffffffffffffffe\r\nhello", Status::HttpBodyTooBig},
        };
        auto &b = BAD[mc::choose((int) (sizeof BAD / sizeof *BAD), "message")];
        refused<fr::HttpResponse>(b.text, b.want, mc::choose(3, "cuts") + 1);
    }, (int) 26, 1);
    mc::add("beyond/length", 0, [] { beyond_length<fr::HttpResponse>("HTTP/1.1 200 OK", false); }, 8, 2);
    mc::add("beyond/chunk", 0, [] { beyond_length<fr::HttpResponse>("HTTP/1.1 200 OK", true); }, 8, 2);
    mc::add("numbers/length", 0, [] { numeric_length<fr::HttpResponse>(mc::choose(2, "status") ? "HTTP/1.1 404 Not Found" : "HTTP/1.0 200 OK", mc::by_tier(3, 5)); }, 8, 2);
    mc::add("numbers/status", 0, [] {
        std::string t = token("204x-+.,e;/", mc::by_tier(4, 5));
        bool reason = mc::choose(2, "reason"), bytewise = mc::choose(2, "byte by byte");
        size_t v = 0, at = 0;
        bool ok = decimal(t, v);
        fr::HttpResponse h;
        std::string text = "HTTP/1.1 " + t + (reason ? " Reason 5\r\n" : "\r\n") + "Content-Length: 0\r\n\r\n";
        Status s = verdict(h, text, bytewise, at);
        if(ok && t.size() == 3 && t[0] != '0') MC_CHECK(s == Status::Success && at == text.size() && (size_t) h.get_status() == v, "status " + t + " is read as " + N((long long) h.get_status()) + ", " + sname(s));
        if(!ok) MC_CHECK(s == Status::ParseError, "a status of \"" + t + "\" is not refused: " + sname(s));
        mc::outcome(ok ? v : (uint64_t) -1);
    }, 8, 2);
    mc::add("numbers/chunk", 0, [] {
        std::string t = token("10aFx-+g. \t;", mc::by_tier(3, 4));
        bool bytewise = mc::choose(2, "byte by byte"), second = mc::choose(2, "second chunk");
        size_t d = t.find_first_not_of("0123456789abcdefABCDEF"); if(d == std::string::npos) d = t.size();
        size_t e = t.find_first_not_of(" \t", d);
        bool ok = d > 0 && (d == t.size() || t[d] == ';' || e == std::string::npos || t[e] == ';');
        bool bad = d == 0 || (d < t.size() && t[d] != ';' && t[d] != ' ' && t[d] != '\t');
        if(!ok && !bad) mc::abandon();         // a space and something that is no extension: either is fine
        size_t v = ok ? (size_t) std::stoul(t.substr(0, d), nullptr, 16) : 16, at = 0;
        std::string data = pattern(v, 6);
        fr::HttpResponse h;
        std::string text = std::string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n") + (second ? "3\r\nabc\r\n" : "") + t + "\r\n" + (v ? data + "\r\n0\r\n\r\n" : "\r\n");
        Status s = verdict(h, text, bytewise, at);
        if(ok) MC_CHECK(s == Status::Success && at == text.size() && h.get_body() == (second ? "abc" : "") + data, "a chunk size of \"" + mc::printable(t) + "\": " + sname(s));
        else MC_CHECK(s == Status::ParseError, "a chunk size of \"" + mc::printable(t) + "\" is not refused: " + sname(s));
        mc::outcome(ok ? v : (uint64_t) -1);
    }, 8, 2);
    mc::add("large", 0, [] {
        static const size_t S[] = {1, 100, 4096, 16384, 70000};
        static const int P[] = {1, 2, 3, 7, 1000, 4096, 4097};
        std::string b = pattern(S[mc::choose(5, "body size")], 3);
        int p = P[mc::choose(7, "piece")];
        if(p < 1000 && b.size() > 5000) mc::abandon();
        Msg m;
        Heads h{{{"Long:", " " + std::string(3000, 'q')}}, {{"Long", std::string(3000, 'q')}}};
        if(mc::choose(2, "chunked") == 0) m = declared(LINES[0], h, mc::choose(2, "eol"), b, "Content-Length: ", true, "surplus");
        else
        {
            std::vector<std::string> c;
            size_t k = (size_t) (mc::choose(3, "chunk size") * 4000 + 255);
            for(size_t i = 0; i < b.size(); i += k) c.push_back(b.substr(i, k));
            m = chunked(LINES[0], h, 0, c, 0, 0, "Transfer-Encoding: chunked", "surplus");
        }
        std::vector<size_t> cuts;
        for(size_t i = (size_t) p; i < m.text.size(); i += (size_t) p) cuts.push_back(i);
        feed<fr::HttpResponse>(m, cuts, false);
    }, 5, 1);
    mc::add("every-size", 0, [] {
        int dim = mc::choose(6, "dimension");
        int n = mc::choose(mc::by_tier(600, 1500), "size") + 1;
        Heads h;
        Msg m;
        std::string b = dim == 0 ? pattern((size_t) n - 1, 5) : "body";
        if(dim == 1) { h.written = {{"First:", " 1"}, {plain((size_t) n) + ":", " value"}, {"Last:", " 2"}}; h.want = {{"First", "1"}, {plain((size_t) n), "value"}, {"Last", "2"}}; }
        if(dim == 2) { h.written = {{"First:", " 1"}, {"Name:", " " + plain((size_t) n)}, {"Last:", " 2"}}; h.want = {{"First", "1"}, {"Name", plain((size_t) n)}, {"Last", "2"}}; }
        std::string line = "HTTP/1.1 404 " + plain((size_t) n);
        Line l = dim == 3 ? Line{line.c_str(), 404, false} : LINES[0];
        if(dim == 4) m = chunked(l, h, 0, {pattern((size_t) n, 5), "end"}, mc::choose(3, "style"), 0, "Transfer-Encoding: chunked", "");      // every size of a chunk
        else if(dim == 5) m = chunked(l, h, 0, std::vector<std::string>((size_t) n, "ab"), 0, mc::choose(2, "trailer"), "Transfer-Encoding: chunked", "");   // any number of chunks
        else m = declared(l, h, mc::choose(2, "eol"), b, "Content-Length: ", mc::choose(2, "first"), "");
        pieces<fr::HttpResponse>(m);
    }, 60, 2);
    mc::add("every-count", 0, [] {
        int n = mc::choose(mc::by_tier(140, 400) + 22, "how many headers");
        n = n < 22 ? COUNTS[n] : n - 22;
        Heads h;
        for(int i = 0; i < n; ++i) { h.written.push_back({"k" + std::to_string(i) + ":", " " + std::to_string(i * 7)}); h.want.push_back({"k" + std::to_string(i), std::to_string(i * 7)}); }
        pieces<fr::HttpResponse>(declared(LINES[0], h, mc::choose(2, "eol"), "body", "Content-Length: ", mc::choose(2, "first"), ""));
    }, 16, 1);
}
