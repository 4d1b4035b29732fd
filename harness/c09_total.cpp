// C09: both HTTP parsers answer every byte sequence with a status, within the limits.
// Built twice: with small limits (so that they can be enumerated around) and with the default ones.
#include "http_ref.hpp"
#include <cctype>

static const size_t HMAX = MAX_HTTP_HEADER_SIZE, BMAX = MAX_HTTP_BODY_SIZE;
static const bool SMALL = HMAX < 1000;

static std::string first_line(const std::string &t)
{
    return t.substr(0, t.find('\n'));
}
static size_t header_end(const std::string &t, size_t &skip)
{
    size_t a = t.find("\r\n\r\n"), b = t.find("\n\n");
    if(a == std::string::npos && b == std::string::npos) { skip = 0; return a; }
    if(b < a) { skip = 2; return b; }
    skip = 4; return a;
}
static bool alpha_length(const std::string &head)
{
    // the first content-length header has a value that starts with a letter
    std::string l = lower(head);
    size_t p = 0;
    while((p = l.find('\n', p)) != std::string::npos)
    {
        ++p;
        if(l.compare(p, 15, "content-length:") == 0)
        {
            size_t v = p + 15;
            while(v < l.size() && l[v] == ' ') ++v;
            return v < l.size() && isalpha((unsigned char) l[v]);
        }
    }
    return false;
}
// certain that no request can look like this
static bool impossible(const fr::HttpRequest *, const std::string &t)
{
    size_t skip, e = header_end(t, skip);
    if(e == std::string::npos) return true;    // at least it cannot be complete
    std::string l = first_line(t.substr(0, e));
    static const char *M[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
    bool m = false;
    for(auto x : M) m |= l.compare(0, strlen(x), x) == 0;
    if(!m) return true;
    if(l.find('/') == std::string::npos || l.find("HTTP") == std::string::npos || l.find(' ') == std::string::npos) return true;
    if(l.find('/') > l.rfind("HTTP")) return true;      // no URI
    return alpha_length(t.substr(0, e));
}
static bool impossible(const fr::HttpResponse *, const std::string &t)
{
    size_t skip, e = header_end(t, skip);
    if(e == std::string::npos) return true;
    std::string l = first_line(t.substr(0, e));
    if(l.compare(0, 4, "HTTP") != 0) return true;
    size_t sp = l.find(' ');
    if(sp == std::string::npos) return true;
    if(l.find_first_of("0123456789", sp) == std::string::npos) return true;
    return alpha_length(t.substr(0, e));
}

// Feeds `text` in pieces; checks what holds for any bytes whatever.
template<typename H> static Status drive(const std::string &text, const std::vector<size_t> &cuts, size_t *consumed = nullptr, bool go_on = true)
{
    H h;
    size_t at = 0;
    Status last = Status::NotEnoughData;
    bool over = false;
    for(size_t i = 0; i <= cuts.size(); ++i)
    {
        size_t to = i < cuts.size() ? cuts[i] : text.size();
        // an exact-sized copy, so that any access beyond it is seen
        std::vector<char> piece(text.begin() + (long) at, text.begin() + (long) to);
        Status s;
        MC_NOTE("piece " + mc::printable(std::string(piece.begin(), piece.end())));
        try { s = h.parse(piece.data(), piece.size()); }
        catch(const std::exception &e) { mc::fail(std::string("parse throws ") + e.what() + " for " + mc::printable(text)); }
        if(!over)
        {
            last = s;
            MC_CHECK(s == Status::NotEnoughData || s == Status::Success || s == Status::ParseError || s == Status::HttpHeaderTooBig || s == Status::HttpBodyTooBig,
                     "parse gives " + sname(s) + " for " + mc::printable(text));
            if(s == Status::Success) MC_CHECK(!impossible((const H *) nullptr, text.substr(0, to)), "Success for something that cannot be a message: " + mc::printable(text.substr(0, to)));
            if(s == Status::NotEnoughData) MC_CHECK(h.get_body().size() <= HMAX + BMAX + 8 + piece.size(), "the stored message has grown to " + N((long long) h.get_body().size()) + " bytes");
            if(s == Status::Success) MC_CHECK(h.get_body().size() <= BMAX, "a body of " + N((long long) h.get_body().size()) + " bytes was accepted");
            if(s != Status::NotEnoughData) { over = true; if(consumed) *consumed = to; if(!go_on) break; }
        }
        else { mc::alloc_reset(); }
        at = to;
    }
    (void) h.construct("h");
    mc::outcome((uint64_t) last);
    return last;
}
template<typename H> static void any_bytes(const std::string &text)
{
    std::vector<size_t> cuts;
    int c = mc::choose(3, "segmentation");
    if(c == 1) for(size_t i = 1; i < text.size(); ++i) cuts.push_back(i);
    if(c == 2) cuts = {text.size() / 3, text.size() / 2};
    drive<H>(text, cuts);
}
static std::string tokens(const std::vector<std::string> &al, int depth)
{
    std::string s;
    for(int i = 0; i < depth; ++i) s += al[(size_t) mc::choose((int) al.size(), "token")];
    return s;
}

// ---- limits
// a header whose length before the terminator is exactly n
static std::string sized_header(const std::string &start, size_t n, const char *eol, const std::string &fields)
{
    std::string h = start;
    if(!fields.empty()) h += eol + fields;
    h += std::string(eol) + "F:";
    if(h.size() > n) return "";
    return h + std::string(n - h.size(), 'f');
}
template<typename H> static void header_limit(const std::string &start)
{
    int d = mc::choose(12, "length") - 4;
    size_t n = (size_t) ((long) HMAX + d);
    const char *eol = mc::choose(2, "eol") ? "\n" : "\r\n";
    std::string t = sized_header(start, n, eol, "");
    MC_CHECK(t.size() == n, "harness: header size");
    size_t len = t.size() + 2 * strlen(eol);
    t += std::string(eol) + eol;
    bool surplus = mc::choose(2, "body follows");
    std::string full = t + (surplus ? std::string(BMAX < 20 ? BMAX : 20, 'b') : "");
    std::vector<size_t> cuts;
    int c = mc::choose(SMALL ? (int) len + 2 : 24, "segmentation");
    if(c == 1) { if(SMALL) for(size_t i = 1; i < full.size(); ++i) cuts.push_back(i); else for(size_t i = 1000; i < full.size(); i += 1000) cuts.push_back(i); }
    else if(c > 1) cuts.push_back(SMALL ? (size_t) (c - 2) : len - (size_t) (c - 2));
    size_t used = 0;
    Status s = drive<H>(full, cuts, &used, false);
    if(d > 0) MC_CHECK(s == Status::HttpHeaderTooBig, "a header of " + N((long long) n) + " bytes (limit " + N((long long) HMAX) + ") gives " + sname(s));
    else MC_CHECK(s == Status::Success, "a header of " + N((long long) n) + " bytes, within the limit of " + N((long long) HMAX) + ", gives " + sname(s));
}
template<typename H> static void body_limit(const std::string &start, bool chunked)
{
    int d = SMALL || mc::thorough() ? mc::choose(8, "length") - 4 : mc::choose(2, "length");
    size_t n = (size_t) ((long) BMAX + d);
    static std::string whole = pattern(BMAX + 8, 5);
    std::string body = whole.substr(0, n), t = start;
    int surplus = mc::choose(2, "surplus");
    if(!chunked) t += "Content-Length: " + std::to_string(n) + "\r\n\r\n" + body;
    else
    {
        static const size_t CS[] = {0, 1, 7, 40};
        size_t cs = SMALL ? CS[mc::choose(4, "chunk size")] : (size_t) (mc::choose(2, "chunk size") ? 100000 : 0);
        if(cs == 0) cs = n;
        t += "Transfer-Encoding: chunked\r\n\r\n";
        for(size_t i = 0; i < n; i += cs) { size_t k = std::min(cs, n - i); char b[20]; snprintf(b, sizeof b, "%zx\r\n", k); t += b + body.substr(i, k) + "\r\n"; }
        t += "0\r\n\r\n";
    }
    size_t len = t.size();
    if(surplus) t += std::string(SMALL ? 30 : 100000, 's');
    std::vector<size_t> cuts;
    int c = mc::choose(SMALL ? (int) len + 3 : mc::by_tier(4, 8), "segmentation");
    if(SMALL)
    {
        if(c == 1) for(size_t i = 1; i < len; ++i) cuts.push_back(i);
        else if(c == 2) for(size_t i = 10; i < t.size(); i += 10) cuts.push_back(i);
        else if(c > 2) cuts.push_back((size_t) (c - 3));
    }
    else
    {
        if(c == 1) for(size_t i = 65536; i < len; i += 65536) cuts.push_back(i);
        else if(c > 1) cuts.push_back(len - (size_t) (c - 2));
    }
    Status s = drive<H>(t, cuts, nullptr, false);
    if(d > 0) MC_CHECK(s == Status::HttpBodyTooBig, "a body of " + N((long long) n) + " bytes (limit " + N((long long) BMAX) + ") gives " + sname(s));
    else MC_CHECK(s == Status::Success, "a body of " + N((long long) n) + " bytes, within the limit of " + N((long long) BMAX) + ", gives " + sname(s));
}
// an endless message must be refused, and nothing may grow on the way
template<typename H> static void endless(const std::vector<std::string> &starts, const std::vector<std::string> &repeated)
{
    std::string start = starts[(size_t) mc::choose((int) starts.size(), "start")];
    std::string rep = repeated[(size_t) mc::choose((int) repeated.size(), "repeated")];
    size_t piece = SMALL ? (size_t) mc::choose(30, "piece") + 1 : 4096;
    mc::alloc_reset();
    H h;
    size_t live0 = mc::alloc.live, given = 0;
    Status s = start.empty() ? Status::NotEnoughData : h.parse(start.data(), start.size());
    std::string buf;
    size_t limit = 40 * (HMAX + BMAX + piece) + 4096;
    if(!SMALL) limit = 4 * (HMAX + BMAX + piece) + 40 * HMAX;
    while(s == Status::NotEnoughData && given < (SMALL ? 20 : 2) * (HMAX + BMAX))
    {
        while(buf.size() < piece) buf += rep;
        s = h.parse(buf.data(), piece);
        buf.erase(0, piece);
        given += piece;
        if(s == Status::NotEnoughData) MC_CHECK(h.get_body().size() <= HMAX + BMAX + 8 + piece, "the stored message has grown to " + N((long long) h.get_body().size()) + " bytes");
        size_t live = mc::alloc.live - live0;
        if(live < ((size_t) 1 << 60)) MC_CHECK(live <= limit, "parsing keeps " + N((long long) live) + " bytes of memory after " + N((long long) given) + " bytes");
    }
    mc::outcome(mc::mix((uint64_t) s, given));
}

void mc_register()
{
    using Rq = fr::HttpRequest; using Rs = fr::HttpResponse;
    mc::add("request/header-limit", 0, [] { header_limit<Rq>(mc::choose(2, "method") ? "GET /x?a=b HTTP/1.1" : "DELETE / HTTP/1.0"); }, 8, 2);
    mc::add("response/header-limit", 0, [] { header_limit<Rs>(mc::choose(2, "line") ? "HTTP/1.1 200 OK" : "HTTP/1.0 404"); }, 8, 2);
    mc::add("request/body-limit", 0, [] { body_limit<Rq>(mc::choose(2, "method") ? "PUT / HTTP/1.1\r\n" : "POST / HTTP/1.1\r\n", false); }, 8, 2);
    mc::add("response/body-limit", 0, [] { body_limit<Rs>("HTTP/1.1 200 OK\r\n", false); }, 8, 2);
    mc::add("response/chunked-body-limit", 0, [] { body_limit<Rs>("HTTP/1.1 200 OK\r\n", true); }, 8, 2);
    static const std::vector<std::string> rep = {"a", "a: b\r\n", "a:\n", "\r", "\n", "\r\n", " ", "1\r\nx\r\n", std::string(1, '\0'), "0\r\n\r\n", "5;", "T: x\r\n", "a=b&"};
    mc::add("request/endless", 0, [] { endless<Rq>({"", "GET", "GET / HTTP/1.1", "GET / HTTP/1.1\r\nA: ", "POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\n", "PUT / HTTP/1.1\r\nContent-Length: 9999999999\r\n\r\n", "PUT / HTTP/1.1\r\nContent-Length: -1\r\n\r\n"}, rep); }, 7, 1);
    mc::add("response/endless", 0, [] { endless<Rs>({"", "HTTP", "HTTP/1.1 200 OK", "HTTP/1.1 200 OK\r\nA: ", "HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n",
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffff\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;"}, rep); }, 9, 1);
    if(!SMALL) return;

    static const std::vector<std::string> RQ = {"GET", "POST", "P", " ", "/", "?", "a=b", "&", "=", "HTTP/1.1", "HTTP", "\r\n", "\n", "\r", ":", "Content-Length", "5", "-1", "99999999999999999999", "abc", std::string(1, '\0'), "\xff", "xxxxxxxxxxxxxxxxxxxxxxxxx", "%"};
    static const std::vector<std::string> RQ2 = {"GET", " ", "/", "?", "a=b", "&", "=", "HTTP", "\n", "\r\n\r\n", std::string(1, '\0')};
    static const std::vector<std::string> RS = {"HTTP/1.1", "HTTP", "H", " ", "200", "-1", "99999999999999", "\r\n", "\n", "\r", ":", "Content-Length", "Transfer-Encoding", "chunked", "5", "abc", std::string(1, '\0'), "\xff", "/", "xxxxxxxxxxxxxxxxxxxxxxxxx"};
    static const std::vector<std::string> CH = {"0", "5", "A", "ffffffff", "fffffffffffffffe", "fffffffffffffffff", "\r\n", "\r", "\n", "hello", "-1", "+3", "0x2", " ", ";", std::string(1, '\0'), "g", "7ffffffffffffffd", "1"};
    static const std::vector<std::string> CH2 = {"0", "5", "fffffffffffffffc", "\r\n", "hello", "-", " ", "g", "1"};
    static const std::vector<std::string> LN = {"0", "5", "-", "+", " ", "9", "x", "18446744073709551616", "18446744073709551615", "\t", ",", ".", "\xb2", "\r\n", "\n\n", "\r\n\r\n", "hello!"};
    static const std::vector<std::string> QS = {"?", "&", "=", "a", "/", " ", "HTTP/1.1", "HTTP", "%", "#", "\r", "\n\n", "\r\n\r\n", std::string(1, '\0'), "\xff"};
    for(int d = 0; d <= mc::by_tier(3, 4); ++d) mc::add("request/tokens/" + N(d), 0, [d] { any_bytes<Rq>(tokens(RQ, d)); }, d >= 3 ? 24 : 1, 1);
    for(int d = 4; d <= mc::by_tier(5, 6); ++d) mc::add("request/few-tokens/" + N(d), 0, [d] { any_bytes<Rq>(tokens(RQ2, d)); }, 11, 1);
    for(int d = 0; d <= mc::by_tier(4, 5); ++d) mc::add("request/line-tokens/" + N(d), 0, [d] { any_bytes<Rq>("GET " + tokens(QS, d)); }, 15, 1);
    for(int d = 0; d <= mc::by_tier(4, 5); ++d) mc::add("request/uri-tokens/" + N(d), 0, [d] { any_bytes<Rq>("GET /" + tokens(QS, d) + " HTTP/1.1\r\n\r\n"); }, 15, 1);
    for(int d = 0; d <= mc::by_tier(3, 4); ++d)
        mc::add("request/length-tokens/" + N(d), 0, [d] { std::string m = mc::choose(2, "method") ? "POST" : "PUT"; any_bytes<Rq>(m + " / HTTP/1.1\r\nContent-Length:" + tokens(LN, d)); }, 17, 2);
    for(int d = 0; d <= mc::by_tier(4, 5); ++d)
        mc::add("request/post-tokens/" + N(d), 0, [d] { static const std::vector<std::string> PB = {"a", "=", "&", "\r", "\n", "\r\n\r\n", "\n\n", "?", std::string(1, '\0')}; any_bytes<Rq>((mc::choose(2, "length") ? "POST / HTTP/1.1\r\nContent-Length: 6\r\n\r\n" : "POST / HTTP/1.1\r\n\r\n") + tokens(PB, d)); }, 18, 2);
    for(int d = 0; d <= mc::by_tier(3, 4); ++d) mc::add("response/tokens/" + N(d), 0, [d] { any_bytes<Rs>(tokens(RS, d)); }, d >= 3 ? 20 : 1, 1);
    for(int d = 0; d <= mc::by_tier(3, 4); ++d) mc::add("response/line-tokens/" + N(d), 0, [d] { any_bytes<Rs>("HTTP/1.1 " + tokens(RS, d) + "\r\n\r\nxyz"); }, d >= 3 ? 20 : 1, 1);
    for(int d = 0; d <= mc::by_tier(3, 4); ++d) mc::add("response/length-tokens/" + N(d), 0, [d] { any_bytes<Rs>("HTTP/1.1 200 OK\r\nContent-Length:" + tokens(LN, d)); }, d >= 3 ? 17 : 1, 1);
    for(int d = 0; d <= mc::by_tier(4, 5); ++d) mc::add("response/chunk-tokens/" + N(d), 0, [d] { any_bytes<Rs>("HTTP/1.1 200 OK\r\nTransfer-Encoding:chunked\r\n\r\n" + tokens(CH, d)); }, d >= 3 ? 19 : 1, 1);
    for(int d = 5; d <= mc::by_tier(5, 7); ++d) mc::add("response/few-chunk-tokens/" + N(d), 0, [d] { any_bytes<Rs>("HTTP/1.1 200 OK\r\nTransfer-Encoding:chunked\r\n\r\n" + tokens(CH2, d)); }, 9, 1);
    // every byte string over a tiny alphabet
    static const std::vector<std::string> B1 = {"G", "E", "T", " ", "/", "\n", "\r"}, B2 = {"H", "T", "P", " ", "1", "\n", "\r"};
    for(int d = 1; d <= mc::by_tier(6, 7); ++d)
    {
        mc::add("request/bytes/" + N(d), 0, [d] { any_bytes<Rq>(tokens(B1, d)); }, d >= 5 ? 7 : 1, 1);
        mc::add("response/bytes/" + N(d), 0, [d] { any_bytes<Rs>(tokens(B2, d)); }, d >= 5 ? 7 : 1, 1);
    }
    // single bytes anywhere in well-formed messages: replaced, removed, doubled
    static const std::vector<std::string> WF = {"GET /a?b=c HTTP/1.1\r\nHost: x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\na=b&c", "PUT /x HTTP/1.0\nContent-Length: 2\n\nhi"};
    static const std::vector<std::string> WS = {"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", "HTTP/1.1 200 OK\nTransfer-Encoding: chunked\n\n2\r\nhi\r\n0\r\n\r\n", "HTTP/1.0 204 x\r\n\r\n"};
    auto mutate = [](const std::string &base) {
        std::string t = base;
        for(int k = 0; k < mc::by_tier(1, 2); ++k)
        {
            size_t at = (size_t) mc::choose((int) t.size(), "at");
            int how = mc::choose(k == 1 ? 40 : 2 + 256, "how");
            if(how == 0) t.erase(at, 1); else if(how == 1) t.insert(at, 1, t[at]); else t[at] = (char) (how - 2);
        }
        return t;
    };
    mc::add("request/mutations", 0, [mutate] { any_bytes<Rq>(mutate(WF[(size_t) mc::choose(3, "message")])); }, 30, 2);
    mc::add("response/mutations", 0, [mutate] { any_bytes<Rs>(mutate(WS[(size_t) mc::choose(3, "message")])); }, 30, 2);
}
