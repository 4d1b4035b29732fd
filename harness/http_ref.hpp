// Messages written down by hand, with what a parser has to find in them.
#pragma once
#include "util.hpp"
#include "frnetlib/Http.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include <map>
#include <set>

using Fields = std::vector<std::pair<std::string, std::string>>;
inline std::string lower(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }
inline std::string upper(std::string s) { for(auto &c : s) if(c >= 'a' && c <= 'z') c = (char) (c - 32); return s; }

struct Msg
{
    std::string text;              // the whole message
    std::string surplus;           // bytes after it, in the same piece as its last byte
    // request
    fr::Http::RequestType type = fr::Http::RequestType::Get;
    std::string uri;
    std::string query_text;
    Fields query, post;
    // response
    int status = 200;
    // both
    bool v10 = false;
    Fields headers;
    std::string body;
};

template<typename H> inline void check_common(H h, const Msg &m)
{
    MC_CHECK(h.get_version() == (m.v10 ? fr::Http::RequestVersion::V1 : fr::Http::RequestVersion::V1_1), "the version differs");
    MC_CHECK(h.get_body() == m.body, "the body is " + mc::printable(h.get_body()) + " instead of " + mc::printable(m.body));
    for(auto &f : m.headers)
    {
        MC_CHECK(h.header_exists(f.first), "header " + f.first + " is missing");
        std::string v = h.header(upper(f.first));
        MC_CHECK(v == f.second, "header " + f.first + " is " + mc::printable(v) + " instead of " + mc::printable(f.second));
    }
}
template<typename P> inline void no_spurious(const std::string &text, const Fields &known, P exists, const char *what, const std::set<std::string> &maybe = {})
{
    std::set<std::string> ok(maybe);
    for(auto &f : known) ok.insert(lower(f.first));
    for(size_t i = 0; i < text.size(); ++i)
        for(size_t n = 1; n <= 14 && i + n <= text.size(); ++n)
        {
            std::string s = lower(text.substr(i, n));
            if(exists(s) && !ok.count(s)) mc::fail(std::string(what) + " " + mc::printable(s) + " was not in the message");
        }
    MC_CHECK(!exists("zz"), std::string(what) + " zz was not in the message");
}
inline void check_args(const Fields &args, std::function<bool(std::string)> exists, std::function<std::string(std::string)> get, const char *what)
{
    for(auto &f : args)
    {
        MC_CHECK(exists(f.first), std::string(what) + " " + f.first + " is missing");
        MC_CHECK(get(f.first) == f.second, std::string(what) + " " + f.first + " is " + mc::printable(get(f.first)) + " instead of " + mc::printable(f.second));
    }
}
inline void check_parsed(const fr::HttpRequest &h, const Msg &m, bool spurious, const std::set<std::string> &maybe = {})
{
    fr::HttpRequest q(h);
    MC_CHECK(h.get_type() == m.type, "the method differs");
    MC_CHECK(h.get_uri() == m.uri, "the URI is " + mc::printable(h.get_uri()) + " instead of " + mc::printable(m.uri));
    check_args(m.query, [&](std::string k) { return h.get_exists(k); }, [&](std::string k) { return q.get(k); }, "query argument");
    check_args(m.post, [&](std::string k) { return h.post_exists(k); }, [&](std::string k) { return q.post(k); }, "POST argument");
    if(spurious)
    {
        no_spurious(m.query_text + " " + m.uri, m.query, [&](const std::string &k) { return h.get_exists(k); }, "query argument", maybe);
        if(!m.post.empty() || m.type != fr::Http::RequestType::Post) no_spurious(m.body.substr(0, 60), m.post, [&](const std::string &k) { return h.post_exists(k); }, "POST argument", maybe);
    }
    check_common(h, m);
}
inline void check_parsed(const fr::HttpResponse &h, const Msg &m, bool, const std::set<std::string> & = {})
{
    MC_CHECK((int) h.get_status() == m.status, "the status is " + N((int) h.get_status()) + " instead of " + N(m.status));
    check_common(h, m);
}

// Feeds the message cut at the given positions (non-decreasing); checks the status after every piece and the result.
template<typename H> inline void feed(const Msg &m, const std::vector<size_t> &cuts, bool spurious, const std::set<std::string> &maybe = {})
{
    H h;
    size_t at = 0;
    for(size_t i = 0; i <= cuts.size(); ++i)
    {
        size_t to = i < cuts.size() ? cuts[i] : m.text.size();
        std::string piece = m.text.substr(at, to - at);
        if(to == m.text.size()) piece += m.surplus;
        MC_NOTE("piece " + mc::printable(piece));
        Status s = h.parse(piece.data(), piece.size());
        if(to < m.text.size()) MC_CHECK(s == Status::NotEnoughData, "status " + sname(s) + " although only " + N((long long) to) + " of " + N((long long) m.text.size()) + " bytes were given: " + mc::printable(m.text));
        else { MC_CHECK(s == Status::Success, "status " + sname(s) + " for the complete message " + mc::printable(m.text) + (m.surplus.empty() ? "" : " with surplus " + mc::printable(m.surplus))); break; }
        at = to;
    }
    try { check_parsed(h, m, spurious, maybe); }
    catch(const mc::Violation &) { throw; }
    mc::outcome(mc::mix(mc::hash(h.get_body()), mc::mix((uint64_t) h.get_type(), mc::hash(h.get_uri()))));
}
// 0: one piece, 1: byte by byte, 2: every single cut, 3: every pair of cuts, 4: every triple
template<typename H> inline void segment(const Msg &m, int ncuts, const std::set<std::string> &maybe = {})
{
    MC_NOTE("message " + mc::printable(m.text));
    std::vector<size_t> cuts;
    int n = (int) m.text.size();
    if(ncuts <= 1)
    {
        int c = mc::choose(n + 2, "segmentation");
        if(c == 0) { }
        else if(c == 1) for(int i = 1; i < n; ++i) cuts.push_back((size_t) i);
        else cuts.push_back((size_t) (c - 2));
        feed<H>(m, cuts, c == 0, maybe);
        return;
    }
    int at = 0;
    for(int i = 0; i < ncuts; ++i) { at += mc::choose(n - at, "cut"); cuts.push_back((size_t) at); }
    feed<H>(m, cuts, false, maybe);
}

// a text of n bytes that may stand in a header value, an argument or a URI
inline std::string plain(size_t n, size_t k = 0) { std::string s; while(s.size() < n) s += (char) ('a' + (s.size() * 7 + s.size() / 26 + k) % 26); return s; }
// one piece, byte by byte (long messages: pieces of 61), or cut inside the end of the header
template<typename H> inline void pieces(const Msg &m, const char *what = "pieces")
{
    std::vector<size_t> cuts;
    int c = mc::choose(3, what);
    if(c == 1) for(size_t i = 1; i < m.text.size(); i += m.text.size() > 2500 ? 61 : 1) cuts.push_back(i);
    if(c == 2) { size_t e = m.text.find("\r\n\r\n"); if(e == std::string::npos) e = m.text.size() / 2; cuts.push_back(e + 2); if(m.text.size() - m.body.size() / 2 > e + 2) cuts.push_back(m.text.size() - m.body.size() / 2); }
    feed<H>(m, cuts, false);
}
static const int COUNTS[] = {9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001};

// Header lines whose names resemble those that matter for the end of a message, and are none of them.
static const char *const SIMILAR[][2] = {
    {"X-Content-Length", "3"}, {"Content-Length-X", "3"}, {"ContentLength", "3"}, {"Content_Length", "3"}, {"Content-Lengt", "3"}, {"ontent-Length", "3"}, {"Content-Length2", "3"}, {"Length", "3"}, {"Content", "3"},
    {"X-Transfer-Encoding", "chunked"}, {"Transfer-Encodings", "chunked"}, {"Transfer_Encoding", "chunked"}, {"TE", "chunked"}, {"ransfer-encoding", "chunked"}, {"Content-Encoding", "chunked"}, {"Transfer", "chunked"}, {"Connection", "chunked"},
    {"Via", "Content-Length: 3"}, {"Warning", "Transfer-Encoding: chunked"}, {"Status", "204"}, {"X", "HTTP/1.0 304"}, {"-", "a"}, {"Content-Length;", "3"}, {"Content-Length-", "3"},
};

// Something malformed: refused with the given status once the part that is wrong has arrived, however it is cut up.
template<typename H> inline void refused(const std::string &text, Status want, int ncuts)
{
    MC_NOTE("malformed " + mc::printable(text));
    std::vector<size_t> cuts;
    int n = (int) text.size();
    int c = ncuts <= 1 ? mc::choose(n + 2, "segmentation") : 2;
    if(c == 1) for(int i = 1; i < n; ++i) cuts.push_back((size_t) i);
    else if(ncuts <= 1 && c > 1) cuts.push_back((size_t) (c - 2));
    if(ncuts > 1) { int at = 0; for(int i = 0; i < ncuts; ++i) { at += mc::choose(n - at, "cut"); cuts.push_back((size_t) at); } }
    cuts.push_back((size_t) n);
    H h;
    size_t at = 0;
    for(size_t to : cuts)
    {
        std::string piece = text.substr(at, to - at);
        MC_NOTE("piece " + mc::printable(piece));
        Status s = h.parse(piece.data(), piece.size());
        at = to;
        if(s == want) { mc::outcome((uint64_t) at); return; }
        MC_CHECK(s == Status::NotEnoughData, "status " + sname(s) + " instead of " + sname(want) + " for " + mc::printable(text));
    }
    mc::fail("not refused: " + mc::printable(text));
}

// Everything that can stand where a number has to: numbers have their value, all else is refused.
inline std::string token(const std::string &alphabet, int max)
{
    std::string s;
    int n = mc::choose(max + 1, "length of the token");
    for(int i = 0; i < n; ++i) s += alphabet[(size_t) mc::choose((int) alphabet.size(), "character")];
    return s;
}
inline bool decimal(std::string s, size_t &v)
{
    auto b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t");
    if(b == std::string::npos) return false;
    s = s.substr(b, e - b + 1);
    if(s.find_first_not_of("0123456789") != std::string::npos) return false;
    v = (size_t) std::stoull(s);
    return true;
}
// parse all of it at once or byte by byte, up to the first verdict
template<class H> inline Status verdict(H &h, const std::string &text, bool bytewise, size_t &at)
{
    MC_NOTE("message " + mc::printable(text));
    if(!bytewise) { at = text.size(); return h.parse(text.data(), text.size()); }
    Status s = Status::NotEnoughData;
    for(at = 0; at < text.size() && s == Status::NotEnoughData; ++at) s = h.parse(&text[at], 1);
    return s;
}
template<class H> inline void numeric_length(const std::string &line, int depth)
{
    std::string t = token("507x-+. \t,e;", depth);
    bool bytewise = mc::choose(2, "byte by byte");
    size_t v = 0, at = 0;
    bool ok = decimal(t, v);
    std::string body = pattern(ok ? v : 8, 4);
    H h;
    std::string text = line + "\r\nA: 1\r\nContent-Length:" + t + "\r\nB: 2\r\n\r\n" + body;
    Status s = verdict(h, text, bytewise, at);
    if(ok) MC_CHECK(s == Status::Success && at == text.size() && h.get_body() == body, "a length of \"" + mc::printable(t) + "\": " + sname(s) + " after " + N((long long) at) + " of " + N((long long) text.size()) + " bytes with a body of " + N((long long) h.get_body().size()));
    else MC_CHECK(s == Status::ParseError, "a length of \"" + mc::printable(t) + "\" is not refused: " + sname(s));
    mc::outcome(ok ? v : (uint64_t) -1);
}

// a declared length beyond anything that has arrived, around every power of two and around what a narrower type would
// make of it: the message is never complete
template<class H> inline void beyond_length(const std::string &line, bool chunked)
{
    int bits = mc::choose(59, "bits") + 6, off = mc::choose(7, "offset") - 2;     // 2^6-2 .. 2^64+4
    bool bytewise = mc::choose(2, "byte by byte"), zeros = mc::choose(2, "leading zeros");
    unsigned __int128 v = ((unsigned __int128) 1 << bits) + off;
    if(chunked && bits == 64) mc::abandon();
    std::string t;
    for(unsigned __int128 x = v; x; x /= chunked ? 16 : 10) t.insert(t.begin(), "0123456789abcdef"[(int) (x % (chunked ? 16 : 10))]);
    if(zeros) t = "000" + t;
    static const size_t SENT[] = {0, 1, 2, 3, 4, 40, 61};
    size_t sent = SENT[mc::choose(7, "bytes sent")], at = 0;
    if((unsigned __int128) sent >= v) mc::abandon();
    H h;
    std::string body = pattern(sent, 4);
    std::string text = line + (chunked ? "\r\nTransfer-Encoding: chunked\r\n\r\n" + t + "\r\n" + body + (mc::choose(2, "end") ? "\r\n0\r\n\r\n" : "") : "\r\nContent-Length: " + t + "\r\n\r\n" + body);
    if(chunked && sent + 7 >= v) mc::abandon();
    Status s = verdict(h, text, bytewise, at);
    MC_CHECK(s != Status::Success, "a message whose length is declared as " + t + " is complete with " + N((long long) sent) + " bytes of it");
    if(bits < 20) MC_CHECK(s == Status::NotEnoughData, "a message whose length is declared as " + t + ": " + sname(s));
    mc::outcome(mc::mix((uint64_t) s, (uint64_t) bits));
}
