// A strict HTTP/1.x message reader written from the RFC, independent of the library.
#pragma once
#include "http_ref.hpp"

struct Strict { std::string line; Fields fields; std::string body; };
// splits a complete message; fails if it is not exactly one self-delimiting message
inline Strict strict(const std::string &t, bool request, int status)
{
    Strict s;
    size_t e = t.find("\r\n\r\n");
    MC_CHECK(e != std::string::npos, "the constructed message has no end of header: " + mc::printable(t));
    size_t p = t.find("\r\n");
    s.line = t.substr(0, p);
    MC_CHECK(s.line.find('\n') == std::string::npos && s.line.find('\r') == std::string::npos, "stray line end in the first line");
    p += 2;
    while(p < e + 2)
    {
        size_t n = t.find("\r\n", p);
        std::string l = t.substr(p, n - p);
        MC_CHECK(l.find('\n') == std::string::npos && l.find('\r') == std::string::npos, "stray line end in a header line: " + mc::printable(l));
        size_t c = l.find(':');
        MC_CHECK(c != std::string::npos && c > 0 && l[c - 1] != ' ', "malformed header line: " + mc::printable(l));
        std::string name = lower(l.substr(0, c)), value = l.substr(c + 1);
        size_t b = value.find_first_not_of(" \t");
        value = b == std::string::npos ? "" : value.substr(b);
        for(auto &f : s.fields) MC_CHECK(f.first != name, "header " + name + " is there more than once: " + mc::printable(t));
        s.fields.push_back({name, value});
        p = n + 2;
    }
    s.body = t.substr(e + 4);
    std::string cl;
    bool have = false;
    for(auto &f : s.fields) if(f.first == "content-length") { cl = f.second; have = true; }
    bool bodyless = !request && (status / 100 == 1 || status == 204 || status == 304);
    if(have) MC_CHECK(!bodyless || status == 304 || s.body.empty(), "content-length in a message that has no body");
    if(have && !bodyless) MC_CHECK(cl == std::to_string(s.body.size()), "content-length " + cl + " but the body has " + N((long long) s.body.size()) + " bytes: " + mc::printable(t));
    else if(request) MC_CHECK(s.body.empty(), "a request with a body but without content-length: " + mc::printable(t));
    else if(!bodyless) mc::fail("a response that only the end of the connection delimits: " + mc::printable(t));
    else MC_CHECK(s.body.empty(), "a body in a response which must not have one");
    return s;
}
inline const std::string *field(const Strict &s, const std::string &name)
{
    for(auto &f : s.fields) if(f.first == lower(name)) return &f.second;
    return nullptr;
}
// parse in one piece, byte by byte and at every single cut
template<typename H> inline void reparse(const Msg &m, bool all_cuts)
{
    std::vector<size_t> cuts;
    int n = (int) m.text.size();
    if(n > 600) all_cuts = false;
    int c = mc::choose(all_cuts ? n + 2 : 2, "segmentation");
    if(c == 1) for(int i = 1; i < n; i += n > 3000 ? 997 : 1) cuts.push_back((size_t) i);
    else if(c > 1) cuts.push_back((size_t) (c - 2));
    feed<H>(m, cuts, c == 0);
}
