// C29: messages, packets, frames and URLs are values.
// Two (or three) variables; every history of operations on them and of copies, assignments, moves and swaps between them.
// The oracle is the library itself: a variable must behave as a fresh object to which the same operations were applied.
#include "util.hpp"
#include "ws_ref.hpp"
#include "frnetlib/Packet.h"
#include "frnetlib/URL.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include <type_traits>
using namespace simk;

using History = std::vector<int>;
static std::string be32(size_t n) { std::string r; for(int x = 24; x >= 0; x -= 8) r += (char) (n >> x); return r; }
// what travels over a socket
struct Line
{
    FileP f; fr::TcpSocket s;
    Line() : f(open_connected()) { attach(s, f); }
    template<class T> std::string sent(const T &o) { Status st = s.send(o); std::string r = f->tx; f->tx.clear(); return sname(st) + ":" + r; }
    template<class T> std::string received(T &o, const std::string &wire) { f->rx += wire; Status st = s.receive(o); return sname(st) + "," + N((long long) (f->rx.size() - f->rxpos)) + " left"; }
};
static Line *line;

// how often an operation occurs in a history
static int count(const History &h, int op) { int n = 0; for(int o : h) n += o == op; return n; }

template<class T> struct Ops;
template<> struct Ops<fr::Packet>
{
    enum { N_OPS = 9 };
    static const char *name() { return "packet"; }
    static std::string contents(fr::Packet &p)
    {
        auto c = p.get_cursor(); std::string s(p.size(), 0);
        p.set_cursor(0); if(!s.empty()) p.extract_raw(&s[0], s.size()); p.set_cursor(c);
        return s;
    }
    static std::string apply(fr::Packet &p, int op, const History &)
    {
        try
        {
            switch(op)
            {
                case 0: p << (uint16_t) 0x1234; return "";
                case 1: p << std::string("ab"); return "";
                case 2: p << std::string(40, 'x') << true; return "";
                case 3: { uint16_t v = 7; p >> v; return N(v); }
                case 4: { std::string v = "?"; p >> v; return v; }
                case 5: p.set_cursor(0); return "";
                case 6: p.clear(); return "";
                case 7: return line->sent(p);
                case 8: return line->received(p, be32(6) + be32(2) + "hi");
            }
        }
        catch(std::out_of_range &) { return "out of range"; }
        return "";
    }
    static std::string observe(fr::Packet &p) { return N((long long) p.size()) + "/" + N((long long) p.get_cursor()) + "/" + N((long long) p.get_bytes_remaining()) + "/" + contents(p); }
    // a packet that was moved from is a packet
    static void moved(fr::Packet &p)
    {
        MC_CHECK(p.get_cursor() <= p.size() && p.get_bytes_remaining() == p.size() - p.get_cursor(), "a packet that was moved from has position " + N((long long) p.get_cursor()) + " of " + N((long long) p.size()));
        std::string had = contents(p);
        p << (uint8_t) 'q';
        std::string now = contents(p);
        MC_CHECK(now == had + "q", "a packet that was moved from cannot be used again: it holds '" + mc::printable(now) + "' after 'q' was added to '" + mc::printable(had) + "'");
        std::string wire = line->sent(p);
        MC_CHECK(wire == "Success:" + be32(now.size()) + now, "a packet that was moved from is sent as '" + mc::printable(wire) + "' although it holds '" + mc::printable(now) + "'");
        p.clear();
        MC_CHECK(p.size() == 0 && p.get_cursor() == 0, "a packet that was moved from cannot be cleared");
    }
};
template<class F> struct FrameOps
{
    enum { N_OPS = 6 };
    static std::string apply(F &f, int op, const History &)
    {
        switch(op)
        {
            case 0: f.set_payload("short"); return "";
            case 1: f.set_payload(pattern(130)); return "";
            case 2: f.set_opcode(fr::WebFrame::Opcode::Ping); return "";
            case 3: f.set_final(false); return "";
            case 4:
            {
                std::string w = line->sent(f);
                size_t c = w.find(':'); ws::Frame g; size_t pos = 0; std::string b = w.substr(c + 1);
                if(!ws::read(b, pos, g)) return w.substr(0, c) + ":no frame";
                return w.substr(0, c) + ":" + N(g.fin) + N(g.rsv) + N(g.opcode) + N(g.masked) + g.payload + b.substr(pos);     // the key differs each time
            }
            case 5: return line->received(f, static_cast<fr::WebFrame &>(f).is_client() ? std::string("\x82\x02hi") : std::string("\x82\x82\x01\x02\x03\x04ik", 8));
        }
        return "";
    }
    static std::string observe(F &f) { return N((int) f.get_opcode()) + "/" + N(f.is_final()) + "/" + N(static_cast<fr::WebFrame &>(f).is_client()) + "/" + f.get_payload(); }
    static void moved(F &f) { f.set_payload("again"); f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_final(true); MC_CHECK(f.get_payload() == "again", "a frame that was moved from cannot be used again"); f = F(); }
};
template<> struct Ops<fr::ClientWebFrame> : FrameOps<fr::ClientWebFrame> { static const char *name() { return "client frame"; } };
template<> struct Ops<fr::ServerWebFrame> : FrameOps<fr::ServerWebFrame> { static const char *name() { return "server frame"; } };
template<> struct Ops<fr::URL>
{
    enum { N_OPS = 5 };
    static const char *name() { return "URL"; }
    static std::string apply(fr::URL &u, int op, const History &)
    {
        switch(op)
        {
            case 0: u.parse("https://www.example.com:8443/some/path?a=b#frag"); break;
            case 1: u.parse("/only/a/path"); break;
            case 2: u.parse("ftp://host"); break;
            case 3: return u.get_url();
            case 4: u.parse(""); break;
        }
        return "";
    }
    static std::string observe(fr::URL &u) { return N((int) u.get_scheme()) + "|" + u.get_host() + "|" + u.get_port() + "|" + u.get_path() + "|" + u.get_query() + "|" + u.get_fragment() + "|" + u.get_uri() + "|" + u.get_url(); }
    static void moved(fr::URL &u) { u.parse("http://a/b"); fr::URL v("http://a/b"); MC_CHECK(observe(u) == observe(v), "a URL that was moved from cannot be used again"); }
};
template<class H> static std::string fields(H &h)
{
    const H &c = h;
    std::string o = N((int) h.get_type()) + "|" + N((int) h.get_status()) + "|" + N((int) h.get_version()) + "|" + h.get_uri() + "|" + h.get_body() + "|";
    for(const char *n : {"Alpha", "content-length", "transfer-encoding", "q", "p"})
        o += std::string(n) + (c.header_exists(n) ? "h" + h.header(n) : "") + (c.get_exists(n) ? "g" + h.get(n) : "") + (c.post_exists(n) ? "p" + h.post(n) : "") + "|";
    return o;
}
template<class H> struct HttpOps
{
    enum { N_OPS = 7 };
    static std::string apply(H &h, int op, const History &before)
    {
        static const std::vector<std::string> request{"POST /a?q=1 HT", "TP/1.1\r\nAlpha: x\r", "\nContent-Length: 7\r\n\r\np=", "v1&", "", "r=2", ""},
            response{"HTTP/1.0 404 No", "t Found\r\nAlpha: x\r\nTransfer-Encoding: chunked\r\n\r", "\n3\r\nab", "c\r\n2", "\r\nde\r\n0\r", "\n\r", "\n"};
        switch(op)
        {
            case 0: case 1:        // the next one or two pieces of a message
            {
                auto &v = std::is_same<H, fr::HttpRequest>::value ? request : response;
                size_t at = (size_t) (count(before, 0) + 2 * count(before, 1));
                std::string o;
                for(int i = 0; i <= op && at < v.size(); ++i, ++at) o += sname(h.parse(v[at].data(), v[at].size())) + " ";
                return o;
            }
            case 2: h.header("alpha") = "new"; return "";
            case 3: h.get("Q") = "other"; h.post("p") = "post"; return "";
            case 4: h.set_uri("/changed"); h.set_type(fr::Http::RequestType::Put); h.set_status(fr::Http::RequestStatus::Gone); h.set_version(fr::Http::RequestVersion::V1); return "";
            case 5: h.set_body(std::string(30, 'b')); return "";
            case 6:
            {
                std::string c = h.construct("host");       // the order of fields is free
                std::vector<std::string> lines; size_t p = 0, e = c.find("\r\n\r\n");
                while(p < e) { size_t q = c.find("\r\n", p); std::string l = c.substr(p, q - p); if(!p) std::sort(l.begin(), l.end()); lines.push_back(l); p = q + 2; }
                std::sort(lines.begin(), lines.end());
                std::string o; for(auto &l : lines) o += l + ";";
                std::string b = e == std::string::npos ? "" : c.substr(e); std::sort(b.begin(), b.end());
                return o + b;
            }
        }
        return "";
    }
    static std::string observe(H &h) { return fields(h); }
    static void moved(H &h) { h = H(); }
};
template<> struct Ops<fr::HttpRequest> : HttpOps<fr::HttpRequest> { static const char *name() { return "request"; } };
template<> struct Ops<fr::HttpResponse> : HttpOps<fr::HttpResponse> { static const char *name() { return "response"; } };

enum Value { CopyTo, AssignTo, MoveTo, MoveAssignTo, Self, Swap, Grow, NonConst, SelfMoveBack, VALUES };
static const char *valn[] = {"copy construction", "copy assignment", "move construction", "move assignment", "self-assignment", "swap", "through a growing vector", "copy construction from a variable", "moved away and back"};

template<class T> static void history(int depth, bool ops_first)
{
    using O = Ops<T>;
    Session sess;
    Line l; line = &l;
    struct Var { std::unique_ptr<T> o{new T()}; History h; bool moved = false; std::vector<std::string> results; };
    Var v[2];
    auto replayed = [](const History &h, std::vector<std::string> &results)
    {
        T fresh; History done; results.clear();
        for(int o : h) { results.push_back(O::apply(fresh, o, done)); done.push_back(o); }
        return O::observe(fresh);
    };
    auto compare = [&](const char *when)
    {
        for(int i = 0; i < 2; ++i)
        {
            if(v[i].moved) continue;
            std::vector<std::string> r;
            std::string want = replayed(v[i].h, r), got = O::observe(*v[i].o);
            if(want != got) mc::fail(std::string(O::name()) + " " + N(i) + " is " + mc::printable(got, 200) + " instead of " + mc::printable(want, 200) + " " + when);
            if(r != v[i].results) for(size_t k = 0; k < r.size(); ++k) if(r[k] != v[i].results[k]) mc::fail(std::string(O::name()) + " " + N(i) + ": operation " + N(v[i].h[k]) + " gave '" + mc::printable(v[i].results[k], 100) + "' instead of '" + mc::printable(r[k], 100) + "' " + when);
        }
    };
    for(int i = 0; i < depth; ++i)
    {
        int c = mc::choose((ops_first && i == 0 ? 0 : VALUES) + O::N_OPS, "step");
        int a = (ops_first && i == 0) ? 0 : mc::choose(2, "variable");
        Var &x = v[a], &y = v[1 - a];
        if(c < O::N_OPS)
        {
            if(x.moved) mc::abandon();
            MC_NOTE("* operation " + N(c) + " on " + N(a));
            x.results.push_back(O::apply(*x.o, c, x.h));
            x.h.push_back(c);
        }
        else
        {
            c -= O::N_OPS;
            if(x.moved) mc::abandon();
            MC_NOTE(std::string("* ") + valn[c] + " from " + N(a));
            auto give = [&] { y.h = x.h; y.results = x.results; y.moved = false; };
            switch(c)
            {
                case CopyTo: y.o.reset(new T(static_cast<const T &>(*x.o))); give(); break;
                case NonConst: { T t(*x.o); T u{t}; T w = u; y.o.reset(new T(w)); give(); break; }
                case AssignTo: *y.o = *x.o; give(); break;
                case MoveTo: y.o.reset(new T(std::move(*x.o))); give(); x.moved = true; break;
                case MoveAssignTo: *y.o = std::move(*x.o); give(); x.moved = true; break;
                case Self: { T &s = *x.o; *x.o = s; break; }
                case Swap: if(y.moved) mc::abandon(); std::swap(*x.o, *y.o); std::swap(x.h, y.h); std::swap(x.results, y.results); break;
                case Grow:
                {
                    std::vector<T> vec;
                    for(int k = 0; k < 5; ++k) vec.push_back(*x.o);        // the earlier ones are moved or copied each time
                    y.o.reset(new T(vec[0]));
                    *x.o = vec[4];
                    give();
                    break;
                }
                case SelfMoveBack: { T t(std::move(*x.o)); *x.o = std::move(t); break; }
            }
            for(auto &w : v) if(w.moved && mc::choose(2, "use what was moved from")) { O::moved(*w.o); w.o.reset(new T()); w.h.clear(); w.results.clear(); w.moved = false; }
        }
        compare("now");
    }
    uint64_t hash = 1;
    for(auto &w : v) { if(!w.moved) hash = mc::mix(hash, std::hash<std::string>()(O::observe(*w.o))); }
    // a copy lives longer than the original
    if(!v[0].moved) { std::unique_ptr<T> t(new T(*v[0].o)); v[0].o = std::move(t); compare("after the original was destroyed"); }
    v[0].o.reset(new T()); v[0].h.clear(); v[0].results.clear(); v[0].moved = false;
    compare("after the other one was destroyed");
    mc::outcome(hash);
}

void mc_register()
{
    mc::add("packet", 0, [] { history<fr::Packet>(mc::by_tier(3, 4), false); }, 8, 2);
    mc::add("packet/deep", 0, [] { history<fr::Packet>(mc::by_tier(4, 5), true); }, 8, 2);
    mc::add("client-frame", 0, [] { history<fr::ClientWebFrame>(mc::by_tier(3, 4), false); }, 8, 2);
    mc::add("server-frame", 0, [] { history<fr::ServerWebFrame>(mc::by_tier(3, 4), false); }, 8, 2);
    mc::add("url", 0, [] { history<fr::URL>(mc::by_tier(4, 5), false); }, 8, 2);
    mc::add("request", 0, [] { history<fr::HttpRequest>(mc::by_tier(3, 4), false); }, 8, 2);
    mc::add("request/deep", 0, [] { history<fr::HttpRequest>(mc::by_tier(4, 5), true); }, 8, 2);
    mc::add("response", 0, [] { history<fr::HttpResponse>(mc::by_tier(3, 4), false); }, 8, 2);
    mc::add("response/deep", 0, [] { history<fr::HttpResponse>(mc::by_tier(4, 5), true); }, 8, 2);
}
