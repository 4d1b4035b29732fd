// C24: objects in different threads do not interfere.
// Every operation is run alone and beside every other one, under every schedule with at most `bound` preemptions at
// synchronisation operations, system calls and (in the fine scenarios) accesses to global variables; every execution is a
// fresh process and is checked for data races.  Sockets and selectors are real ones here.
#include "ws_ref.hpp"
#include "tsched.hpp"
#include "frnetlib/Base64.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include "frnetlib/Packet.h"
#include "frnetlib/Sha1.h"
#include "frnetlib/SocketSelector.h"
#include "frnetlib/SSLContext.h"
#include "frnetlib/SSLListener.h"
#include "frnetlib/SSLSocket.h"
#include "frnetlib/TcpListener.h"
#include "frnetlib/URL.h"
#include "frnetlib/WebSocket.h"
#include <arpa/inet.h>
#include <map>
#include <netinet/in.h>
#include <sstream>
#include <unistd.h>
#include <sys/socket.h>

extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" ssize_t __real_recv(int, void *, size_t, int);
extern "C" int __real_close(int);
extern "C" int __real_socket(int, int, int);
extern "C" int __real_bind(int, const sockaddr *, socklen_t);
extern "C" int __real_connect(int, const sockaddr *, socklen_t);

namespace
{
    const std::string CERTS = [] { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/certs/"; }();

    // the operands of << are evaluated from left to right, unlike those of +
    struct Text : std::string { Text &operator<<(const std::string &s) { *this += s; return *this; } };
    // one end belongs to the library, the other one is used directly
    struct Pair
    {
        int a, b;
        Pair() { int f[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, f)) abort(); a = f[0]; b = f[1]; }
        ~Pair() { if(b >= 0) __real_close(b); }
        void give(fr::Socket &s) { int32_t fd = a; s.set_descriptor(&fd); }
        void put(const std::string &s) { if(__real_write(b, s.data(), s.size()) != (ssize_t) s.size()) abort(); }
        std::string take()
        {
            Text r; char buf[4096]; ssize_t n;
            while((n = __real_recv(b, buf, sizeof buf, MSG_DONTWAIT)) > 0) r.append(buf, (size_t) n);
            return r;
        }
    };
    std::string wire_frames(const std::string &w, bool client)
    {
        Text r; size_t pos = 0; ws::Frame f;
        while(pos < w.size() && ws::read(w, pos, f)) r += ws::show(f) + (f.masked == client ? "" : " WRONG MASK") + ";";
        return r + N((long long) (w.size() - pos)) + " left";
    }
    std::string V(int v) { return v ? "second" : "first"; }
    std::string packet_wire(const std::string &body) { std::string l(4, 0); uint32_t n = htonl((uint32_t) body.size() + 4); memcpy(&l[0], &n, 4); return l + body; }

    std::string frame_out(bool client, int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        Text r;
        for(int i = 0; i < 2; ++i)
        {
            auto f = ws::frame(client);
            f->set_payload(V(v) + " frame " + N(i)); f->set_opcode(i ? fr::WebFrame::Opcode::Binary : fr::WebFrame::Opcode::Text); f->set_final(i == v);
            r << sname(s.send(*f)) << " kept " << f->get_payload() << " ";
        }
        return r << wire_frames(p.take(), client);
    }
    std::string frame_in(bool client, int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        p.put(ws::write(V(v) + " a", 1, 1, !client) + ws::write(std::string(200, v ? 'x' : 'y'), 2, 0, !client));
        Text r;
        for(int i = 0; i < 2; ++i)
        {
            auto f = ws::frame(client);
            r << sname(s.receive(*f)) << " " << f->get_payload() << N((int) f->get_opcode()) << N(f->is_final()) << ";";
        }
        return r;
    }
    std::string packet_out(int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        fr::Packet k; k << V(v) << (uint32_t) (v + 7) << 2.5 << std::vector<std::string>{V(v), "b"} << true << (int64_t) -v;
        Text r; r << sname(s.send(k));
        return r << " " << mc::printable(p.take(), 400);
    }
    std::string packet_in(int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        fr::Packet k; k << V(v) << (uint16_t) 513 << 1.5f << std::map<std::string, uint8_t>{{V(v), 3}, {"z", 4}};
        Pair q; fr::TcpSocket t; q.give(t); t.send(k); p.put(q.take());
        fr::Packet g; Text r; std::string a; r << sname(s.receive(g)); uint16_t b; float c; std::map<std::string, uint8_t> m;
        g >> a >> b >> c >> m;
        r += a + N(b) + " " + N((long long) (c * 2)); for(auto &e : m) r += e.first + N(e.second);
        try { g >> b; r += " more"; } catch(const std::exception &e) { r += " end"; }
        return r;
    }
    std::string raw(int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        std::string d = V(v) + " raw data"; Text r; size_t n = 0; char buf[32];
        r << sname(s.send_raw(d.data(), d.size(), n)) << N((long long) n) << p.take();
        p.put(V(v) + "!"); r << sname(s.receive_raw(buf, sizeof buf, n)) << std::string(buf, n);
        p.put("0123456789"); r << sname(s.receive_all(buf, 10)) << std::string(buf, 10);
        r << N(s.connected()); s.disconnect(); r << N(s.connected());
        r << sname(s.send_raw("x", 1, n));
        return r;
    }
    std::string modes(int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        Text r; size_t n = 0; char buf[8];
        s.set_receive_timeout(v ? 1 : 2); s.set_send_timeout(3);
        r << sname(s.receive_raw(buf, 8, n));
        r << sname(s.set_blocking(false)) << N(s.get_blocking()) << sname(s.receive_raw(buf, 8, n)) << sname(s.set_blocking(true)) << N(s.get_blocking());
        p.put("abc"); r << sname(s.receive_raw(buf, 8, n)) << N((long long) n);
        __real_close(p.b); p.b = -1;
        r << sname(s.receive_raw(buf, 8, n));
        return r;
    }
    std::string request_text(int v) { return "POST /" + V(v) + "/x?a=1&" + V(v) + "=%41+b HTTP/1.1\r\nHost: h\r\nX-" + V(v) + ": " + V(v) + "\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 9\r\n\r\np=%3D&q=" + N(v); }
    std::string show(fr::Http &h)
    {
        std::string r = N((int) h.get_type()) + " " + h.get_uri() + " " + N((int) h.get_status()) + " " + N((int) h.get_version()) + " " + h.get_body();
        for(auto k : {"a", "first", "second"}) r += " " + N(h.get_exists(k)) + (h.get_exists(k) ? h.get(k) : "");
        for(auto k : {"p", "q"}) r += " " + N(h.post_exists(k)) + (h.post_exists(k) ? h.post(k) : "");
        for(auto k : {"X-First", "x-second", "Host", "content-length"}) r += " " + N(h.header_exists(k)) + (h.header_exists(k) ? h.header(k) : "");
        return r;
    }
    std::string request_parse(int v)
    {
        fr::HttpRequest q; std::string t = request_text(v);
        Text r; r << sname(q.parse(t.data(), 20)) << sname(q.parse(t.data() + 20, t.size() - 20));
        return r << show(q);
    }
    std::string request_build(int v)
    {
        fr::HttpRequest q;
        q.set_type(v ? fr::Http::RequestType::Put : fr::Http::RequestType::Get); q.set_uri("/" + V(v)); q.header("X-" + V(v)) = V(v); q.get("g") = V(v); q.set_version(v ? fr::Http::RequestVersion::V1 : fr::Http::RequestVersion::V1_1);
        if(v) q.set_body("body");
        return q.construct("host" + N(v));
    }
    std::string response_parse(int v)
    {
        fr::HttpResponse q;
        std::string t = v ? "HTTP/1.1 404 Not Found\r\nTransfer-Encoding: chunked\r\nX-Second: s\r\n\r\n3\r\nabc\r\n10;e=f\r\n0123456789abcdef\r\n0\r\n\r\n" : "HTTP/1.0 200 OK\r\nContent-Length: 5\r\nX-First: f\r\n\r\nhello";
        Text r; r << sname(q.parse(t.data(), 60)) << (t.size() > 60 ? sname(q.parse(t.data() + 60, t.size() - 60)) : "");
        return r << show(q);
    }
    std::string response_build(int v)
    {
        fr::HttpResponse q;
        q.set_status(v ? fr::Http::RequestStatus::NotFound : fr::Http::RequestStatus::Ok); q.set_body(V(v)); q.header("X-" + V(v)) = "1";
        return q.construct("h");
    }
    std::string http_socket(int v)
    {
        Pair p; fr::TcpSocket s; p.give(s);
        fr::HttpRequest q; q.set_uri("/" + V(v)); q.get("k") = V(v);
        Text r; r << sname(s.send(q)) << p.take();
        p.put(request_text(v)); fr::HttpRequest i; r << sname(s.receive(i)) << show(i);
        p.put("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"); fr::HttpResponse o; r << sname(s.receive(o)) << show(o);
        return r;
    }
    std::string urlcode(int v)
    {
        std::string s = v ? "a b&c=d/\xff" : "~{}|\"'%\n zz";
        std::string e = fr::Http::url_encode(s);
        return e + " " + mc::printable(fr::Http::url_decode(e)) + " " + mc::printable(fr::Http::url_decode(v ? "%4" : "%zz%41+b"));
    }
    std::string mime(int v)
    {
        Text r;
        for(auto n : v ? std::vector<std::string>{"a.png", "b.nosuch", "c.html", "", "x.nosuch2"} : std::vector<std::string>{"x.css", "noext", "y.z.json", "q.nosuch", "a.png"}) r += fr::Http::get_mimetype(n) + ";";
        return r;
    }
    std::string url(int v)
    {
        Text r;
        for(auto &t : v ? std::vector<std::string>{"HTTPS://Host.B:81/p?q=1#f", "ws://h", "b/c"} : std::vector<std::string>{"http://a.example/x/y?z#", "ftp://f:21", "nosuch://n/"})
        {
            fr::URL u(t); r += N((int) u.get_scheme()) + "," + u.get_host() + "," + u.get_port() + "," + u.get_path() + "," + u.get_query() + "," + u.get_fragment() + "," + u.get_url() + "," + u.get_uri() + ";";
            fr::URL w(t); r += N(u == w); w.set_host("other"); w.set_scheme(fr::URL::Scheme::HTTPS); r += N(u == w) + w.get_url();
        }
        r += fr::URL::scheme_to_string(v ? fr::URL::Scheme::SFTP : fr::URL::Scheme::HTTP) + N((int) fr::URL::string_to_scheme(v ? "ssh" : "wss"));
        return r;
    }
    std::string digests(int v)
    {
        return fr::Base64::encode(V(v) + V(v)) + fr::Base64::encode(fr::Sha1::sha1_digest(std::string(v ? 64 : 55, v ? 'p' : 'q'))) + fr::Base64::encode(fr::Sha1::sha1_digest(V(v)));
    }
    std::string names(int v)
    {
        Text r;
        for(int i = v; i < 22; i += 5) r += fr::Socket::status_to_string((fr::Socket::Status) i) + ";";
        r += fr::Http::request_type_to_string(v ? fr::Http::RequestType::Delete : fr::Http::RequestType::Get) + N((int) fr::Http::string_to_request_type(v ? "POST" : "PATCH")) + N((int) fr::Http::string_to_transfer_encoding(v ? "chunked" : "gzip"));
        return r;
    }
    std::string selector(int v)
    {
        fr::SocketSelector sel;
        Pair p, q; auto s = std::make_shared<fr::TcpSocket>(), t = std::make_shared<fr::TcpSocket>(); p.give(*s); q.give(*t);
        int o1 = 1, o2 = 2; Text r;
        sel.add(s, &o1); sel.add(t, &o2);
        r << N((long long) sel.wait(std::chrono::milliseconds(0)).size());
        (v ? p : q).put("x");
        for(auto &e : sel.wait(std::chrono::milliseconds(-1))) r += " " + std::string(e.first == s ? "s" : e.first == t ? "t" : "?") + N(e.second == &o1 ? 1 : e.second == &o2 ? 2 : 9);
        r << " " << N(sel.remove(v ? s : t) == (v ? (void *) &o1 : (void *) &o2));
        r << N((long long) sel.wait(std::chrono::milliseconds(1)).size());
        (v ? q : p).put("x");
        for(auto &e : sel.wait(std::chrono::milliseconds(5))) r += " " + std::string(e.first == s ? "s" : e.first == t ? "t" : "?") + N(e.second == &o1 ? 1 : e.second == &o2 ? 2 : 9);
        (v ? t : s)->disconnect();
        r << N((long long) sel.wait(std::chrono::milliseconds(0)).size());
        return r;
    }
    std::string port_of(int fd)
    {
        sockaddr_storage a; socklen_t l = sizeof a;
        if(getsockname(fd, (sockaddr *) &a, &l)) return "0";
        return N(ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6 *) &a)->sin6_port : ((sockaddr_in *) &a)->sin_port));
    }
    std::string hide(std::string s, const fr::TcpListener &l)     // ports differ from execution to execution
    {
        std::string p = port_of(l.get_socket_descriptor()); auto i = s.find(p);
        if(i != std::string::npos) s.replace(i, p.size(), "PORT");
        return s;
    }
    std::string connecting(int v)
    {
        fr::TcpListener l; Text r;
        if(v) l.set_inet_version(fr::Socket::IP::v4);
        r << sname(l.listen("0")) << N(l.connected());
        fr::TcpSocket c, a; c.set_inet_version(fr::Socket::IP::v4);
        r << sname(c.connect("127.0.0.1", port_of(l.get_socket_descriptor()), v ? std::chrono::seconds(5) : std::chrono::seconds(0)));
        r << sname(l.accept(a)) << N(c.connected()) << N(a.connected()) << hide(c.get_remote_address(), l) << (v ? a.get_remote_address() : "");
        fr::Packet p, q; std::string t; p << V(v); r << sname(c.send(p)) << sname(a.receive(q)); q >> t; r += t;
        c.disconnect(); char b; size_t n; r << sname(a.receive_raw(&b, 1, n));
        l.close_socket(); r << N(l.connected());
        return r;
    }
    std::string tls_objects(int v)
    {
        auto c = std::make_shared<fr::SSLContext>(); Text r;
        r << N(c->load_ca_certs_from_file(CERTS + (v ? "ca_a.pem" : "ca_b.pem"))) << N(c->load_ca_certs_from_memory("nonsense"));
        fr::SSLSocket s(c); s.verify_certificates(v); s.set_receive_timeout(5);
        char b; size_t n; r << N(s.connected()) << sname(s.receive_raw(&b, 1, n)) << sname(s.send_raw(&b, 1, n));
        fr::SSLListener l(c, CERTS + "good.pem", CERTS + "good.key"); r << sname(l.listen("0")) << N(l.connected()); l.shutdown();
        return r;
    }
    // a port where nobody listens
    std::string refused(int v)
    {
        int fd = __real_socket(AF_INET, SOCK_STREAM, 0); int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if(__real_bind(fd, (sockaddr *) &a, sizeof a)) abort();
        std::string port = port_of(fd);
        fr::TcpSocket s; s.set_inet_version(fr::Socket::IP::v4);
        Text r; r << sname(s.connect("127.0.0.1", port, v ? std::chrono::seconds(3) : std::chrono::seconds(0))) << N(s.connected());
        __real_close(fd);
        return r;
    }

    struct Operation { const char *name; std::function<std::string(int)> f; bool heavy; };
    const std::vector<Operation> &ops()
    {
        static const std::vector<Operation> o = {
            {"client frames out", [](int v) { return frame_out(true, v); }}, {"server frames out", [](int v) { return frame_out(false, v); }},
            {"client frames in", [](int v) { return frame_in(true, v); }}, {"server frames in", [](int v) { return frame_in(false, v); }},
            {"packet out", packet_out}, {"packet in", packet_in}, {"raw", raw}, {"modes", modes}, {"request parse", request_parse}, {"request build", request_build},
            {"response parse", response_parse}, {"response build", response_build}, {"http on a socket", http_socket}, {"url coding", urlcode}, {"mime", mime}, {"url", url},
            {"digests", digests}, {"names", names}, {"selector", selector}, {"connecting", connecting}, {"refused", refused}, {"tls objects", tls_objects, true}};
        return o;
    }

    // what a schedule is judged by: the results, given what they must be
    using Judge = std::function<std::string(const std::vector<std::string> &)>;
    // every schedule with at most `bound` preemptions; this execution is one of them
    void explore(const std::string &key, const std::vector<ts::Op> &threads, const Judge &judge, int bound, bool fine, const ts::Op &before = nullptr, const ts::Op &after = nullptr)
    {
        static std::map<std::string, int> points;     // of the schedules already run in this process
        static std::string whose;
        if(whose != key) { whose = key; points.clear(); }
        std::vector<int> pre; std::string at;
        for(int depth = 0;; ++depth)
        {
            auto m = points.find(at);
            if(m == points.end() || mc::tracing)
            {
                ts::Run r = ts::run(threads, pre, fine, mc::tracing, before, after);
                if(mc::tracing)
                {
                    MC_NOTE("--- " + key + ", preempted at point " + (at.empty() ? "none" : at.substr(1)) + " of " + N(r.points));
                    std::istringstream in(r.log); std::string l; while(std::getline(in, l)) mc::note_(l);
                }
                uint64_t h = mc::hash(key);
                for(size_t i = 0; i < r.results.size(); ++i) { MC_NOTE("thread " + std::string(1, (char) ('A' + i)) + ": " + mc::printable(r.results[i], 300)); h = mc::hash(r.results[i], h); }
                mc::outcome(h);
                MC_CHECK(r.error.empty(), key + ": " + r.error);
                std::string bad = judge(r.results);
                MC_CHECK(bad.empty(), key + ": " + bad);
                if(depth < bound) m = points.insert({at, r.points}).first;
            }
            if(depth == bound) return;
            int from = pre.empty() ? 0 : pre.back() + 1, n = m->second - from;
            if(n <= 0) return;
            int k = mc::choose(n + 1, "next preemption");
            if(!k) return;
            pre.push_back(from + k - 1); at += "," + N(pre.back());
        }
    }
    std::string alone(const Operation &o, int v)
    {
        static std::map<std::string, std::string> memo;
        auto k = o.name + N(v); auto i = memo.find(k);
        if(i != memo.end()) return i->second;
        ts::Run r = ts::run({[&] { return o.f(v); }}, {}, false, mc::tracing);
        if(mc::tracing) { std::istringstream in(r.log); std::string l; while(std::getline(in, l)) mc::note_(l); }
        MC_CHECK(r.error.empty(), std::string(o.name) + " alone: " + r.error);
        MC_CHECK(!r.results[0].empty() && r.results[0].compare(0, 9, "exception"), std::string(o.name) + " alone: " + r.results[0]);
        MC_NOTE(std::string(o.name) + " alone: " + mc::printable(r.results[0], 300));
        return memo[k] = r.results[0];
    }
    void beside(size_t i, int bound, bool fine)
    {
        size_t j = i + (size_t) mc::choose((int) (ops().size() - i), "the other operation");
        const Operation *a = &ops()[i], *b = &ops()[j]; int va = 0, vb = 1;
        if(mc::choose(2, "who starts")) { std::swap(a, b); std::swap(va, vb); }
        if(a->heavy || b->heavy) bound = std::min(bound, fine && !mc::thorough() ? 0 : 1);
        std::string wa = alone(*a, va), wb = alone(*b, vb);
        explore(std::string(a->name) + " beside " + b->name, {[=] { return a->f(va); }, [=] { return b->f(vb); }},
            [=](const std::vector<std::string> &r) {
                if(r[0] != wa) return std::string(a->name) + " gives '" + mc::printable(r[0], 500) + "' instead of '" + mc::printable(wa, 500) + "'";
                if(r[1] != wb) return std::string(b->name) + " gives '" + mc::printable(r[1], 500) + "' instead of '" + mc::printable(wb, 500) + "'";
                return std::string();
            }, bound, fine);
    }
    Judge must(const std::vector<std::string> &want)
    {
        return [want](const std::vector<std::string> &r) {
            for(size_t i = 0; i < want.size(); ++i)
                if(r[i] != want[i]) return std::string("thread ") + (char) ('A' + i) + " gives '" + mc::printable(r[i], 500) + "' instead of '" + mc::printable(want[i], 500) + "'";
            return std::string();
        };
    }
    // --- threads that work together; these objects live in the process of the execution ---
    fr::TcpSocket *sock[2]; fr::TcpListener *lis; Pair *pair_;
    int both_ends()
    {
        int f[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, f)) abort();
        for(int i = 0; i < 2; ++i) { sock[i] = new fr::TcpSocket; int32_t fd = f[i]; sock[i]->set_descriptor(&fd); }
        return 0;
    }
    std::string listening() { lis = new fr::TcpListener; lis->set_inet_version(fr::Socket::IP::v4); return lis->listen("0") == Status::Success ? "" : "listen fails"; }

    void same_socket(int what, int bound)
    {
        auto before = [=] {
            sock[0] = new fr::TcpSocket; pair_ = new Pair; pair_->give(*sock[0]);
            fr::Packet k; k << std::string("incoming"); std::string w; { Pair q; fr::TcpSocket t; q.give(t); t.send(k); w = q.take(); }
            if(what == 0) pair_->put(w + w);
            if(what == 1) pair_->put(ws::write("one", 1, 1, true) + ws::write(std::string(300, 'k'), 2, 1, true));
            if(what == 2) pair_->put("raw bytes");
            if(what == 3) pair_->put(request_text(0));
            return std::string();
        };
        auto out = [=] {
            Text r;
            if(what == 0) for(int i = 0; i < 2; ++i) { fr::Packet k; k << std::string("outgoing") << (uint32_t) i; r << sname(sock[0]->send(k)); }
            if(what == 1) for(int i = 0; i < 2; ++i) { fr::ServerWebFrame f; f.set_payload("out" + N(i)); r << sname(sock[0]->send(f)); }
            if(what == 2) { size_t n; r << sname(sock[0]->send_raw("abcdef", 6, n)) << N((long long) n) << sname(sock[0]->send_raw("gh", 2, n)) << N((long long) n); }
            if(what == 3) { fr::HttpResponse h; h.set_body("answer"); r << sname(sock[0]->send(h)); }
            std::string w = pair_->take();
            return r << (what == 1 ? wire_frames(w, false) : mc::printable(w, 400)) << N(sock[0]->connected());
        };
        auto in = [=] {
            Text r;
            if(what == 0) for(int i = 0; i < 2; ++i) { fr::Packet k; std::string t; r << sname(sock[0]->receive(k)); k >> t; r += t; }
            if(what == 1) for(int i = 0; i < 2; ++i) { fr::ServerWebFrame f; r << sname(sock[0]->receive(f)) << f.get_payload(); }
            if(what == 2) { size_t n; char b[20]; r << sname(sock[0]->receive_all(b, 3)) << std::string(b, 3); r << sname(sock[0]->receive_raw(b, 20, n)) << std::string(b, n); }
            if(what == 3) { fr::HttpRequest h; r << sname(sock[0]->receive(h)) << show(h); }
            return r << N(sock[0]->connected()) << N(sock[0]->get_blocking()) << sock[0]->get_remote_address();
        };
        static const char *names[] = {"packets", "frames", "raw data", "HTTP messages"};
        std::string key = std::string("sending and receiving ") + names[what] + " on one socket";
        ts::Run a = ts::run({out}, {}, false, false, before), b = ts::run({in}, {}, false, false, before);
        MC_CHECK(a.error.empty() && b.error.empty(), key + ", alone: " + a.error + b.error);
        MC_NOTE("alone: " + mc::printable(a.results[0], 300)); MC_NOTE("alone: " + mc::printable(b.results[0], 300));
        if(mc::choose(2, "who starts")) explore(key + ", receiver first", {in, out}, must({b.results[0], a.results[0]}), bound, false, before);
        else explore(key, {out, in}, must({a.results[0], b.results[0]}), bound, false, before);
    }
    void packets_to_and_fro(int bound)
    {
        auto before = [] { both_ends(); return std::string(); };
        auto ask = [] {
            Text r;
            for(int i = 0; i < 2; ++i) { fr::Packet p, q; p << "question" << i; std::string t; int n; r << sname(sock[0]->send(p)) << sname(sock[0]->receive(q)); q >> t >> n; r += t + N(n); }
            sock[0]->disconnect();
            return r;
        };
        auto answer = [] {
            Text r; std::string t; int n;
            for(;;) { fr::Packet p; Status st = sock[1]->receive(p); r += sname(st); if(st != Status::Success) return r; p >> t >> n; fr::Packet q; q << t + "!" << n + 1; r << sname(sock[1]->send(q)); }
        };
        std::vector<std::string> want = {"SuccessSuccessquestion!1SuccessSuccessquestion!2", "SuccessSuccessSuccessSuccessDisconnected"};
        if(mc::choose(2, "who starts")) explore("packets answered", {answer, ask}, must({want[1], want[0]}), bound, false, before);
        else explore("packets asked", {ask, answer}, must(want), bound, false, before);
    }
    void http_exchange(int bound)
    {
        auto before = [] { both_ends(); return std::string(); };
        auto client = [] {
            fr::HttpRequest q; q.set_type(fr::Http::RequestType::Put); q.set_uri("/u"); q.set_body(std::string(100, 'b'));
            Text r; r << sname(sock[0]->send(q)); fr::HttpResponse a; r << sname(sock[0]->receive(a)); return r << a.get_body() << N((int) a.get_status());
        };
        auto server = [] {
            fr::HttpRequest q; Text r; r << sname(sock[1]->receive(q)) << q.get_uri() << N((long long) q.get_body().size());
            fr::HttpResponse a; a.set_body("for " + q.get_uri()); r << sname(sock[1]->send(a)); return r;
        };
        std::vector<std::string> want = {"SuccessSuccessfor /u200", "Success/u100Success"};
        if(mc::choose(2, "who starts")) explore("HTTP served", {server, client}, must({want[1], want[0]}), bound, false, before);
        else explore("HTTP requested", {client, server}, must(want), bound, false, before);
    }
    void web_session(int bound)
    {
        auto before = [] { return listening(); };
        auto client = [] {
            fr::WebSocket<fr::TcpSocket> w; w.set_inet_version(fr::Socket::IP::v4);
            Text r; r << sname(w.connect("127.0.0.1", port_of(lis->get_socket_descriptor()), "/p", {}, std::chrono::seconds(0)));
            fr::ClientWebFrame f, g; f.set_payload("hello"); r << sname(w.send(f)) << sname(w.receive(g)) << g.get_payload();
            w.disconnect(); return r << N(w.connected());
        };
        auto server = [] {
            fr::WebSocket<fr::TcpSocket> w; Text r; r << sname(lis->accept(w));
            fr::ServerWebFrame f; r << sname(w.receive(f)) << f.get_payload(); fr::ServerWebFrame g; g.set_payload("re " + f.get_payload()); r << sname(w.send(g));
            fr::ServerWebFrame h; Status st = w.receive(h); r += sname(st); if(st == Status::Success) r += N((int) h.get_opcode());
            return r;
        };
        std::vector<std::string> want = {"SuccessSuccessSuccessre hello0", "SuccessSuccesshelloSuccessSuccess8"};
        if(mc::choose(2, "who starts")) explore("WebSocket accepted", {server, client}, must({want[1], want[0]}), bound, false, before);
        else explore("WebSocket connected", {client, server}, must(want), bound, false, before);
    }
    // two clients at one server, whose sockets are its own
    void two_clients(int bound)
    {
        auto before = [] { return listening(); };
        auto client = [](int v) {
            fr::TcpSocket c; c.set_inet_version(fr::Socket::IP::v4);
            Text r; std::string t; r << sname(c.connect("127.0.0.1", port_of(lis->get_socket_descriptor()), std::chrono::seconds(v ? 5 : 0)));
            fr::Packet p, q; p << V(v); r << sname(c.send(p)) << sname(c.receive(q)); q >> t; return r << t;
        };
        auto server = [] {
            fr::TcpSocket a[2]; Text r; std::string t;
            for(auto &s : a) r << sname(lis->accept(s));
            for(auto &s : a) { fr::Packet p, q; r << sname(s.receive(p)); p >> t; q << "to " + t; r << sname(s.send(q)); }
            return r;
        };
        std::vector<std::string> want = {"SuccessSuccessSuccessto first", "SuccessSuccessSuccessto second", "SuccessSuccessSuccessSuccessSuccessSuccess"};
        switch(mc::choose(2, "who starts"))
        {
            case 0: explore("two clients at a server", {[=] { return client(0); }, [=] { return client(1); }, server}, must(want), bound, false, before); break;
            default: explore("a server for two clients", {server, [=] { return client(1); }, [=] { return client(0); }}, must({want[2], want[1], want[0]}), bound, false, before); break;
        }
    }
    // shutdown() makes a call that blocks in another thread return
    void woken(int what, int bound)
    {
        auto before = [=] { if(what < 2) { sock[0] = new fr::TcpSocket; pair_ = new Pair; pair_->give(*sock[0]); if(what == 1) pair_->put(std::string("\0\0", 2)); return std::string(); } return listening(); };
        auto waits = [=] {
            char b; size_t n = 0; fr::Packet p; fr::TcpSocket a;
            if(what == 0) return sname(sock[0]->receive_raw(&b, 1, n));
            if(what == 1) return sname(sock[0]->receive(p));
            Status st = lis->accept(a);
            return std::string(st == Status::Success ? "accepted" : "failed") + N(a.connected());
        };
        auto stops = [=] { if(what < 2) sock[0]->shutdown(); else lis->shutdown(); return std::string("done"); };
        static const char *names[] = {"receive_raw", "receive", "accept"};
        explore(std::string("shutdown wakes ") + names[what], {waits, stops}, must({what < 2 ? "Disconnected" : "failed0", "done"}), bound, false, before);
    }
    // the two ends of a TLS connection, each with a context of its own
    void tls_session(int bound)
    {
        static fr::SSLListener *l;
        auto before = [] { l = new fr::SSLListener(std::make_shared<fr::SSLContext>(), CERTS + "good.pem", CERTS + "good.key"); l->set_inet_version(fr::Socket::IP::v4); return std::string(l->listen("0") == Status::Success ? "" : "listen fails"); };
        auto client = [] {
            auto c = std::make_shared<fr::SSLContext>(); c->load_ca_certs_from_file(CERTS + "ca_a.pem");
            fr::SSLSocket s(c); s.set_inet_version(fr::Socket::IP::v4); s.verify_certificates(false);
            Text r; std::string t; r << sname(s.connect("127.0.0.1", port_of(l->get_socket_descriptor()), std::chrono::seconds(0)));
            fr::Packet p, q; p << "secret"; r << sname(s.send(p)) << sname(s.receive(q)); q >> t; return r << t;
        };
        auto server = [] {
            fr::SSLSocket s(std::make_shared<fr::SSLContext>()); Text r; std::string t; r << sname(l->accept(s));
            fr::Packet p, q; r << sname(s.receive(p)); p >> t; q << "re " + t; return r << sname(s.send(q));
        };
        if(mc::choose(2, "who starts")) explore("TLS accepted", {server, client}, must({"SuccessSuccessSuccess", "SuccessSuccessSuccessre secret"}), bound, false, before);
        else explore("TLS connected", {client, server}, must({"SuccessSuccessSuccessre secret", "SuccessSuccessSuccess"}), bound, false, before);
    }
}

void mc_register()
{
    const int b = mc::by_tier(2, 3);
    for(size_t i = 0; i < ops().size(); ++i)
    {
        mc::add(std::string(ops()[i].name) + " beside others", 0, [=] { beside(i, b - 1, false); }, 8, 2);
        mc::add(std::string(ops()[i].name) + " beside others, global accesses", 0, [=] { beside(i, 1, true); }, 8, 2);
    }
    for(int w = 0; w < 4; ++w) mc::add("one socket " + N(w), 0, [=] { same_socket(w, b + 1); }, 4, 2);
    mc::add("packets to and fro", 0, [=] { packets_to_and_fro(b); }, 4, 2);
    mc::add("HTTP exchange", 0, [=] { http_exchange(b); }, 4, 2);
    mc::add("web session", 0, [=] { web_session(b - 1); }, 4, 2);
    mc::add("two clients", 0, [=] { two_clients(b); }, 8, 2);
    for(int w = 0; w < 3; ++w) mc::add("woken " + N(w), 0, [=] { woken(w, b + 1); });
    mc::add("TLS session", 0, [=] { tls_session(b - 1); }, 8, 2);
}
