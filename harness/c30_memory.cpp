// C30: memory is given back.  Every heap block obtained while the library runs - by the library itself, by mbedtls on its behalf, by name
// resolution - has been returned once the objects are gone, and a living object doesn't grow with the number of operations it has done.
// Blocks that are obtained once and for all (a cache) are told apart by running the same history again: they don't come a second time.
#ifdef TLS
#define TLS_BUFFERS
#endif
#ifdef REAL
#define TLS_DEFINE
#include "tls.hpp"
#include "frnetlib/WebSocket.h"
#else
#include "sockets.hpp"
#include "frnetlib/SocketSelector.h"
#endif
#include "ws_ref.hpp"
#include "crypto_ref.hpp"
#include "frnetlib/Packet.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include "frnetlib/URL.h"
#include "frnetlib/Sha1.h"
#include "frnetlib/Base64.h"
#include <sys/socket.h>
#include <unistd.h>
using namespace simk;

#define LIB(...) [&] { mc::Inside in_; return __VA_ARGS__; }()

static std::string be32(size_t n) { std::string r; for(int x = 24; x >= 0; x -= 8) r += (char) (n >> x); return r; }

#ifdef REAL
static std::shared_ptr<fr::SSLContext> context() { static auto c = std::make_shared<fr::SSLContext>(); return c; }
struct Sock : fr::SSLSocket { Sock() : fr::SSLSocket(context()) { verify_certificates(false); } };
struct WS : fr::WebSocket<fr::SSLSocket> { WS() : fr::WebSocket<fr::SSLSocket>(context()) { verify_certificates(false); } };
struct Lst : fr::SSLListener { Lst() : fr::SSLListener(context(), cert_dir() + "rsa.pem", cert_dir() + "rsa.key") {} };
struct Net
{
    std::map<unsigned, std::unique_ptr<Peer>> peers;
    Peer &of(File &f)
    {
        auto &p = peers[f.id];
        if(!p)
        {
            if(f.addr.compare(0, 5, "10.1.") == 0) p.reset(new Peer(false, nullptr, nullptr, MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256));
            else p.reset(new Peer(true, &Identity::get("rsa").crt, &Identity::get("rsa").key, MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256));
            p->f = &f;
        }
        return *p;
    }
    void begin() { rnd::counter = 1; cfg.on_idle = [this](File &f) { of(f).step(); if(f.rxpos == f.rx.size()) f.eof = true; }; }
    void give(const FileP &f, const std::string &s) { of(*f).send(s); }
};
#else
struct Net
{
    void begin() { cfg.on_idle = [](File &f) { f.eof = true; }; }       // who has nothing more to say hangs up
    void give(const FileP &f, const std::string &s) { f->rx += s; }
};
#endif

static bool g_bad, g_cut;
static void ws_server(File &f)
{
    size_t e = f.tx.find("\r\n\r\n");
    if(e == std::string::npos || !f.rx.empty() || f.eof) return;
    if(g_cut) { f.rx = "HTTP/1.1 101 Swi"; f.eof = true; return; }
    if(g_bad) { f.rx = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"; return; }
    std::string low = f.tx; for(auto &c : low) c = (char) tolower(c);
    size_t k = low.find("sec-websocket-key:");
    if(k == std::string::npos) return;
    k += 18; while(f.tx[k] == ' ') ++k;
    std::string key = f.tx.substr(k, f.tx.find("\r\n", k) - k);
    f.rx = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + ref::accept(key) + "\r\n\r\n";
}
static const char WS_REQUEST[] = "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\n\r\n";

enum Op { Connect, ConnectSecond, ConnectLater, ConnectRefused, ConnectNone, ConnectNever, HandshakeCut, HandshakeBad, Accept, AcceptBad, Attach, AttachBad,
    Disconnect, Renew, Detach, Options, SendRaw, SendPacket, SendBig, SendHttp, SendFrame, RecvPacket, RecvBigPacket, RecvOversize, RecvHttp, RecvRequest, RecvBadHttp, RecvFrame, RecvLongFrame, RecvBadFrame, RecvHuge, PeerCloses, OPS };
static const char *opn[] = {"connect", "connect, second address", "connect, later", "connect, refused", "connect, no address", "connect, no answer", "connect, handshake cut off", "connect, handshake refused", "accept", "accept, bad client",
    "attach", "attach, bad client", "disconnect", "destroyed and made anew", "set_descriptor(nullptr)", "set options", "send_raw", "send(Packet)", "send(big Packet)", "send(HttpRequest)", "send(frame)",
    "receive(Packet)", "receive(big Packet)", "receive(Packet over the limit)", "receive(HttpResponse)", "receive(HttpRequest)", "receive(bad HttpResponse)", "receive(frame)", "receive(long frame)", "receive(bad frame)", "receive(Packet of 2 GB)", "peer closes"};

template<class S> struct World
{
    bool web;
    unsigned round = 0;                // what is sent and received differs from round to round
    std::string R() const { return N(1000 + round); }
    Net net;
    std::unique_ptr<Lst> l;
    std::unique_ptr<S> s;
    explicit World(bool web_) : web(web_) { net.begin(); g_bad = g_cut = false; s.reset(LIB(new S())); s->set_max_receive_size(100000); hook(); }
    void hook() { cfg.on_tx = nullptr; if(web) { cfg.on_tx = [](File &f) { ws_server(f); }; } }
    FileP file() { return get(s->get_socket_descriptor()); }
    bool connected() { return s->connected() && s->get_socket_descriptor() >= 0; }
    void connect(Plan p, int addresses = 1)
    {
        cfg.addrs.clear();
        for(int i = 1; i <= addresses; ++i) cfg.addrs.push_back("10.0.0." + N(i));
        cfg.plan = [p, addresses](const std::string &a) { return addresses == 2 && a == "10.0.0.1" ? RefusedAtOnce : p; };
        LIB((void) s->connect("host" + R() + ".example.org", "80", std::chrono::seconds(2)));
    }
    bool give(const std::string &b)
    {
        mc::Outside outside_;
        if(!connected()) return false;
        auto f = file(); if(!f || f->eof || f->broken) return false;
        if(f->rxpos < f->rx.size()) return true;       // there is something to read
        net.give(f, b); return true;
    }
    template<class M> void receive(const std::string &b)
    {
        if(!give(b)) return;
        mc::Inside in_; M m; (void) s->receive(m);
    }
    template<class M, class F> void send(F fill) { mc::Inside in_; M m; fill(m); (void) s->send(m); }
    bool op(int o)
    {
        MC_NOTE(std::string("* ") + opn[o]);
        switch(o)
        {
            case Connect: connect(OkAtOnce); break;
            case ConnectSecond: connect(OkAtOnce, 2); break;
            case ConnectLater: connect(OkLater, 2); break;
            case ConnectRefused: connect(RefusedLater, 2); break;
            case ConnectNone: connect(OkAtOnce, 0); break;
            case ConnectNever: connect(NeverAnswers); break;
#ifdef REAL
            case HandshakeCut: { cfg.on_idle = [](File &f) { f.eof = true; }; connect(OkAtOnce); net.begin(); break; }
            case HandshakeBad: { cfg.on_idle = [](File &f) { if(f.rx.empty()) f.rx = "HTTP/1.1 400 Bad Request\r\n\r\n"; else f.eof = true; }; connect(OkAtOnce); net.begin(); break; }
#else
            case HandshakeCut: if(!web) return false; g_cut = true; connect(OkAtOnce); g_cut = false; break;
            case HandshakeBad: if(!web) return false; g_bad = true; connect(OkAtOnce); g_bad = false; break;
#endif
            case Accept: case AcceptBad:
            {
                if(web) return false;
#ifndef REAL
                if(o == AcceptBad) return false;
#endif
                if(!l) l.reset(LIB(new Lst()));
                cfg.addrs = {"0.0.0.0"};
                if(!l->connected()) LIB((void) l->listen("80"));
                if(!l->connected()) break;
                auto lf = get(l->get_socket_descriptor());
                lf->backlog.push_back("10.1.1.1");
                if(o == AcceptBad) cfg.on_idle = [](File &f) { if(f.rx.empty()) f.rx = "GET / HTTP/1.1\r\n\r\n"; else f.eof = true; };
                LIB((void) l->accept(*s));
                lf->backlog.clear();
                net.begin();
                break;
            }
#ifndef REAL
            case Attach: case AttachBad:
            {
                if(!web && o == AttachBad) return false;
                cfg.on_tx = nullptr;
                auto f = open_connected();
                if(web) f->rx = o == Attach ? WS_REQUEST : "GET / HTTP/1.1\r\nHost: h\r\n\r\n";
                f->eof = o == AttachBad;
                LIB([&] { try { attach(*s, f); } catch(const std::exception &) {} }());
                hook();
                break;
            }
#else
            case Attach: case AttachBad: return false;
#endif
            case Disconnect: LIB(s->disconnect()); break;
            case Renew: LIB(s.reset()); s.reset(LIB(new S())); s->set_max_receive_size(100000); break;
            case Detach: { auto f = file(); LIB(s->set_descriptor(nullptr)); if(f && !f->gone) f->foreign = true; break; }
            case Options: LIB([&] { s->set_receive_timeout(1500); s->set_max_receive_size(90000); s->set_inet_version(fr::Socket::IP::v4); (void) s->set_blocking(true); s->set_remote_address("a rather long remote address:12345"); }()); break;
            case SendRaw: { std::string d = pattern(100); size_t n = 0; LIB((void) s->send_raw(d.data(), d.size(), n)); break; }
            case SendPacket: send<fr::Packet>([&](fr::Packet &p) { p << ("abc" + R()) << 5; }); break;
            case SendBig: send<fr::Packet>([&](fr::Packet &p) { p << std::string(5000, 'x'); }); break;
            case SendHttp: send<fr::HttpRequest>([&](fr::HttpRequest &r) { r.set_uri("/a/rather/long/path/to/" + R() + "?x=y" + R()); r.get("Some-Argument" + R()) = "a b" + R(); r.header("Some-Header" + R()) = "with a value that is rather long"; r.set_body(std::string(300, 'b')); }); break;
            case SendFrame: send<fr::ClientWebFrame>([&](fr::ClientWebFrame &f) { f.set_payload(std::string(200, 'p')); }); break;
            case RecvPacket: receive<fr::Packet>(be32(7) + "abc" + R()); break;
            case RecvBigPacket: receive<fr::Packet>(be32(3000) + std::string(3000, 'x')); break;
            case RecvOversize: s->set_max_receive_size(8); receive<fr::Packet>(be32(1000) + "oversized"); s->set_max_receive_size(100000); break;
            case RecvHttp: receive<fr::HttpResponse>("HTTP/1.1 200 OK\r\nSome-Header-" + R() + ": with a value that is rather long\r\nContent-Length: 30\r\n\r\n" + std::string(30, 'b')); break;
            case RecvRequest: receive<fr::HttpRequest>("POST /path" + R() + "?a" + R() + "=%20" + R() + " HTTP/1.1\r\nSome-Header: with a value that is rather long " + R() + "\r\nContent-Length: 31\r\n\r\npost" + R() + "=" + std::string(22, 'b')); break;
            case RecvBadHttp: receive<fr::HttpResponse>("HTTP/1.1 abc OK\r\nSome-Header: with a value that is rather long\r\nContent-Length: x\r\n\r\n"); break;
            case RecvFrame: receive<fr::ClientWebFrame>(std::string("\x81\x03uvw") + std::string("\x89\x02hi") + std::string("\x01\x03uvw") + std::string("\x80\x03xyz")); break;
            case RecvLongFrame: receive<fr::ClientWebFrame>(std::string("\x82\x7e\x0b\xb8", 4) + std::string(3000, 'f')); break;
            case RecvBadFrame: receive<fr::ClientWebFrame>(std::string("\x83\x7f\xff\xff\xff\xff\xff\xff\xff\xff", 10) + "frame"); break;
            case RecvHuge: s->set_max_receive_size(0); LIB([&] { try { receive<fr::Packet>(be32(0x90000000u) + std::string(100, 'h')); } catch(const std::bad_alloc &) {} }()); s->set_max_receive_size(100000); break;
            case PeerCloses: if(!give(be32(300) + "cut off")) return true; if(auto f = file()) f->eof = true; LIB([&] { fr::Packet p; (void) s->receive(p); }()); break;
            default: return false;
        }
        return true;
    }
    void destroy() { LIB(s.reset()); LIB(l.reset()); }
};

static void settle(size_t since, const std::function<void()> &run)
{
    if(!mc::mem_live()) return;
    std::string first = mc::mem_report();
    MC_NOTE("** " + first + " left; once more");
    mc::mem_begin();
    mc::again(since, run);
    if(mc::mem_live()) mc::fail("memory is not given back: " + mc::mem_report() + " obtained by the library are left after everything was destroyed (" + first + " the first time)");
}

// every history up to a depth
template<class S> static void history(bool web, int depth, bool data = false)
{
    int ops[16];
    for(int i = 0; i < depth; ++i) ops[i] = mc::choose(OPS, "operation");
    size_t m = mc::mark();
    auto run = [&]
    {
        Session sess;
        World<S> w(web);
        cfg.faults = true;
        if(data) { cfg.rx_errs = {ECONNRESET, EAGAIN}; cfg.tx_errs = {EPIPE, EAGAIN}; cfg.rx_eof = true; cfg.tx_short = true; }
        for(int i = 0; i < depth; ++i) if(!w.op(ops[i])) mc::abandon();
        cfg.faults = false;
        w.destroy();
    };
    run();
    settle(m, run);
    uint64_t h = 0; for(int i = 0; i < depth; ++i) h = mc::mix(h, (uint64_t) ops[i] + 1);
    mc::outcome(h);
}

// the same operations over and over on objects that live on
static size_t rounds(int n, const std::function<void()> &once, const char *what)
{
    size_t live[3] = {0, 0, 0};
    for(int i = 0; i < n; ++i)
    {
        once();
        if(i + 1 == n / 4) live[0] = mc::mem_live();
        if(i + 1 == n / 2) live[1] = mc::mem_live();
    }
    live[2] = mc::mem_live();
    if(live[0] < live[1] && live[1] < live[2])
        mc::fail(std::string(what) + " keeps more and more memory: " + N((long long) live[0]) + ", " + N((long long) live[1]) + ", " + N((long long) live[2]) + " bytes after " + N(n / 4) + ", " + N(n / 2) + ", " + N(n) + " rounds");
    return live[2];
}
template<class S> static void repeat(bool web, int cycle, int n)
{
    int ops[8];
    for(int i = 0; i < cycle; ++i) ops[i] = mc::choose(OPS, "operation");
    Session sess;
    World<S> w(web);
    cfg.max_calls = 20000000;
    bool ok = true;
    rounds(n, [&] { for(int i = 0; i < cycle && ok; ++i) ok = w.op(ops[i]); ++w.round; }, "a socket");
    if(!ok) mc::abandon();
    w.destroy();
    mc::outcome((uint64_t) ops[0] * OPS + (uint64_t) ops[cycle - 1]);
}

// listeners
enum LOp { LListen, LListenFails, LAccept, LAcceptNone, LAcceptOther, LShutdown, LClose, LRenew, LMove, LOPS };
struct LWorld
{
    std::unique_ptr<Lst> l{LIB(new Lst())};
    std::unique_ptr<Sock> a{LIB(new Sock())}, b{LIB(new Sock())};
    Net net;
    LWorld() { net.begin(); }
    bool op(int o)
    {
        MC_NOTE("* listener operation " + N(o));
        switch(o)
        {
            case LListen: cfg.addrs = {"0.0.0.0", "::"}; LIB((void) l->listen("80")); break;
            case LListenFails: cfg.addrs.clear(); LIB((void) l->listen("80")); break;
            case LAccept: case LAcceptOther:
                if(auto f = get(l->get_socket_descriptor())) { if(f->st == Listening) f->backlog.push_back("10.1.1.1"); else return true; } else return true;
                LIB((void) l->accept(o == LAccept ? *a : *b)); if(auto f = get(l->get_socket_descriptor())) f->backlog.clear(); break;
            case LAcceptNone: if(get(l->get_socket_descriptor())) return false; LIB((void) l->accept(*a)); break;
            case LShutdown: LIB(l->shutdown()); break;
            case LClose: LIB(l->close_socket()); break;
            case LRenew: LIB(l.reset()); l.reset(LIB(new Lst())); break;
            case LMove:
#if defined(TLS) || defined(REAL)
                return false;
#else
                { std::unique_ptr<Lst> n(LIB(new Lst(std::move(*l)))); LIB(l.reset()); l = std::move(n); break; }
#endif
        }
        return true;
    }
    void destroy() { LIB(l.reset()); LIB(a.reset()); LIB(b.reset()); }
};
static void listeners(int depth)
{
    int ops[16];
    for(int i = 0; i < depth; ++i) ops[i] = mc::choose(LOPS, "operation");
    size_t m = mc::mark();
    auto run = [&]
    {
        Session sess;
        LWorld w;
        cfg.faults = true;
        for(int i = 0; i < depth; ++i) if(!w.op(ops[i])) mc::abandon();
        cfg.faults = false;
        w.destroy();
    };
    run();
    settle(m, run);
    uint64_t h = 7; for(int i = 0; i < depth; ++i) h = mc::mix(h, (uint64_t) ops[i] + 1);
    mc::outcome(h);
}
static void listeners_repeat(int cycle, int n)
{
    int ops[8];
    for(int i = 0; i < cycle; ++i) ops[i] = mc::choose(LOPS, "operation");
    Session sess;
    LWorld w;
    cfg.max_calls = 20000000;
    bool ok = true;
    rounds(n, [&] { for(int i = 0; i < cycle && ok; ++i) ok = w.op(ops[i]); }, "a listener");
    if(!ok) mc::abandon();
    w.destroy();
    mc::outcome((uint64_t) ops[0] * LOPS + (uint64_t) ops[cycle - 1] + 5000);
}

#if !defined(TLS) && !defined(REAL)
// the selector, on real descriptors
static void selector(int depth, int repeats)
{
    enum { AddA, AddB, RemoveA, RemoveB, Wait, RenewA, OPSN };
    int ops[16];
    for(int i = 0; i < depth; ++i) ops[i] = mc::choose(OPSN, "operation");
    size_t m = mc::mark();
    auto run = [&]
    {
        int p[2][2];
        for(auto &x : p) if(socketpair(AF_UNIX, SOCK_STREAM, 0, x)) mc::fail("harness: socketpair");
        char c = 'x'; if(::write(p[1][1], &c, 1) != 1) mc::fail("harness: write");
        {
            std::shared_ptr<fr::TcpSocket> s[2];
            for(int i = 0; i < 2; ++i) { LIB(s[i] = std::make_shared<fr::TcpSocket>(), 0); LIB(s[i]->set_descriptor(&p[i][0])); }
            auto sel = LIB(std::make_unique<fr::SocketSelector>());
            auto once = [&]
            {
                for(int i = 0; i < depth; ++i) switch(ops[i])
                {
                    case AddA: case AddB: LIB([&] { try { sel->add(s[ops[i] - AddA], &p); } catch(const std::exception &) {} }()); break;
                    case RemoveA: case RemoveB: LIB((void) sel->remove(s[ops[i] - RemoveA])); break;
                    case Wait: LIB((void) sel->wait(std::chrono::milliseconds(0))); break;
                    case RenewA: { int fd = dup(p[0][1]); if(fd < 0) mc::fail("harness: dup"); LIB(s[0] = std::make_shared<fr::TcpSocket>(), 0); LIB(s[0]->set_descriptor(&fd)); break; }
                }
            };
            if(repeats > 1)
            {
                // registered sockets belong to the selector until they are removed
                bool renew = false; for(int i = 0; i < depth; ++i) renew = renew || ops[i] == RenewA;
                if(!renew) rounds(repeats, once, "a selector");
            }
            else once();
            LIB(sel.reset());
            for(auto &x : s) LIB(x.reset());
        }
        for(auto &x : p) close(x[1]);
    };
    run();
    settle(m, run);
    uint64_t h = 9; for(int i = 0; i < depth; ++i) h = mc::mix(h, (uint64_t) ops[i] + 1);
    mc::outcome(h);
}
#endif

#if !defined(TLS) && !defined(REAL)
// functions and messages, with ever other content
static void functions()
{
    enum { Encode, Decode, Mime, UnknownMime, Strings, Url, Sha, B64, Request, Response, Packets, Frames, BadRequest, BadUrl, FNS };
    int f = mc::choose(FNS, "function"), f2 = mc::choose(FNS, "second function");
    unsigned n = 1000;
    auto one = [&](int k)
    {
        std::string x = N(n), y = "some rather long text with a number, " + x;
        mc::Inside in_;
        switch(k)
        {
            case Encode: (void) fr::Http::url_encode(y); break;
            case Decode: (void) fr::Http::url_decode("%20" + y + "+%4" + x); break;
            case Mime: (void) fr::Http::get_mimetype("/path/" + y + ".html"); break;
            case UnknownMime: (void) fr::Http::get_mimetype("/path/file." + x + "rather-long-extension"); break;
            case Strings: (void) fr::Http::request_type_to_string((fr::Http::RequestType) (n % 9)); (void) fr::Socket::status_to_string((Status) (n % 21)); break;
            case Url: { fr::URL u("http://host" + x + ".example.org:80/some/path/" + x + "?a=" + x); (void) u.get_url(); break; }
            case Sha: (void) fr::Sha1::sha1_digest(y); break;
            case B64: { (void) fr::Base64::encode(y); break; }
            case Request: { fr::HttpRequest r; r.set_uri("/" + x); r.get(x) = y; r.post(y) = x; r.header("h" + x) = y; std::string c = r.construct("host" + x); fr::HttpRequest q; (void) q.parse(c.data(), c.size()); break; }
            case Response: { fr::HttpResponse r; r.header("h" + x) = y; r.set_body(y); std::string c = r.construct("host" + x); fr::HttpResponse q; (void) q.parse(c.data(), c.size()); break; }
            case Packets: { fr::Packet p; p << y << x << std::vector<std::string>{x, y} << std::map<std::string, int>{{y, 1}}; fr::Packet q(p); std::string a; q >> a; try { std::vector<std::vector<std::string>> v; q >> v; } catch(const std::exception &) {} break; }
            case Frames: { fr::ClientWebFrame w; w.set_payload(y); fr::ClientWebFrame v(w); v.set_payload(std::move(y)); break; }
            case BadRequest: { std::string c = "GET /" + y + " HTTP/1.1\r\nBad" + x + "\r\nContent-Length: -" + x + "\r\n\r\n"; fr::HttpRequest q; (void) q.parse(c.data(), c.size()); break; }
            case BadUrl: { try { fr::URL u(":" + y + "://%%:" + x); } catch(const std::exception &) {} break; }
        }
    };
    // once and for all is fine, again and again is not
    rounds(64, [&] { one(f); one(f2); ++n; }, "the library");
    mc::outcome((uint64_t) (f * FNS + f2));
}
#endif

#ifdef REAL
// objects that cannot be made
static void files()
{
    static const char *names[] = {"", "rsa.pem", "chain.pem", "good.pem", "both.pem", "rsa.key", "good.key", "<garbage>", "<missing>", "<certificate and garbage>", "<garbage and certificate>", "<key cut off>", "<certificate cut off>", "<directory>"};
    constexpr int n = sizeof names / sizeof *names;
    auto path = [](int i) -> std::string
    {
        std::string s = names[i];
        if(s == "<missing>") return cert_dir() + "missing";
        if(s == "<directory>") return cert_dir();
        if(s.empty() || s[0] != '<') return s.empty() ? s : cert_dir() + s;
        std::string f = mc::scratch() + "/f" + N(i);
        std::ofstream o(f);
        std::string good = slurp(cert_dir() + "good.pem"), key = slurp(cert_dir() + "rsa.key");
        const std::string garbage = "-----BEGIN CERTIFICATE-----\nMIIBgarbage\n-----END CERTIFICATE-----\n";
        if(s == "<garbage>") o << "garbage";
        if(s == "<certificate and garbage>") o << good << garbage;
        if(s == "<garbage and certificate>") o << garbage << good;
        if(s == "<key cut off>") o << key.substr(0, key.size() / 2);
        if(s == "<certificate cut off>") o << good.substr(0, good.size() / 2);
        return f;
    };
    int c = mc::choose(n, "certificate file"), k = mc::choose(n, "key file"), what = mc::choose(3, "what");
    std::string cf = path(c), kf = path(k);
    context();
    size_t m = mc::mark();
    bool made = false;
    auto run = [&]
    {
        Session sess;
        rnd::counter = 1;
        if(what == 0)
        {
            std::unique_ptr<fr::SSLListener> l;
            LIB([&] { try { l.reset(new fr::SSLListener(context(), cf, kf)); } catch(const std::exception &) {} }());
            made = !!l;
            if(l) { cfg.addrs = {"0.0.0.0"}; LIB((void) l->listen("443")); }
            LIB(l.reset());
        }
        else
        {
            auto x = LIB(std::make_unique<fr::SSLContext>());
            for(int i : {c, k})
            {
                std::string text = what == 2 ? slurp(path(i)) : "";
                if(what == 1) { std::string f = path(i); if(LIB(x->load_ca_certs_from_file(f))) made = true; }
                else if(LIB(x->load_ca_certs_from_memory(text))) made = true;
            }
            {
                auto s = LIB(std::make_unique<fr::SSLSocket>(std::shared_ptr<fr::SSLContext>(x.get(), [](fr::SSLContext *) {})));
                Net net; net.begin();
                cfg.addrs = {"10.0.0.1"};
                LIB((void) s->connect("good.example", "443", std::chrono::seconds(2)));
                LIB(s.reset());
            }
            LIB(x.reset());
        }
    };
    run();
    settle(m, run);
    mc::outcome((uint64_t) (c * 100 + k) * 4 + (uint64_t) what * 2 + made);
}
#endif

void mc_register()
{
#ifdef REAL
    mc::add("socket", mc::by_tier(0, 1), [=] { history<Sock>(false, 2); }, 8, 2);
    mc::add("socket/faults", mc::by_tier(1, 2), [=] { history<Sock>(false, 1, true); }, 8, 2);
    mc::add("listener", 1, [=] { listeners(mc::by_tier(3, 4)); }, 8, 2);
    mc::add("files", 0, [=] { files(); }, 8, 2);
#else
    mc::add("socket", mc::by_tier(0, 1), [=] { history<Sock>(false, 3); }, 8, 2);
    mc::add("socket/faults", 1, [=] { history<Sock>(false, 2, true); }, 8, 2);
    mc::add("socket/two-faults", mc::by_tier(2, 3), [=] { history<Sock>(false, 1, true); }, 8, 2);
    mc::add("websocket", mc::by_tier(0, 1), [=] { history<WS>(true, 3); }, 8, 2);
    mc::add("websocket/faults", 1, [=] { history<WS>(true, 2, true); }, 8, 2);
    mc::add("websocket/two-faults", mc::by_tier(2, 3), [=] { history<WS>(true, 1, true); }, 8, 2);
    mc::add("listener", mc::by_tier(1, 2), [=] { listeners(mc::by_tier(4, 5)); }, 8, 2);
    mc::add("socket/repeat", 0, [=] { repeat<Sock>(false, mc::by_tier(2, 3), 32); }, 8, 2);
    mc::add("websocket/repeat", 0, [=] { repeat<WS>(true, mc::by_tier(2, 3), 32); }, 8, 2);
    mc::add("listener/repeat", 0, [=] { listeners_repeat(mc::by_tier(2, 3), 64); }, 8, 2);
#ifndef TLS
    mc::add("functions", 0, [=] { functions(); }, 8, 2);
    mc::add("selector", 0, [=] { selector(mc::by_tier(4, 6), 1); }, 8, 2);
    mc::add("selector/repeat", 0, [=] { selector(mc::by_tier(3, 4), 32); }, 8, 2);
#endif
#endif
}
