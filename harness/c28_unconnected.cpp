// C28: without a connection every operation fails cleanly, and the object can be used again.
#ifdef REAL
#define TLS_DEFINE
#include "tls.hpp"
#include "frnetlib/WebSocket.h"
#else
#include "sockets.hpp"
#endif
#include "ws_ref.hpp"
#include "crypto_ref.hpp"
#include "frnetlib/Packet.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
using namespace simk;

static std::string contents(fr::Packet &p)
{
    auto c = p.get_cursor(); std::string s(p.size(), 0);
    p.set_cursor(0); if(!s.empty()) p.extract_raw(&s[0], s.size()); p.set_cursor(c);
    return s;
}
static std::string be32(size_t n) { std::string r; for(int x = 24; x >= 0; x -= 8) r += (char) (n >> x); return r; }

#ifdef REAL
static std::shared_ptr<fr::SSLContext> context() { static auto c = std::make_shared<fr::SSLContext>(); return c; }
struct Sock : fr::SSLSocket { Sock() : fr::SSLSocket(context()) { verify_certificates(false); } };
// what the peer has understood, and its answers
struct Net
{
    std::map<unsigned, std::unique_ptr<Peer>> peers;
    Peer &of(File &f)
    {
        auto &p = peers[f.id];
        if(!p) { p.reset(new Peer(true, &Identity::get("rsa").crt, &Identity::get("rsa").key, MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256)); p->f = &f; }
        return *p;
    }
    void begin() { rnd::counter = 1; cfg.on_idle = [this](File &f) { of(f).step(); }; }
    std::string plain(const FileP &f) { auto &p = of(*f); p.drain(); return p.plain; }
    void give(const FileP &f, const std::string &s) { of(*f).send(s); }
};
#else
struct Net
{
    void begin() {}
    std::string plain(const FileP &f) { return f->tx; }
    void give(const FileP &f, const std::string &s) { f->rx += s; }
};
#endif

enum Way { Never, NeverReleased, Lookup, Refused, RefusedLate, NoAnswer, Unreachable, Closed, ClosedTwice, ClosedNB, ClosedData, PeerClosed, PeerReset, Oversize, Released, Accepted, Server, HandshakeCut, HandshakeBad, WAYS };
static const char *wayn[] = {"never connected", "never connected, set_descriptor(nullptr)", "lookup failed", "refused", "refused later", "no answer", "unreachable", "disconnected", "disconnected twice", "disconnected, non-blocking",
    "disconnected with data unread", "disconnected after the peer closed", "disconnected after a reset", "closed for a message over the limit", "set_descriptor(nullptr)", "accepted and disconnected", "attached and disconnected", "handshake cut off", "handshake refused"};

enum Op { SendRaw, SendBig, SendPacket, SendRequest, SendResponse, SendFrame, SendServerFrame, RecvRaw, RecvAll, RecvPacket, RecvRequest, RecvResponse, RecvFrame, RecvServerFrame, Shutdown, Disconnect, SetNB, SetB, Timeouts, Detach, ConnectFails, OPS };
static const char *opn[] = {"send_raw(1)", "send_raw(5000)", "send(Packet)", "send(HttpRequest)", "send(HttpResponse)", "send(ClientWebFrame)", "send(ServerWebFrame)", "receive_raw", "receive_all", "receive(Packet)", "receive(HttpRequest)",
    "receive(HttpResponse)", "receive(ClientWebFrame)", "receive(ServerWebFrame)", "shutdown", "disconnect", "set_blocking(false)", "set_blocking(true)", "set timeouts and limit", "set_descriptor(nullptr)", "connect fails"};

static void failed(Status st, const char *what)
{
    if(st == Status::Success || st == Status::WouldBlock || st == Status::Timeout || st == Status::NotEnoughData || (int) st < 0 || (int) st > 21)
        mc::fail(std::string(what) + " returns " + sname(st) + " without a connection");
}
// a server for the opening handshake of web sockets
static bool g_bad, g_cut;
static void ws_server(File &f)
{
    size_t e = f.tx.find("\r\n\r\n");
    if(e == std::string::npos || !f.rx.empty() || f.eof) return;
    if(g_cut) { f.rx = "HTTP/1.1 101 Swi"; f.eof = true; return; }
    if(g_bad) { f.rx = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"; return; }
    std::string low = f.tx; for(auto &c : low) c = (char) tolower(c);
    size_t k = low.find("sec-websocket-key:");
    if(k == std::string::npos) return;
    k += 18; while(f.tx[k] == ' ') ++k;
    std::string key = f.tx.substr(k, f.tx.find("\r\n", k) - k);
    f.rx = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + ref::accept(key) + "\r\n\r\n";
}
static const char WS_REQUEST[] = "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\n\r\n";

template<class S> struct World
{
    bool web;
    Net net;
    std::unique_ptr<S> s{new S()};
    std::vector<FileP> strangers;
    std::vector<std::tuple<FileP, size_t, std::string>> given;
    explicit World(bool web_) : web(web_)
    {
        net.begin();
        g_bad = g_cut = false;
        if(web) cfg.on_tx = [](File &f) { ws_server(f); };
    }
    Status connect(Plan p, bool none = false)
    {
        cfg.addrs.clear();
        if(!none) cfg.addrs = {"10.0.0.1"};
        cfg.plan = [p](const std::string &) { return p; };
        return s->connect("h", "80", std::chrono::seconds(2));
    }
    FileP file() { return get(s->get_socket_descriptor()); }
    void up() { MC_CHECK(connect(OkAtOnce) == Status::Success && s->connected(), "connecting fails"); }
    bool leave(int way)
    {
        MC_NOTE(std::string("** ") + wayn[way]);
        switch(way)
        {
            case Never: break;
            case NeverReleased: s->set_descriptor(nullptr); break;
            case Lookup: failed(connect(OkAtOnce, true), "connect"); break;
            case Refused: failed(connect(RefusedAtOnce), "connect"); break;
            case RefusedLate: failed(connect(RefusedLater), "connect"); break;
            case NoAnswer: { Status st = connect(NeverAnswers); MC_CHECK(st != Status::Success && st != Status::WouldBlock, "connect without an answer: " + sname(st)); break; }
            case Unreachable: failed(connect(UnreachableAtOnce), "connect"); break;
            case Closed: up(); s->disconnect(); break;
            case ClosedTwice: up(); s->disconnect(); s->disconnect(); break;
            case ClosedNB: up(); MC_CHECK(s->set_blocking(false) == Status::Success, "set_blocking fails"); s->disconnect(); break;
            case ClosedData:
            {
                up();
                auto f = file();
                net.give(f, be32(9) + "unread da");
                char c; size_t n = 0;
                MC_CHECK(s->receive_raw(&c, 1, n) == Status::Success && n == 1 && c == 0, "a byte cannot be received");
                s->disconnect();
                break;
            }
            case PeerClosed: case PeerReset:
            {
                up();
                auto f = file();
                if(way == PeerClosed) f->eof = true; else f->reset(ECONNRESET);
                char c; size_t n = 0;
                failed(s->receive_raw(&c, 1, n), "receive_raw from a closed connection");
                s->disconnect();
                break;
            }
            case Oversize:
            {
                up();
                s->set_max_receive_size(8);
                net.give(file(), be32(9) + "oversized");
                fr::Packet p;
                Status st = s->receive(p);
                s->set_max_receive_size(0);
                MC_CHECK(st == Status::MaxPacketSizeExceeded, "a message over the limit: " + sname(st));
                break;
            }
            case Released:
            {
                up();
                auto f = file();
                s->set_descriptor(nullptr);
                f->foreign = true;                 // it belongs to someone else now, and it is in use
                if(!f->gone) { f->rx += be32(3) + "abc"; given.emplace_back(f, f->rxpos, f->tx); }
                break;
            }
#ifndef REAL
            case Accepted:
            {
                if(web) return false;
                Lst l;
                MC_CHECK(l.listen("80") == Status::Success, "listen fails");
                get(l.get_socket_descriptor())->backlog.push_back("10.1.1.1");
                MC_CHECK(l.accept(*s) == Status::Success && s->connected(), "accept fails");
                s->disconnect();
                break;
            }
            case Server:
            {
                cfg.on_tx = nullptr;
                auto f = open_connected();
                if(web) f->rx = WS_REQUEST;
                attach(*s, f);
                MC_CHECK(s->connected(), "an attached socket is not connected");
                s->disconnect();
                if(web) cfg.on_tx = [](File &x) { ws_server(x); };
                break;
            }
            case HandshakeCut: if(!web) return false; g_cut = true; failed(connect(OkAtOnce), "connect"); g_cut = false; break;
            case HandshakeBad: if(!web) return false; g_bad = true; failed(connect(OkAtOnce), "connect"); g_bad = false; break;
#else
            case HandshakeCut: { auto fn = cfg.on_idle; cfg.on_idle = [](File &f) { f.eof = true; }; failed(connect(OkAtOnce), "connect"); cfg.on_idle = fn; break; }
            case HandshakeBad: { auto fn = cfg.on_idle; cfg.on_idle = [](File &f) { if(f.rx.empty()) f.rx = "HTTP/1.1 400 Bad Request\r\n\r\n"; else f.eof = true; }; failed(connect(OkAtOnce), "connect"); cfg.on_idle = fn; break; }
#endif
            default: return false;
        }
        return true;
    }
    void gone(const char *when)
    {
        if(s->connected()) mc::fail(std::string("the socket reports a connection ") + when);
        if(s->get_socket_descriptor() != -1) mc::fail("the socket has descriptor " + N(s->get_socket_descriptor()) + " " + when);
    }
    template<class O> void unsendable(O &&o, const char *what) { failed(s->send(o), what); }
    void op(int o)
    {
        MC_NOTE(std::string("* ") + opn[o]);
        const char *w = opn[o];
        switch(o)
        {
            case SendRaw: case SendBig:
            {
                std::string d = pattern(o == SendRaw ? 1 : 5000);
                size_t n = 0;
                failed(s->send_raw(d.data(), d.size(), n), w);
                MC_CHECK(n == 0, "send_raw claims to have sent " + N((long long) n) + " bytes without a connection");
                break;
            }
            case SendPacket: { fr::Packet p; p << std::string("abc"); std::string b = contents(p); failed(s->send(p), w); MC_CHECK(contents(p) == b, "a packet that was not sent has changed"); break; }
            case SendRequest: { fr::HttpRequest r; r.set_body("abc"); failed(s->send(r), w); break; }
            case SendResponse: { fr::HttpResponse r; r.set_body("abc"); failed(s->send(r), w); break; }
            case SendFrame: { fr::ClientWebFrame f; f.set_payload("abc"); failed(s->send(f), w); MC_CHECK(f.get_payload() == "abc", "a frame that was not sent has changed"); break; }
            case SendServerFrame: { fr::ServerWebFrame f; f.set_payload("abc"); failed(s->send(f), w); MC_CHECK(f.get_payload() == "abc", "a frame that was not sent has changed"); break; }
            case RecvRaw:
            {
                std::string b(64, 'x'); size_t n = 77;
                failed(s->receive_raw(&b[0], b.size(), n), w);
                MC_CHECK(n == 0 && b == std::string(64, 'x'), "receive_raw delivers " + N((long long) n) + " bytes without a connection");
                break;
            }
            case RecvAll: { std::string b(4, 'x'); failed(s->receive_all(&b[0], b.size()), w); MC_CHECK(b == "xxxx", "receive_all writes without a connection"); break; }
            case RecvPacket: { fr::Packet p; p << std::string("abc"); std::string b = contents(p); failed(s->receive(p), w); MC_CHECK(contents(p) == b || contents(p).empty(), "a packet is filled without a connection"); break; }
            case RecvRequest: { fr::HttpRequest r; failed(s->receive(r), w); MC_CHECK(r.get_body().empty(), "a request is filled without a connection"); break; }
            case RecvResponse: { fr::HttpResponse r; failed(s->receive(r), w); MC_CHECK(r.get_body().empty(), "a response is filled without a connection"); break; }
            case RecvFrame: { fr::ClientWebFrame f; failed(s->receive(f), w); MC_CHECK(f.get_payload().empty(), "a frame is filled without a connection"); break; }
            case RecvServerFrame: { fr::ServerWebFrame f; failed(s->receive(f), w); MC_CHECK(f.get_payload().empty(), "a frame is filled without a connection"); break; }
            case Shutdown: s->shutdown(); break;
            case Disconnect: s->disconnect(); break;
            // asking for the mode a socket reports anyway may succeed
            case SetNB: case SetB:
            {
                bool b = s->get_blocking(), want = o == SetB;
                Status st = s->set_blocking(want);
                if(b != want) failed(st, w);
                MC_CHECK(s->get_blocking() == b, "the mode changes without a connection");
                break;
            }
            case Timeouts: s->set_receive_timeout(1500); s->set_send_timeout(1600); s->set_max_receive_size(1000); break;
            case Detach: s->set_descriptor(nullptr); break;
            case ConnectFails: failed(connect(RefusedAtOnce), w); break;
        }
        gone((std::string("after ") + w).c_str());
    }
    void stranger(int fd)
    {
        // whoever opens a file now may get the number of the last connection
        (void) fd;
        auto f = open_foreign(); f->rx = be32(3) + "foe" "\x81\x03" "foe"; strangers.push_back(f);
    }
    void untouched()
    {
        for(auto &f : strangers) if(f->rxpos || !f->tx.empty() || f->gone || f->shut_rd || f->shut_wr) mc::fail("a descriptor of someone else was used");
        for(auto &g : given) { auto &f = std::get<0>(g); if(f->rxpos != std::get<1>(g) || f->tx != std::get<2>(g) || f->gone || f->shut_rd || f->shut_wr) mc::fail("a descriptor that was given away was used"); }
    }
    // and then it works
    void works()
    {
        MC_NOTE("** connect again");
        up();
        auto f = file();
        MC_CHECK(f && f->st == Connected && s->get_blocking() && !f->nonblock, "a new connection is not connected and blocking");
        size_t t0 = net.plain(f).size();
        if(!web)
        {
            fr::Packet p; p.add_raw("xyz", 3);
            MC_CHECK(s->send(p) == Status::Success, "a packet cannot be sent over the new connection");
            MC_CHECK(net.plain(f).substr(t0) == be32(3) + "xyz", "the packet sent over the new connection arrives otherwise");
            net.give(f, be32(3) + "uvw");
            fr::Packet q;
            Status st = s->receive(q);
            MC_CHECK(st == Status::Success && contents(q) == "uvw", "a packet cannot be received over the new connection: " + sname(st));
        }
        else
        {
            fr::ClientWebFrame p; p.set_payload("xyz");
            MC_CHECK(s->send(p) == Status::Success, "a frame cannot be sent over the new connection");
            ws::Frame w; size_t pos = 0; std::string tx = net.plain(f).substr(t0);
            MC_CHECK(ws::read(tx, pos, w) && pos == tx.size() && w.masked && w.payload == "xyz", "the frame sent over the new connection arrives otherwise");
            net.give(f, std::string("\x81\x03uvw"));
            fr::ClientWebFrame q;
            Status st = s->receive(q);
            MC_CHECK(st == Status::Success && q.get_payload() == "uvw", "a frame cannot be received over the new connection: " + sname(st));
        }
        untouched();
    }
};

template<class S> static void history(bool web, int ways, int depth, bool zero)
{
    Session sess;
    cfg.low_fd_zero = zero;
    {
        World<S> w(web);
        if(zero) w.stranger(0);
        uint64_t h = 0;
        for(int i = 0; i < ways; ++i)
        {
            int way = mc::choose(WAYS, "way");
            bool ok = w.leave(way);
            if(!ok) mc::abandon();
            w.gone((std::string("(") + wayn[way] + ")").c_str());
            if(!zero || i) w.stranger(0);
            for(int d = 0; d < depth; ++d) { int o = mc::choose(OPS, "operation"); w.op(o); h = mc::mix(h, (uint64_t) o + 1); }
            h = mc::mix(h, (uint64_t) way);
            w.untouched();
        }
        w.works();
        w.s->disconnect();
        w.gone("after disconnecting");
        w.untouched();
        mc::outcome(h);
        w.s.reset();
    }
    check_all_closed("after everything was destroyed");
}

#ifndef REAL
// listeners that are not listening
enum LWay { LNever, LLookup, LBind, LClosed, LClosedTwice, LShut, LMoved, LGiven, LWAYS };
enum LOp { LAccept, LAcceptConnected, LShutdown, LClose, LSet, LOPS };
static void listeners(int ways, int depth)
{
    Session sess;
    std::unique_ptr<Lst> l(new Lst()), spare;
    std::vector<FileP> strangers;
    std::unique_ptr<Sock> fresh(new Sock()), busy(new Sock());
    cfg.addrs = {"10.0.0.1"};
    MC_CHECK(busy->connect("h", "80", std::chrono::seconds(2)) == Status::Success, "connect fails");
    auto bf = get(busy->get_socket_descriptor());
    uint64_t h = 0;
    auto up = [&] { cfg.addrs = {"0.0.0.0"}; MC_CHECK(l->listen("80") == Status::Success && l->connected(), "listen fails"); };
    for(int i = 0; i < ways; ++i)
    {
        int way = mc::choose(LWAYS, "way");
        MC_NOTE("** way " + N(way));
        switch(way)
        {
            case LNever: if(i) l.reset(new Lst()); break;
            case LLookup: case LBind: cfg.addrs = {"0.0.0.0"}; cfg.faults = true; cfg.f_gai = way == LLookup; cfg.f_bind = cfg.f_listen = way == LBind; cfg.f_socket = cfg.f_sockopt = false; { Status st = l->listen("80"); cfg.faults = false; if(st == Status::Success) mc::abandon(); failed(st, "listen"); } break;
            case LClosed: up(); l->close_socket(); break;
            case LClosedTwice: up(); l->close_socket(); l->close_socket(); break;
            case LShut: up(); l->shutdown(); l->close_socket(); break;
            case LMoved:
#ifdef TLS
                mc::abandon();
#else
                up(); spare.reset(new Lst(std::move(*l)));
#endif
                break;
            case LGiven: { up(); auto f = get(l->get_socket_descriptor()); f->foreign = true; f->backlog.push_back("10.1.1.1"); l->set_socket_descriptor(-1); break; }
        }
        strangers.push_back(open_foreign());
        { auto f = open_foreign(); f->st = Listening; f->backlog.push_back("10.1.1.1"); strangers.push_back(f); }
        for(int d = 0; d < depth; ++d)
        {
            MC_CHECK(!l->connected() && l->get_socket_descriptor() == -1, "a listener that is not listening says that it is");
            int o = mc::choose(LOPS, "operation");
            MC_NOTE("* operation " + N(o));
            switch(o)
            {
                case LAccept: failed(l->accept(*fresh), "accept"); MC_CHECK(!fresh->connected() && fresh->get_socket_descriptor() == -1, "accept without listening connects a socket"); break;
                case LAcceptConnected:
                    failed(l->accept(*busy), "accept");
                    MC_CHECK(busy->connected() && busy->get_socket_descriptor() == bf->fd && !bf->gone, "a failed accept changed the socket it was given");
                    MC_CHECK(busy->get_remote_address() == "h:80", "a failed accept changed the address of the socket it was given");
                    break;
                case LShutdown: l->shutdown(); break;
                case LClose: l->close_socket(); break;
                case LSet: l->set_socket_descriptor(-1); break;
            }
            h = mc::mix(h, (uint64_t) o + 1);
        }
        h = mc::mix(h, (uint64_t) way);
        for(auto &f : strangers) if(f->gone || f->rxpos || (f->st == Listening && f->backlog.size() != 1)) mc::fail("a descriptor of someone else was used");
    }
    up();
    auto lf = get(l->get_socket_descriptor());
    MC_CHECK(lf && lf->st == Listening, "the listener does not listen");
    lf->backlog.push_back("10.7.7.7");
    MC_CHECK(l->accept(*fresh) == Status::Success && fresh->connected(), "a listener that was unusable before cannot accept");
    MC_CHECK(fresh->get_remote_address() == "10.7.7.7", "the accepted client has another address");
    l.reset(); spare.reset(); fresh.reset(); busy.reset();
    check_all_closed("after everything was destroyed");
    mc::outcome(h);
}
#endif

void mc_register()
{
#ifdef REAL
    mc::add("socket/one", 0, [=] { history<Sock>(false, 1, mc::by_tier(1, 2), false); }, 8, 2);
    mc::add("socket/descriptor-0", 0, [=] { history<Sock>(false, 1, 1, true); }, 8, 2);
    mc::add("socket/twice", 0, [=] { history<Sock>(false, 2, mc::by_tier(0, 1), false); }, 8, 2);
#else
    mc::add("socket/one", 0, [=] { history<Sock>(false, 1, mc::by_tier(3, 4), false); }, 8, 2);
    mc::add("socket/descriptor-0", 0, [=] { history<Sock>(false, 1, mc::by_tier(2, 3), true); }, 8, 2);
    mc::add("socket/twice", 0, [=] { history<Sock>(false, 2, mc::by_tier(1, 2), false); }, 8, 2);
    mc::add("websocket/one", 0, [=] { history<WS>(true, 1, mc::by_tier(2, 3), false); }, 8, 2);
    mc::add("websocket/descriptor-0", 0, [=] { history<WS>(true, 1, mc::by_tier(2, 3), true); }, 8, 2);
    mc::add("websocket/twice", 0, [=] { history<WS>(true, 2, 1, false); }, 8, 2);
    mc::add("listener/one", 1, [=] { listeners(1, mc::by_tier(4, 6)); }, 8, 2);
    mc::add("listener/twice", 1, [=] { listeners(2, mc::by_tier(2, 3)); }, 8, 2);
#endif
}
