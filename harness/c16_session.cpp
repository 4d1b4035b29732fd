// C16: WebSocket sessions keep their role and close cleanly.
#include "ws_ref.hpp"
#include "sockets.hpp"
#include <deque>
using namespace simk;

// What one endpoint has put on the wire since the handshake, checked frame by frame.
struct End
{
    WS *s = nullptr;
    FileP f;
    bool client = false, open = false;
    size_t tx = 0;                             // position in f->tx after the last frame checked
    std::deque<ws::Frame> toward;              // frames the peer has sent and we have not received yet
    bool peer_gone = false;
};

struct Session2
{
    Lst l;
    End e[2];                                  // the two objects
    int connects = 0;
    WS &obj(int i) { return *e[i].s; }

    // object c connects, object v accepts
    void establish(int c, int v)
    {
        MC_NOTE("* session: object " + N(c) + " is the client, object " + N(v) + " the server");
        if(!l.connected()) MC_CHECK(l.listen("80") == Status::Success, "listen fails");
        auto lf = get(l.get_socket_descriptor());
        cfg.addrs = {"10.0.0.1"};
        FileP cf, sf;
        bool accepting = false, accepted = false;
        cfg.on_idle = [&](File &x)
        {
            if(x.gone || x.eof) return;
            if(!sf && !accepting && x.tx.find("\r\n\r\n") != std::string::npos)
            {
                // the client waits for its answer: the server accepts now
                accepting = true;
                cf = get(x.fd);
                lf->backlog.push_back("10.5.5.5");
                std::string request = cf->tx;
                auto save = cfg.on_idle;
                cfg.on_idle = [&, request](File &y) { if(!sf) { sf = get(y.fd); y.rx += request; } };
                Status st = l.accept(*e[v].s);
                MC_CHECK(st == Status::Success, "accept: " + sname(st));
                accepted = true;
                sf = get(e[v].s->get_socket_descriptor());
                sf->peer = cf; cf->peer = sf;
                cf->rx += sf->tx;
                cfg.on_idle = save;
            }
        };
        Status st = e[c].s->connect("host", "80", std::chrono::seconds(1));
        cfg.on_idle = nullptr;
        MC_CHECK(st == Status::Success && accepted, "a session cannot be established: " + sname(st));
        cf = get(e[c].s->get_socket_descriptor());
        MC_CHECK(cf && sf && cf != sf, "the endpoints are not attached to their connections");
        for(int i : {c, v})
        {
            e[i].f = i == c ? cf : sf; e[i].client = i == c; e[i].open = true; e[i].peer_gone = false; e[i].toward.clear();
            e[i].tx = e[i].f->tx.size();
        }
        MC_CHECK(cf->rxpos == cf->rx.size(), "the handshake was not consumed completely");
    }

    // reads the frames endpoint i has put on the wire since the last look
    std::vector<ws::Frame> emitted(int i)
    {
        std::vector<ws::Frame> r;
        if(!e[i].f) return r;
        while(e[i].tx < e[i].f->tx.size())
        {
            ws::Frame x;
            MC_CHECK(ws::read(e[i].f->tx, e[i].tx, x), "the wire holds an incomplete frame");
            MC_CHECK(x.masked == e[i].client, std::string("the ") + (e[i].client ? "client emits an unmasked" : "server emits a masked") + " frame, opcode " + N(x.opcode));
            r.push_back(x);
        }
        return r;
    }

    void send(int i, int op, int fin, const std::string &payload)
    {
        auto fr_ = ws::frame(e[i].client);
        fr_->set_opcode((fr::WebFrame::Opcode) op); fr_->set_final(fin); fr_->set_payload(payload);
        Status st = obj(i).send(*fr_);
        MC_NOTE("object " + N(i) + " sends: " + sname(st));
        if(!e[i].open) { MC_CHECK(st != Status::Success, "sending succeeds on a closed WebSocket"); return; }
        if(st != Status::Success) { MC_CHECK(e[i].peer_gone, "sending fails: " + sname(st)); return; }
        auto v = emitted(i);
        MC_CHECK(v.size() == 1 && v[0].opcode == op && v[0].fin == fin && v[0].payload == payload, "sending one frame put " + N((long long) v.size()) + " frames on the wire");
        e[1 - i].toward.push_back(v[0]);
    }
    void receive(int i)
    {
        auto fr_ = ws::frame(e[i].client);
        if(e[i].open && e[i].toward.empty() && !e[i].peer_gone) { return; }     // would wait
        Status st;
        while((st = obj(i).receive(*fr_)) == Status::WouldBlock && storming()) { }
        MC_NOTE("object " + N(i) + " receives: " + sname(st));
        if(!e[i].open) { MC_CHECK(st != Status::Success, "receiving succeeds on a closed WebSocket"); return; }
        if(e[i].toward.empty()) { MC_CHECK(st == Status::Disconnected || st == Status::ReceiveError, "receiving from a peer that is gone: " + sname(st)); return; }
        auto want = e[i].toward.front(); e[i].toward.pop_front();
        MC_CHECK(st == Status::Success, "a frame that was sent is not received: " + sname(st));
        MC_CHECK(fr_->get_payload() == want.payload && ws::number(fr_->get_opcode()) == want.opcode && fr_->is_final() == (want.fin != 0), "received '" + mc::printable(fr_->get_payload(), 30) + "' instead of " + ws::show(want));
        MC_CHECK(emitted(i).empty(), "receiving a frame emits one");
    }
    // the mode changes nothing about what closing means
    void mode(int i)
    {
        if(!e[i].open) return;
        bool want = !obj(i).get_blocking();
        MC_CHECK(obj(i).set_blocking(want) == Status::Success && obj(i).get_blocking() == want, "set_blocking fails");
        MC_CHECK(emitted(i).empty(), "changing the mode emits a frame");
        MC_NOTE("object " + N(i) + (want ? " blocks" : " does not block"));
    }
    void disconnect(int i)
    {
        bool was = e[i].open, reach = was && !e[i].peer_gone;
        FileP f = e[i].f;
        size_t before = f ? f->tx.size() : 0;
        obj(i).disconnect();
        MC_NOTE("object " + N(i) + " disconnects");
        MC_CHECK(!obj(i).connected(), "connected() is true after disconnecting");
        if(!was) { MC_CHECK(!f || f->tx.size() == before, "disconnecting a closed WebSocket emits something"); return; }
        MC_CHECK(f->gone, "the connection is still open after disconnecting");
        auto v = emitted(i);
        if(reach)
        {
            MC_CHECK(v.size() == 1, "disconnecting emits " + N((long long) v.size()) + " frames instead of one close frame");
            MC_CHECK(v[0].opcode == 8 && v[0].fin == 1, "disconnecting emits " + ws::show(v[0]) + " instead of a close frame");
            e[1 - i].toward.push_back(v[0]);
        }
        e[i].open = false; e[i].toward.clear();
        if(e[1 - i].open) e[1 - i].peer_gone = true;
    }
};

enum Op { SendC, SendV, SendFrag, SendPing, RecvC, RecvV, DiscC, DiscV, Again, Swap, ModeC, ModeV, NOPS };
static void history(int depth, const std::vector<int> &ops, bool faults, bool swapped)
{
    Session sess;
    WS a, b;
    Session2 x; x.e[0].s = &a; x.e[1].s = &b;
    int c = swapped;
    x.establish(c, 1 - c);
    if(faults) { cfg.rx_short = cfg.rx_eintr = cfg.tx_short = cfg.tx_eintr = true; }
    int sent = 0;
    for(int i = 0; i < depth; ++i)
    {
        int op = ops[(size_t) mc::choose((int) ops.size(), "operation")];
        switch(op)
        {
            case SendC: x.send(c, 1, 1, "msg" + N(sent++)); break;
            case SendV: x.send(1 - c, 2, 1, pattern((size_t) (120 + 6 * (sent % 2)), (unsigned) sent)); ++sent; break;
            case SendFrag: x.send(c, 1, 0, "part"); x.send(c, 0, 1, ""); break;
            case SendPing: x.send(1 - c, 9, 1, "p"); break;
            case RecvC: x.receive(c); break;
            case RecvV: x.receive(1 - c); break;
            case DiscC: x.disconnect(c); break;
            case DiscV: x.disconnect(1 - c); break;
            case ModeC: x.mode(c); break;
            case ModeV: x.mode(1 - c); break;
            case Again: x.disconnect(0); x.disconnect(1); x.establish(c, 1 - c); break;
            case Swap: x.disconnect(0); x.disconnect(1); c = 1 - c; x.establish(c, 1 - c); break;
        }
    }
    // what is under way arrives, and both can be closed
    for(int i = 0; i < 2; ++i) while(x.e[i].open && !x.e[i].toward.empty()) x.receive(i);
    for(int i = 0; i < 2; ++i) if(x.e[i].open && x.e[i].peer_gone) x.receive(i);
    x.disconnect(c); if(x.e[1 - c].open) { while(!x.e[1 - c].toward.empty()) x.receive(1 - c); x.receive(1 - c); }
    x.disconnect(1 - c);
    x.disconnect(0); x.disconnect(1);
    for(auto &f : open_files()) MC_CHECK(f->st == Listening, "a connection is still open");
    mc::outcome(mc::mix((uint64_t) sent, all().size()));
}

// a client object attached to something that refuses: afterwards the roles must still be right
static void after_failure(int role, int failure)
{
    Session sess;
    WS a, b;
    Session2 x; x.e[0].s = &a; x.e[1].s = &b;
    cfg.addrs = {"10.0.0.1"};
    if(failure == 0) { cfg.plan = [](const std::string &) { return RefusedAtOnce; }; MC_CHECK(a.connect("h", "1", std::chrono::seconds(1)) != Status::Success, "connect succeeds"); cfg.plan = nullptr; }
    if(failure == 1) { cfg.on_idle = [](File &f) { f.rx += "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"; f.eof = true; }; MC_CHECK(a.connect("h", "1", std::chrono::seconds(1)) != Status::Success, "connect succeeds"); }
    if(failure == 2) { cfg.on_idle = [](File &f) { f.rx += "GET / HTTP/1.1\r\n\r\n"; f.eof = true; }; auto f = open_connected(); bool threw = false; try { attach(a, f); } catch(const std::runtime_error &) { threw = true; } MC_CHECK(threw, "a failed handshake goes unnoticed"); }
    if(failure == 3) { x.establish(0, 1); a.disconnect(); b.disconnect(); x.e[0].open = x.e[1].open = false; cfg.plan = [](const std::string &) { return RefusedAtOnce; }; a.connect("h", "1", std::chrono::seconds(1)); cfg.plan = nullptr; }
    cfg.on_idle = nullptr;
    size_t bytes = 0; for(auto &f : all()) bytes += f->tx.size();
    a.disconnect();
    size_t now = 0; for(auto &f : all()) now += f->tx.size();
    MC_CHECK(now == bytes, "disconnecting after a failed handshake emits something");
    x.establish(role, 1 - role);
    x.send(0, 1, 1, "x"); x.receive(1); x.send(1, 1, 1, "y"); x.receive(0);
    x.disconnect(0); x.receive(1); x.disconnect(1);
    mc::outcome((uint64_t) (role * 4 + failure));
}

// refusing an oversized frame closes the connection properly
static void oversized(int receiver)
{
    Session sess;
    WS a, b;
    Session2 x; x.e[0].s = &a; x.e[1].s = &b;
    x.establish(0, 1);
    x.obj(receiver).set_max_receive_size(10);
    x.send(1 - receiver, 1, 1, "0123456789"); x.receive(receiver);
    x.send(1 - receiver, 1, 1, "0123456789a");
    auto fr_ = ws::frame(receiver == 0);
    Status st = x.obj(receiver).receive(*fr_);
    MC_CHECK(st == Status::MaxPacketSizeExceeded, "an oversized frame: " + sname(st));
    MC_CHECK(!x.obj(receiver).connected() && x.e[receiver].f->gone, "the connection is not closed");
    auto v = x.emitted(receiver);
    MC_CHECK(v.size() == 1 && v[0].opcode == 8, "closing did not emit exactly one close frame");
    mc::outcome((uint64_t) st);
}

// long sessions and many of them
static void many(int frames, int sessions, bool swap)
{
    Session sess;
    WS a, b;
    Session2 x; x.e[0].s = &a; x.e[1].s = &b;
    int c = 0;
    for(int k = 0; k < sessions; ++k)
    {
        x.establish(c, 1 - c);
        for(int i = 0; i < frames; ++i) { int from = i % 3 == 2; x.send(from, 1 + i % 2, i % 5 != 4, "m" + N(i)); x.receive(1 - from); }
        int first = k % 2;
        x.disconnect(first); x.receive(1 - first); x.disconnect(1 - first);
        if(swap) c = 1 - c;
    }
    mc::outcome((uint64_t) (frames * 100000 + sessions));
}

void mc_register()
{
    mc::add("storm/long", 0, [] { Storm st(4 + mc::choose(2, "storm")); history(0, {}, false, mc::choose(2, "swap")); }, 4, 2);
    mc::add("storm", 0, [] { static const int K[] = {1, 2, 3, 6, 7}; Storm st(K[mc::choose(5, "storm")]); history(mc::by_tier(2, 3), {SendC, SendV, RecvC, RecvV, DiscC, ModeC, ModeV}, false, mc::choose(2, "swap")); }, 8, 2);
    mc::add("many/frames", 0, [] { many(mc::by_tier(3000, 70000), 1, mc::choose(2, "swap")); });
    mc::add("many/sessions", 0, [] { many(2, mc::by_tier(400, 3000), mc::choose(2, "swap")); });
    std::vector<int> every; for(int i = 0; i < NOPS; ++i) every.push_back(i);
    std::vector<int> closing{SendC, RecvV, DiscC, DiscV, Swap, RecvC, ModeC};
    for(int sw = 0; sw < 2; ++sw)
    {
        std::string s = sw ? "/swapped" : "";
        mc::add("all" + s, 0, [=] { history(mc::by_tier(4, 6), every, false, sw); }, 8, 2);
        mc::add("closing" + s, 0, [=] { history(mc::by_tier(5, 7), closing, false, sw); }, 8, 2);
        mc::add("all/faults" + s, 1, [=] { history(mc::by_tier(2, 3), every, true, sw); }, 8, 1);
        for(int f = 0; f < 4; ++f) mc::add("failure" + N(f) + s, 0, [=] { after_failure(sw, f); });
        mc::add("oversized" + s, 0, [=] { oversized(sw); });
    }
}
