// C13: WebSocket frames are encoded as RFC 6455 prescribes.
#include "sockets.hpp"
#include "ws_ref.hpp"
using namespace simk;

static const int OPS[] = {0, 1, 2, 8, 9, 10};

static void check_frame(const std::string &wire, size_t &pos, bool client, int op, int fin, const std::string &payload)
{
    ws::Frame f;
    size_t p = pos;
    MC_CHECK(ws::read(wire, p, f), "Success, but the wire holds only " + N((long long) (wire.size() - pos)) + " bytes, an incomplete frame");
    pos = p;
    MC_CHECK(f.rsv == 0, "reserved bits are set");
    MC_CHECK(f.fin == fin, "final flag " + N(fin) + " is sent as " + N(f.fin));
    MC_CHECK(f.opcode == op, "opcode " + N(op) + " is sent as " + N(f.opcode));
    MC_CHECK(f.masked == client, std::string() + (client ? "a client's frame is not masked" : "a server's frame is masked"));
    MC_CHECK(f.shortest, "the length " + N((long long) f.length) + " is not in its shortest form");
    MC_CHECK(f.length == payload.size(), "length " + N((long long) payload.size()) + " is sent as " + N((long long) f.length));
    MC_CHECK(f.payload == payload, "payload '" + mc::printable(payload, 40) + "' is sent as '" + mc::printable(f.payload, 40) + "'");
}

// every opcode, flag and role; sent `times` times on its own, then the wire is read back
static void plain(bool client, size_t size, int times)
{
    Session sess;
    int op = OPS[mc::choose(6, "opcode")], fin = 1 - mc::choose(2, "not final");
    Sock s;
    auto f = open_connected(); attach(s, f);
    auto fr_ = ws::frame(client);
    std::string payload = pattern(size, (unsigned) op);
    fr_->set_opcode((fr::WebFrame::Opcode) op); fr_->set_final(fin); fr_->set_payload(payload);
    size_t pos = 0;
    for(int i = 0; i < times; ++i)
    {
        Status st = s.send(*fr_);
        MC_CHECK(st == Status::Success, "send: " + sname(st));
        check_frame(f->tx, pos, client, op, fin, payload);
        MC_CHECK(pos == f->tx.size(), "surplus bytes on the wire");
        MC_CHECK(fr_->get_payload() == payload, "sending altered the frame's payload");
        MC_CHECK(ws::number(fr_->get_opcode()) == op && fr_->is_final() == (fin != 0), "sending altered the frame");
    }
    mc::outcome(mc::hash(f->tx.substr(0, 2)));
}

// a history of frames, some re-used, with every kernel answer
static void faulty(bool client, bool blocking, std::vector<size_t> sizes)
{
    Session sess;
    cfg.tx_short = cfg.tx_eintr = cfg.tx_again = true; cfg.tx_errs = {ECONNRESET, EPIPE};
    Sock s;
    if(blocking) s.set_send_timeout(10);
    auto f = open_connected(); attach(s, f);
    if(!blocking) s.set_blocking(false);
    auto fr_ = ws::frame(client);
    size_t pos = 0; std::string cur;
    for(size_t i = 0; i < sizes.size(); ++i)
    {
        int fin = i + 1 == sizes.size(), op = i ? 0 : 2;
        bool reuse = i && sizes[i] == sizes[i - 1];
        if(!reuse) { cur = pattern(sizes[i], (unsigned) i); fr_->set_payload(cur); }
        fr_->set_opcode((fr::WebFrame::Opcode) op); fr_->set_final(fin);
        int before = mc::budget_left();
        unsigned again0 = f->tx_agains;
        Status st = s.send(*fr_);
        MC_NOTE("send -> " + sname(st));
        MC_CHECK(fr_->get_payload() == cur, "sending altered the frame's payload");
        if(st != Status::Success)
        {
            MC_CHECK(before > mc::budget_left(), "send fails with " + sname(st) + " although nothing went wrong");
            MC_CHECK(f->broken || (st == Status::Timeout && blocking && f->tx_agains > again0), "send returns " + sname(st) + " although the connection is usable");
            // what is on the wire is a prefix of the frame
            std::string part = f->tx.substr(pos);
            ws::Frame x; size_t p = pos;
            MC_CHECK(!ws::read(f->tx, p, x) || p == f->tx.size(), "more than the frame is on the wire");
            mc::outcome(part.size());
            return;
        }
        check_frame(f->tx, pos, client, op, fin, cur);
        MC_CHECK(pos == f->tx.size(), "surplus bytes on the wire");
    }
    mc::outcome(pos);
}

// sequences of frame operations on one object
static void ops(bool client, int depth)
{
    Session sess;
    Sock s;
    auto f = open_connected(); attach(s, f);
    auto fr_ = ws::frame(client);
    std::string payload; int op = 1, fin = 1; size_t pos = 0;
    for(int i = 0; i < depth; ++i)
    {
        int k = mc::choose(8, "op");
        if(k == 0) { payload = "ab"; fr_->set_payload(payload); }
        else if(k == 1) { payload = std::string("\0x\xffyz", 5); fr_->set_payload(payload); }
        else if(k == 2) { payload.clear(); fr_->set_payload(payload); }
        else if(k == 3) { op = 9; fr_->set_opcode(fr::WebFrame::Opcode::Ping); }
        else if(k == 4) { op = 2; fr_->set_opcode(fr::WebFrame::Opcode::Binary); }
        else if(k == 5) { fin = !fin; fr_->set_final(fin); }
        else if(k == 6)
        {
            MC_CHECK(s.send(*fr_) == Status::Success, "send fails");
            check_frame(f->tx, pos, client, op, fin, payload);
        }
        else
        {
            fr::ClientWebFrame c; fr::ServerWebFrame v;
            if(client) { c = static_cast<fr::ClientWebFrame &>(*fr_); fr_.reset(new fr::ClientWebFrame(c)); }
            else { v = static_cast<fr::ServerWebFrame &>(*fr_); fr_.reset(new fr::ServerWebFrame(v)); }
        }
        MC_CHECK(fr_->get_payload() == payload && ws::number(fr_->get_opcode()) == op && fr_->is_final() == (fin != 0), "the frame object differs from what was set");
        MC_CHECK(pos == f->tx.size(), "surplus bytes on the wire");
    }
    mc::outcome(mc::hash(payload, (uint64_t) (op * 2 + fin)));
}

// many frames in a row, so that the masking key takes every value of its lower bytes
static void keys(bool client, size_t size, int frames)
{
    Session sess;
    Sock s;
    auto f = open_connected(); attach(s, f);
    auto fr_ = ws::frame(client);
    fr_->set_opcode(fr::WebFrame::Opcode::Text);
    std::string payload = pattern(size, 7);
    fr_->set_payload(payload);
    for(int i = 0; i < frames; ++i)
    {
        Status st = s.send(*fr_);
        MC_CHECK(st == Status::Success, "send: " + sname(st));
        size_t pos = 0;
        check_frame(f->tx, pos, client, 1, 1, payload);
        MC_CHECK(pos == f->tx.size(), "surplus bytes on the wire");
        f->tx.clear();
    }
    mc::outcome(size);
}

void mc_register()
{
    for(int client = 0; client < 2; ++client)
    {
        std::string r = client ? "client" : "server";
        std::vector<size_t> sizes;
        for(size_t i = 0; i < (size_t) mc::by_tier(300, 1500); ++i) sizes.push_back(i);
        for(size_t i : {65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072}) sizes.push_back(i);
        if(mc::thorough()) for(size_t i = 2000; i < 66000; i += 997) sizes.push_back(i);
        for(size_t n : sizes) mc::add(r + "/size" + N((long long) n), 0, [=] { plain(client, n, 2); });
        mc::add(r + "/huge", 0, [=] { plain(client, (size_t) (1 << 24) + 5, 1); });
        for(int b = 0; b < 2; ++b)
            for(auto &sz : std::vector<std::vector<size_t>>{{0}, {1}, {5, 5}, {125, 126, 3}, {3, 3, 3, 3}, {4096, 65535, 65536}, {70000, 70000}})
            {
                std::string n; for(auto x : sz) n += "-" + N((long long) x);
                mc::add(r + (b ? "/blocking" : "/nonblocking") + n, mc::by_tier(3, 4), [=] { faulty(client, b, sz); }, 4);
            }
        for(int b = 0; b < 2; ++b) mc::add(r + "/storm" + N(b), 0, [=] { Storm st(mc::choose(Storm::KINDS, "storm")); static const size_t SIZES[] = {0, 1, 126, 5000}; size_t n = SIZES[mc::choose(4, "size")]; faulty(client, b, {n, n, 3}); }, 8, 2);
        mc::add(r + "/every-size", 0, [=] { plain(client, (size_t) mc::choose(mc::by_tier(5000, 70000), "size"), 1); }, 8, 1);
        mc::add(r + "/keys", 0, [=] { keys(client, (size_t) mc::choose(9, "size"), mc::by_tier(70000, 400000)); }, 9, 1);
        mc::add(r + "/ops", 0, [=] { ops(client, mc::by_tier(5, 6)); }, 8, 2);
    }
}
