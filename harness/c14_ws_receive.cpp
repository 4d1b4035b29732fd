// C14: WebSocket frames are received whole, checked and unmasked.
#include "sockets.hpp"
#include "ws_ref.hpp"
using namespace simk;

static const char *KEYS[] = {"\x37\xfa\x21\x3d", "\x01\x02\x03\x04", "\xff\xff\xff\xff"};
struct F { std::string payload; int op, fin; std::string wire; };
static F mk(size_t n, int i, bool masked)
{
    static const int ops[] = {1, 2, 0, 9, 10, 8};
    F f; f.payload = pattern(n, (unsigned) i); f.op = ops[i % 6]; f.fin = i % 2 == 0;
    f.wire = ws::write(f.payload, f.op, f.fin, masked, i == 3 ? std::string(4, 0) : std::string(KEYS[i % 3], 4));
    return f;
}

// mode: 0 non-blocking, 1 blocking, 2 blocking with timeout
static void receiving(bool client, std::vector<size_t> sizes, int mode, uint32_t limit, size_t cut, bool freesz, bool dirty)
{
    Session sess;
    cfg.max_calls += 10 * (unsigned) sizes.size();
    if(sizes.size() < 1000) { cfg.rx_free = freesz; cfg.rx_short = cfg.rx_eintr = cfg.rx_again = cfg.rx_eof = true; cfg.rx_errs = {ECONNRESET}; }
    bool blocking = mode != 0;
    Sock s;
    if(mode == 2) s.set_receive_timeout(10);
    s.set_max_receive_size(limit);
    auto f = open_connected(); attach(s, f);
    if(!blocking) s.set_blocking(false);
    std::vector<F> want; std::string stream;
    for(size_t i = 0; i < sizes.size(); ++i) { want.push_back(mk(sizes[i], (int) i, !client)); stream += want.back().wire; }
    f->rx = stream.substr(0, stream.size() - std::min(cut, stream.size())); f->eof = true;
    auto fr_ = ws::frame(client);
    if(dirty) { fr_->set_payload(pattern(200, 77)); fr_->set_opcode(fr::WebFrame::Opcode::Pong); fr_->set_final(false); }
    size_t at = 0;
    for(size_t i = 0; i < want.size();)
    {
        unsigned again0 = f->rx_agains;
        Status st = s.receive(*fr_);
        size_t took = f->rxpos - at;
        MC_NOTE("receive -> " + sname(st) + ", consumed " + N((long long) took));
        mc::outcome(mc::mix((uint64_t) st, took));
        bool big = limit && want[i].payload.size() > limit;
        if(st == Status::Success)
        {
            MC_CHECK(!big, "a payload of " + N((long long) want[i].payload.size()) + " bytes is accepted although the limit is " + N(limit));
            MC_CHECK(took == want[i].wire.size(), "Success after consuming " + N((long long) took) + " bytes of a frame of " + N((long long) want[i].wire.size()));
            MC_CHECK(fr_->get_payload() == want[i].payload, "payload '" + mc::printable(want[i].payload, 40) + "' is received as '" + mc::printable(fr_->get_payload(), 40) + "'");
            MC_CHECK(ws::number(fr_->get_opcode()) == want[i].op, "opcode " + N(want[i].op) + " is received as " + N(ws::number(fr_->get_opcode())));
            MC_CHECK(fr_->is_final() == (want[i].fin != 0), "the final flag is received as " + N(fr_->is_final()));
            at = f->rxpos; ++i;
        }
        else if(st == Status::WouldBlock || st == Status::Timeout)
        {
            MC_CHECK((st == Status::WouldBlock) == !blocking, sname(st) + " in the wrong mode");
            MC_CHECK(took == 0, sname(st) + " after consuming " + N((long long) took) + " bytes of the frame");
            MC_CHECK(f->rx_agains > again0, sname(st) + " although data was available");
        }
        else
        {
            if(st == Status::MaxPacketSizeExceeded)
            {
                MC_CHECK(big, "MaxPacketSizeExceeded for a payload of " + N((long long) want[i].payload.size()) + " bytes, limit " + N(limit));
                MC_CHECK(took + want[i].payload.size() <= want[i].wire.size(), "contents of a refused frame were consumed");
                MC_CHECK(!s.connected() && f->gone, "the connection is not closed after MaxPacketSizeExceeded");
                MC_CHECK(fr_->get_payload().size() <= limit, "contents of a refused frame were stored");
            }
            else MC_CHECK((mode == 2 && f->rx_agains > again0 && took > 0) || at + want[i].wire.size() > f->rx.size(), "receive fails with " + sname(st) + " although the frame was there");
            return;
        }
    }
}

// a peer that delivers a frame piece by piece; the receiver finds nothing in between
static void slow(bool client, size_t size, int mode)
{
    Session sess;
    Sock s;
    if(mode == 2) s.set_receive_timeout(10);
    auto f = open_connected(); attach(s, f);
    if(mode == 0) s.set_blocking(false);
    F w = mk(size, 1, !client);
    std::string after = mk(3, 0, !client).wire;
    std::string stream = w.wire + after;
    // the pieces are chosen up front
    std::vector<size_t> cuts{0};
    size_t head = w.wire.size() - size;
    size_t c1 = (size_t) mc::choose((int) std::min(head + 3, stream.size()) + 1, "first piece");
    size_t c2 = c1 + (size_t) mc::choose((int) std::min(head + 3, stream.size() - c1) + 1, "second piece");
    cuts = {c1, c2, stream.size()};
    size_t next = 0, given = 0;
    bool early = false;
    cfg.on_idle = [&](File &x)
    {
        while(next < cuts.size() && cuts[next] == given) ++next;
        if(next < cuts.size()) { x.rx += stream.substr(given, cuts[next] - given); given = cuts[next]; ++next; }
        else x.eof = true;
    };
    auto fr_ = ws::frame(client);
    Status st; int n = 0;
    while(true)
    {
        size_t before = f->rxpos;
        st = s.receive(*fr_);
        if((st == Status::WouldBlock || st == Status::Timeout) && ++n < 20) { MC_CHECK(f->rxpos == before, sname(st) + " after consuming " + N((long long) (f->rxpos - before)) + " bytes"); continue; }
        break;
    }
    (void) early;
    MC_NOTE("receive -> " + sname(st));
    mc::outcome(mc::mix((uint64_t) st, f->rxpos));
    if(st == Status::Success)
    {
        MC_CHECK(f->rxpos == w.wire.size(), "consumed " + N((long long) f->rxpos) + " bytes of a frame of " + N((long long) w.wire.size()));
        MC_CHECK(fr_->get_payload() == w.payload && ws::number(fr_->get_opcode()) == w.op && fr_->is_final() == (w.fin != 0), "the frame differs from what was sent");
    }
    else MC_CHECK(mode == 2, "a frame arriving in pieces " + N((long long) c1) + "," + N((long long) (c2 - c1)) + " is not received: " + sname(st));
}

static void wrong_mask(bool client, size_t size)
{
    Session sess;
    cfg.rx_short = cfg.rx_eintr = true;
    Sock s;
    auto f = open_connected(); attach(s, f);
    F w = mk(size, mc::choose(6, "frame"), client);   // masked towards a client, unmasked towards a server
    f->rx = w.wire + pattern(20); f->eof = true;
    auto fr_ = ws::frame(client);
    Status st = s.receive(*fr_);
    MC_NOTE("receive -> " + sname(st));
    mc::outcome((uint64_t) st);
    MC_CHECK(st != Status::Success && st != Status::WouldBlock && st != Status::Timeout, "a frame with the wrong masking is answered with " + sname(st));
}

static void hostile(bool client, uint64_t claim, uint32_t limit, size_t have)
{
    Session sess;
    Sock s; s.set_max_receive_size(limit);
    auto f = open_connected(); attach(s, f);
    f->rx = ws::write(pattern(have), 2, 1, !client, "abcd", &claim); f->eof = true;
    auto fr_ = ws::frame(client);
    mc::alloc_reset();
    Status st;
    try { st = s.receive(*fr_); }
    catch(const std::exception &e) { mc::fail("a frame announcing " + std::to_string(claim) + " bytes makes receive throw " + e.what()); }
    size_t largest = mc::alloc.largest;
    MC_NOTE("receive -> " + sname(st));
    mc::outcome(mc::mix((uint64_t) st, limit));
    if(limit)
    {
        MC_CHECK(st == Status::MaxPacketSizeExceeded, "announced " + std::to_string(claim) + " bytes, limit " + N(limit) + ": " + sname(st));
        MC_CHECK(largest <= 4096, "memory for a refused frame was allocated (" + N((long long) largest) + ")");
        MC_CHECK(f->rxpos + have <= f->rx.size(), "contents of a refused frame were consumed");
        MC_CHECK(!s.connected() && f->gone, "the connection is not closed after MaxPacketSizeExceeded");
    }
    else MC_CHECK(st != Status::Success && st != Status::WouldBlock && st != Status::Timeout, "a truncated frame is answered with " + sname(st));
}

// the limit holds for every kind of frame, whatever its flags
static void by_opcode(bool client)
{
    static const int OPS[] = {0, 1, 2, 8, 9, 10};
    Session sess;
    int op = OPS[mc::choose(6, "opcode")], fin = op < 8 ? mc::choose(2, "final") : 1;
    size_t n = (size_t) mc::choose(op < 8 ? 140 : 126, "size");
    uint32_t limit = (uint32_t) mc::choose(4, "limit");
    limit = limit == 3 ? 0 : (uint32_t) n + limit - (n ? 1 : 0);
    Sock s; s.set_max_receive_size(limit);
    auto f = open_connected(); attach(s, f);
    f->rx = ws::write(pattern(n), op, fin, !client) + ws::write("next", 1, 1, !client);
    auto fr_ = ws::frame(client);
    Status st = s.receive(*fr_);
    mc::outcome(mc::mix((uint64_t) st, limit));
    if(limit && n > limit)
    {
        MC_CHECK(st == Status::MaxPacketSizeExceeded, "a frame with opcode " + N(op) + " of " + N((long long) n) + " bytes, limit " + N(limit) + ": " + sname(st));
        MC_CHECK(!s.connected() && f->gone, "the connection is not closed after MaxPacketSizeExceeded");
        return;
    }
    MC_CHECK(st == Status::Success, "a frame with opcode " + N(op) + " of " + N((long long) n) + " bytes, limit " + N(limit) + ": " + sname(st));
    MC_CHECK(ws::number(fr_->get_opcode()) == op && fr_->is_final() == (fin != 0) && fr_->get_payload() == pattern(n), "the frame differs from the one on the wire");
    if(limit && limit < 4) return;
    MC_CHECK(s.receive(*fr_) == Status::Success && fr_->get_payload() == "next", "the frame behind it is not received");
}

// all two-byte headers: decoded, refused or incomplete, never anything else
static void headers(bool client)
{
    Session sess;
    int b0 = mc::choose(256, "byte 0"), b1 = mc::choose(256, "byte 1");
    if(b0 & 0x70) mc::abandon();
    Sock s;
    auto f = open_connected(); attach(s, f);
    int len = b1 & 127; bool masked = b1 & 128;
    std::string rest = len == 126 ? std::string("\0\x80", 2) : len == 127 ? std::string("\0\0\0\0\0\1\0\3", 8) : "";
    size_t n = len == 126 ? 128 : len == 127 ? 65539 : (size_t) len;
    std::string payload = pattern(n, 3), enc = payload;
    if(masked) for(size_t i = 0; i < n; ++i) enc[i] = (char) (enc[i] ^ "wxyz"[i % 4]);
    f->rx = std::string(1, (char) b0) + (char) b1 + rest + (masked ? "wxyz" : "") + enc;
    size_t full = f->rx.size();
    f->rx += "surplus"; f->eof = true;
    auto fr_ = ws::frame(client);
    Status st = s.receive(*fr_);
    mc::outcome(mc::mix((uint64_t) st, (uint64_t) len));
    if(masked == client) MC_CHECK(st != Status::Success && st != Status::WouldBlock && st != Status::Timeout, "a frame with the wrong masking is answered with " + sname(st));
    else
    {
        int op = b0 & 15;
        bool known = op <= 2 || (op >= 8 && op <= 10);
        if(!known) return;
        MC_CHECK(st == Status::Success, "a valid frame is answered with " + sname(st));
        MC_CHECK(f->rxpos == full, "consumed " + N((long long) f->rxpos) + " of " + N((long long) full));
        MC_CHECK(fr_->get_payload() == payload && ws::number(fr_->get_opcode()) == op && fr_->is_final() == (b0 >= 128), "the frame differs from what was sent");
    }
}

void mc_register()
{
    mc::add("reference", 0, [] {
        // the examples of RFC 6455 5.7, as the reference reads and writes them
        auto same = [](const std::string &wire, const std::string &payload, int opcode, int fin, bool masked) {
            ws::Frame f; size_t pos = 0;
            if(ws::write(payload, opcode, fin, masked) != wire || !ws::read(wire, pos, f) || pos != wire.size() || f.payload != payload || f.opcode != opcode || f.fin != fin || f.masked != masked || !f.shortest)
                mc::fail("the reference encoding is wrong");
        };
        same("\x81\x05Hello", "Hello", 1, 1, false);
        same("\x81\x85\x37\xfa\x21\x3d\x7f\x9f\x4d\x51\x58", "Hello", 1, 1, true);
        same("\x01\x03Hel", "Hel", 1, 0, false);
        same(std::string("\x80\x02") + "lo", "lo", 0, 1, false);
        same("\x89\x05Hello", "Hello", 9, 1, false);
        same("\x8a\x85\x37\xfa\x21\x3d\x7f\x9f\x4d\x51\x58", "Hello", 10, 1, true);
        same(std::string("\x82\x7e\x01\x00", 4) + std::string(256, 'q'), std::string(256, 'q'), 2, 1, false);
        same(std::string("\x82\x7f\0\0\0\0\0\x01\0\0", 10) + std::string(65536, 'q'), std::string(65536, 'q'), 2, 1, false);
    });
    for(int client = 0; client < 2; ++client)
    {
        std::string r = client ? "client" : "server";
        for(int mode = 0; mode < 3; ++mode)
        {
            std::string b = r + "/mode" + N(mode);
            for(auto &sz : std::vector<std::vector<size_t>>{{0}, {3}, {2, 0, 4}, {5, 1, 125, 7}, {126, 5, 3}, {4096, 65535, 9}, {65536, 4}, {70000}})
            {
                std::string n; for(auto x : sz) n += "-" + N((long long) x);
                for(int dirty = 0; dirty < 2; ++dirty)
                    mc::add(b + (dirty ? "/dirty" : "/fresh") + n, mc::by_tier(2, 3), [=] { receiving(client, sz, mode, 0, 0, false, dirty); }, 4);
            }
            for(size_t n : {1048576, 1048577, 2500000}) mc::add(b + "/large" + N((long long) n), 1, [=] { receiving(client, {n, 3}, mode, 0, 0, false, false); });
            mc::add(b + "/every-size", 0, [=] { size_t n = (size_t) mc::choose(mc::by_tier(9000, 70000), "size"); receiving(client, {n, 1}, mode, 0, 0, false, n % 2); }, 8, 1);
            mc::add(b + "/every-limit", 0, [=] { size_t n = (size_t) mc::choose(mc::by_tier(1000, 9000), "size"); uint32_t lim = (uint32_t) ((int) n + mc::choose(3, "limit") - 1); receiving(client, {n, 1}, mode, lim, 0, false, true); }, 8, 1);
            mc::add(b + "/storm", 0, [=] { Storm st(mc::choose(Storm::KINDS, "storm")); static const size_t SIZES[] = {0, 1, 125, 126, 5000}; size_t n = SIZES[mc::choose(5, "size")]; receiving(client, {n, 3}, mode, 0, 0, false, false); }, 8, 2);
            mc::add(b + "/many", 0, [=] { receiving(client, std::vector<size_t>((size_t) mc::by_tier(30000, 300000), (size_t) mc::choose(3, "size") * 63), mode, 0, 0, false, false); }, 3, 1);
            mc::add(b + "/compositions-3", 1, [=] { receiving(client, {3}, mode, 0, 0, true, false); }, 8);
            mc::add(b + "/compositions-126", 0, [=] { receiving(client, {126}, mode, 0, 128, true, false); }, 8);
            for(size_t cut = 1; cut <= 24; ++cut) mc::add(b + "/cut" + N((long long) cut), 1, [=] { receiving(client, {2, 5}, mode, 0, cut, false, false); });
            for(size_t cut = 1; cut <= 140; cut += (cut > 8 && cut < 118 ? 17 : 1)) mc::add(b + "/cutlong" + N((long long) cut), 1, [=] { receiving(client, {127}, mode, 0, cut, false, false); });
            for(uint32_t lim : {1u, 4u, 124u, 125u, 126u, 127u, 65534u, 65535u, 65536u}) mc::add(b + "/limit" + N(lim), 1, [=] { receiving(client, {lim - 1, lim, lim + 1}, mode, lim, 0, false, false); });
            for(size_t n : {0, 1, 5, 126, 65536}) mc::add(b + "/slow" + N((long long) n), 0, [=] { slow(client, n, mode); }, 2);
        }
        for(size_t n : {0, 1, 5, 126, 70000}) mc::add(r + "/wrongmask" + N((long long) n), 2, [=] { wrong_mask(client, n); });
        for(uint64_t claim : {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000004ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull})
            for(uint32_t lim : {0u, 10u, 1000u, 0x7ffffffeu})
                for(size_t have : {0, 100})
                    mc::add(r + "/hostile/" + std::to_string(claim) + "/" + N(lim) + "/" + N((long long) have), 0, [=] { if(!lim || claim > lim) hostile(client, claim, lim, have); });
        mc::add(r + "/limits-by-opcode", 0, [=] { by_opcode(client); }, 16, 1);
        mc::add(r + "/headers", 0, [=] { headers(client); }, 16, 1);
    }
}
