// C03: packets over a connection.
#include "sockets.hpp"
#include "frnetlib/Packet.h"
#include <arpa/inet.h>
using namespace simk;

static std::string enc(const std::string &p)
{
    uint32_t l = htonl((uint32_t) p.size());
    return std::string((char *) &l, 4) + p;
}
static fr::Packet make(const std::string &p) { fr::Packet r; r.add_raw(p.data(), p.size()); return r; }
static std::string contents(fr::Packet &p)
{
    std::string o(p.size(), 0);
    p.set_cursor(0);
    if(!o.empty()) p.extract_raw(&o[0], o.size());
    return o;
}

// ---- sending
static void sending(std::vector<size_t> sizes, bool blocking)
{
    Session sess;
    cfg.tx_short = true; cfg.tx_eintr = true; cfg.tx_again = true; cfg.tx_errs = {ECONNRESET};
    Sock s;
    if(blocking) s.set_send_timeout(10);
    auto f = open_connected(); attach(s, f);
    if(!blocking) s.set_blocking(false);
    std::string wire;
    for(size_t i = 0; i < sizes.size(); ++i)
    {
        std::string d = pattern(sizes[i], (unsigned) i);
        fr::Packet p = make(d);
        size_t cur = sizes[i] / 2;
        p.set_cursor(cur);
        int before = mc::budget_left();
        unsigned again0 = f->tx_agains;
        Status st = s.send(p);
        MC_NOTE("send -> " + sname(st));
        std::string e = wire + enc(d);
        if(st == Status::Success) { MC_CHECK(f->tx == e, "Success, but the wire holds '" + mc::printable(f->tx, 60) + "' instead of '" + mc::printable(e, 60) + "'"); wire = e; }
        else
        {
            MC_CHECK(before > mc::budget_left(), "send fails with " + sname(st) + " although nothing went wrong");
            MC_CHECK(f->broken || (st == Status::Timeout && blocking && f->tx_agains > again0), "send returns " + sname(st));
            MC_CHECK(e.compare(0, f->tx.size(), f->tx) == 0, "the wire does not hold a prefix of the packet");
            return;
        }
        MC_CHECK(p.get_cursor() == cur && p.size() == d.size() && contents(p) == d, "sending altered the packet");
        mc::outcome(f->tx.size());
    }
}

// ---- receiving
enum Kind { Fresh, HeldLonger, HeldShorter, HalfRead, ReceivedBefore, Cleared, KINDS };
static fr::Packet previous(int kind)
{
    fr::Packet p;
    switch(kind)
    {
        case HeldLonger: p = make(pattern(40, 9)); break;
        case HeldShorter: p = make("xy"); break;
        case HalfRead: { p = make(pattern(40, 9)); char b[20]; p.extract_raw(b, 20); break; }
        case ReceivedBefore: { Sock s; auto f = open_connected("before"); f->rx = enc(pattern(30, 8)); attach(s, f); s.receive(p); char b[30]; if(p.get_bytes_remaining() >= 30) p.extract_raw(b, 30); break; }
        case Cleared: p = make("abcdef"); p.clear(); break;
    }
    return p;
}

static void receiving(std::vector<size_t> sizes, int kind, int mode, uint32_t limit, size_t cut, bool freesz)
{
    Session sess;
    fr::Packet p = previous(kind);
    cfg.rx_free = freesz; cfg.rx_short = true; cfg.rx_eintr = true; cfg.rx_again = true; cfg.rx_eof = true; cfg.rx_errs = {ECONNRESET};
    bool blocking = mode != 0;
    Sock s;
    if(mode == 2) s.set_receive_timeout(10);
    s.set_max_receive_size(limit);
    auto f = open_connected(); attach(s, f);
    if(!blocking) s.set_blocking(false);
    std::string stream; std::vector<std::string> want; size_t full = 0;
    for(size_t i = 0; i < sizes.size(); ++i) { want.push_back(pattern(sizes[i], (unsigned) i + 1)); stream += enc(want.back()); }
    full = stream.size();
    f->rx = stream.substr(0, full - std::min(cut, full)); f->eof = true;
    size_t at = 0;
    for(size_t i = 0; i < want.size();)
    {
        unsigned again0 = f->rx_agains;
        Status st = s.receive(p);
        size_t took = f->rxpos - at;
        MC_NOTE("receive -> " + sname(st) + ", consumed " + N((long long) took));
        mc::outcome(mc::mix((uint64_t) st, took));
        bool big = limit && want[i].size() > limit;
        if(st == Status::Success)
        {
            MC_CHECK(!big, "a packet of " + N((long long) want[i].size()) + " bytes is accepted although the limit is " + N(limit));
            MC_CHECK(took == 4 + want[i].size(), "Success after consuming " + N((long long) took) + " bytes of a packet of " + N((long long) want[i].size() + 4));
            MC_CHECK(p.get_cursor() == 0, "the received packet's position is " + N((long long) p.get_cursor()) + " instead of its beginning");
            MC_CHECK(p.size() == want[i].size() && p.get_bytes_remaining() == want[i].size(), "the received packet has " + N((long long) p.size()) + " bytes (" + N((long long) p.get_bytes_remaining()) + " remaining) instead of " + N((long long) want[i].size()));
            MC_CHECK(contents(p) == want[i], "the received packet holds '" + mc::printable(contents(p), 60) + "' instead of '" + mc::printable(want[i], 60) + "'");
            if(i % 2) p.set_cursor(want[i].size() / 2);
            at = f->rxpos; ++i;
        }
        else if(st == Status::WouldBlock || st == Status::Timeout)
        {
            MC_CHECK((st == Status::WouldBlock) == !blocking, sname(st) + " in the wrong mode");
            MC_CHECK(took == 0, sname(st) + " after consuming " + N((long long) took) + " bytes of the packet");
            MC_CHECK(f->rx_agains > again0, sname(st) + " although data was available");
        }
        else
        {
            if(st == Status::MaxPacketSizeExceeded)
            {
                MC_CHECK(big, "MaxPacketSizeExceeded for a packet of " + N((long long) want[i].size()) + " bytes, limit " + N(limit));
                MC_CHECK(took == 4, "contents of a refused packet were consumed");
                MC_CHECK(!s.connected() && f->gone, "the connection is not closed after MaxPacketSizeExceeded");
            }
            else MC_CHECK((mode == 2 && f->rx_agains > again0 && took > 0) || at + 4 + want[i].size() > f->rx.size(), "receive fails with " + sname(st) + " although the packet was there");
            return;
        }
    }
}

static void hostile_length(uint32_t len, uint32_t limit)
{
    Session sess;
    Sock s; s.set_max_receive_size(limit);
    auto f = open_connected(); attach(s, f);
    uint32_t l = htonl(len);
    f->rx = std::string((char *) &l, 4) + pattern(100); f->eof = true;
    fr::Packet p = make("old");
    mc::alloc_reset();
    Status st = s.receive(p);
    MC_CHECK(st == Status::MaxPacketSizeExceeded, "announced " + N(len) + " bytes, limit " + N(limit) + ": " + sname(st));
    MC_CHECK(f->rxpos <= 4, "contents of a refused packet were consumed");
    MC_CHECK(mc::alloc.largest <= 4096, "memory for a refused packet was allocated (" + N((long long) mc::alloc.largest) + ")");
    MC_CHECK(!s.connected() && f->gone, "the connection is not closed after MaxPacketSizeExceeded");
}

// ---- both ends over one connection
static void both(std::vector<size_t> sizes, bool nonblocking, bool reuse)
{
    Session sess;
    const bool many = sizes.size() > 1000;
    cfg.max_calls += 10 * (unsigned) sizes.size();
    if(!many) {
    cfg.rx_short = cfg.tx_short = true; cfg.rx_eintr = cfg.tx_eintr = true; cfg.rx_again = cfg.tx_again = nonblocking;
    }
    auto pr = open_pair();
    Sock a, b;
    attach(a, pr.first); attach(b, pr.second);
    if(nonblocking) { a.set_blocking(false); b.set_blocking(false); }
    fr::Packet shared;
    for(size_t i = 0; i < sizes.size(); ++i)
    {
        fr::Packet p = make(pattern(sizes[i], (unsigned) i));
        MC_CHECK(a.send(p) == Status::Success, "send fails");
    }
    for(size_t i = 0; i < sizes.size(); ++i)
    {
        fr::Packet fresh; fr::Packet &p = reuse ? shared : fresh;
        Status st; int n = 0;
        while((st = b.receive(p)) == Status::WouldBlock && ++n < patience(20));
        MC_CHECK(st == Status::Success, "receive: " + sname(st));
        MC_CHECK(p.get_cursor() == 0 && contents(p) == pattern(sizes[i], (unsigned) i), "packet " + N((long long) i) + " differs");
        mc::outcome(mc::mix(i, pr.second->recv_calls));
    }
    MC_CHECK(pr.second->rxpos == pr.second->rx.size(), "bytes left over");
}

void mc_register()
{
    for(int blocking = 0; blocking < 2; ++blocking)
        for(auto &sz : std::vector<std::vector<size_t>>{{0}, {1}, {5}, {0, 3, 1}, {4092, 4093}, {65536, 2}, {70000}})
        {
            std::string n; for(auto x : sz) n += "-" + N((long long) x);
            mc::add(std::string("send/") + (blocking ? "blocking" : "nonblocking") + n, mc::by_tier(3, 4), [=] { sending(sz, blocking); }, 2);
        }
    for(int kind = 0; kind < KINDS; ++kind)
        for(int mode = 0; mode < 3; ++mode)
        {
            std::string b = "receive/kind" + N(kind) + "/mode" + N(mode);
            for(auto &sz : std::vector<std::vector<size_t>>{{0}, {3}, {2, 0, 4}, {50, 10, 30}, {4092, 5, 70000}})
            {
                std::string n; for(auto x : sz) n += "-" + N((long long) x);
                mc::add(b + n, mc::by_tier(2, 3), [=] { receiving(sz, kind, mode, 0, 0, false); }, 4);
            }
            mc::add(b + "/compositions", 1, [=] { receiving({3}, kind, mode, 0, 0, true); }, 4);
            for(size_t cut = 1; cut <= 9; ++cut) mc::add(b + "/cut" + N((long long) cut), 1, [=] { receiving({2, 5}, kind, mode, 0, cut, false); });
            for(uint32_t lim : {4u, 5u, 6u, 40u, 41u}) mc::add(b + "/limit" + N(lim), 1, [=] { receiving({lim - 1, lim, lim + 1}, kind, mode, lim, 0, false); });
        }
    for(uint32_t len : {11u, 0x7fffffffu, 0x80000000u, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xffffffffu})
        for(uint32_t lim : {10u, 1u, 0x7ffffffeu})
            if(len > lim) mc::add("hostile/" + N(len) + "/" + N(lim), 0, [=] { hostile_length(len, lim); });
    for(int nb = 0; nb < 2; ++nb)
        for(int reuse = 0; reuse < 2; ++reuse)
            for(auto &sz : std::vector<std::vector<size_t>>{{5, 3}, {30, 2, 17}, {5000, 0, 4096}})
            {
                std::string n; for(auto x : sz) n += "-" + N((long long) x);
                mc::add("both/" + N(nb) + N(reuse) + n, mc::by_tier(2, 3), [=] { both(sz, nb, reuse); }, 8);
            }
    for(int nb = 0; nb < 2; ++nb)
        for(int reuse = 0; reuse < 2; ++reuse)
        {
            mc::add("every-size/" + N(nb) + N(reuse), mc::by_tier(0, 1), [=] { size_t n = (size_t) mc::choose(mc::by_tier(9000, 9000), "size"); both({n, 1, n}, nb, reuse); }, 8, 1);
            mc::add("storm/" + N(nb) + N(reuse), 0, [=] { Storm st(mc::choose(Storm::KINDS, "storm")); static const size_t SIZES[] = {0, 1, 9, 130, 5000}; size_t n = SIZES[mc::choose(5, "size")]; both({n, 1}, nb, reuse); }, 8, 2);
            mc::add("many/" + N(nb) + N(reuse), 0, [=] { both(std::vector<size_t>((size_t) mc::by_tier(70000, 300000), (size_t) mc::choose(2, "size")), nb, reuse); }, 2, 1);
        }
    // megabytes, and sizes at which a counter of 16 bits wraps
    for(int nb = 0; nb < 2; ++nb)
        for(int reuse = 0; reuse < 2; ++reuse)
            for(auto &sz : std::vector<std::vector<size_t>>{{65535, 65536, 65537}, {1 << 20, 3, (1 << 20) + 1}, {5 << 20}})
            {
                std::string n; for(auto x : sz) n += "-" + N((long long) x);
                mc::add("megabytes/" + N(nb) + N(reuse) + n, mc::by_tier(0, 1), [=] { both(sz, nb, reuse); });
            }
}
