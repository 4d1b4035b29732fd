// C02: raw receive and exact-length receive against every answer of the kernel.
#include "giant.hpp"
using namespace simk;

struct P { bool blocking, timeo, free_sizes; size_t stream, want; int reads; bool all; };

static void run(P p)
{
    Session sess;
    cfg.rx_free = p.free_sizes; cfg.rx_short = true; cfg.rx_eintr = true; cfg.rx_again = true; cfg.rx_eof = true;
    cfg.rx_errs = {ECONNRESET, ENOMEM, ETIMEDOUT};
    fr::TcpSocket s;
    auto f = open_connected();
    if(p.timeo) s.set_receive_timeout(700);
    attach(s, f);
    if(!p.blocking) MC_CHECK(s.set_blocking(false) == Status::Success, "set_blocking(false) fails");
    const std::string data = pattern(p.stream);
    f->rx = data; f->eof = true; // the peer sends this and closes
    std::string got;
    for(int r = 0; r < p.reads; ++r)
    {
        size_t canary = 8;
        std::string buf(p.want + canary, '\x5a');
        size_t received = 12345;
        size_t before = f->rxpos;
        unsigned again0 = f->rx_agains, fail0 = f->rx_fails;
        if(!p.all)
        {
            Status st = s.receive_raw(&buf[0], p.want, received);
            size_t took = f->rxpos - before;
            MC_NOTE("receive_raw -> " + sname(st) + ", received=" + N((long long) received));
            MC_CHECK(buf.substr(p.want) == std::string(canary, '\x5a'), "receive_raw wrote beyond the buffer");
            MC_CHECK(received == took, "receive_raw reports " + N((long long) received) + " bytes but consumed " + N((long long) took));
            mc::outcome(mc::mix((uint64_t) st, received));
            switch(st)
            {
                case Status::Success:
                    MC_CHECK(took > 0 && took <= p.want, "Success with " + N((long long) took) + " bytes");
                    MC_CHECK(buf.substr(0, took) == data.substr(before, took), "the bytes stored are not the next bytes of the stream");
                    break;
                case Status::WouldBlock:
                    MC_CHECK(!p.blocking, "WouldBlock on a blocking socket"); MC_CHECK(took == 0, "WouldBlock after consuming bytes");
                    MC_CHECK(f->rx_agains > again0, "WouldBlock although the read did not have to wait"); r -= storming(); break;
                case Status::Timeout:
                    MC_CHECK(p.blocking, "Timeout on a non-blocking socket"); MC_CHECK(took == 0, "Timeout after consuming bytes");
                    MC_CHECK(f->rx_agains > again0, "Timeout although no time limit passed"); break;
                case Status::Disconnected:
                    MC_CHECK(f->rxpos == f->rx.size() && f->eof, "Disconnected before the end of the stream"); MC_CHECK(took == 0, "Disconnected after consuming bytes");
                    MC_CHECK(f->rx_fails == fail0, "Disconnected although the read failed with a real error"); return;
                case Status::ReceiveError:
                    MC_CHECK(f->rx_fails > fail0, "ReceiveError without an error"); MC_CHECK(took == 0, "error after consuming bytes"); return;
                default: mc::fail("unexpected status " + sname(st));
            }
        }
        else
        {
            Status st = s.receive_all(&buf[0], p.want);
            size_t took = f->rxpos - before;
            MC_NOTE("receive_all -> " + sname(st) + ", consumed " + N((long long) took));
            MC_CHECK(buf.substr(p.want) == std::string(canary, '\x5a'), "receive_all wrote beyond the buffer");
            mc::outcome(mc::mix((uint64_t) st, took));
            if(st == Status::Success)
            {
                MC_CHECK(took == p.want, "Success after consuming " + N((long long) took) + " of " + N((long long) p.want) + " bytes");
                MC_CHECK(buf.substr(0, took) == data.substr(before, took), "Success but the bytes stored are not the next bytes of the stream");
            }
            else if(st == Status::WouldBlock || st == Status::Timeout)
            {
                MC_CHECK((st == Status::WouldBlock) == !p.blocking, sname(st) + " in the wrong blocking mode");
                MC_CHECK(took == 0, sname(st) + " although " + N((long long) took) + " bytes were consumed");
                r -= storming();
                MC_CHECK(f->rx_agains > again0, sname(st) + " although the read did not have to wait");
            }
            else
            {
                MC_CHECK(took < p.want || p.want == 0, "failure " + sname(st) + " although everything was received");
                bool would_time_out = p.blocking && f->rx_agains > again0 && took > 0;
                MC_CHECK((f->rxpos == f->rx.size() && f->eof) || would_time_out, "failure " + sname(st) + " although the stream goes on");
                return;
            }
        }
    }
}

// a peer that is slow: the stream arrives in pieces, each only after the receiver found nothing k times
static void slow(bool blocking, bool all, size_t want)
{
    Session sess;
    const std::string data = pattern(want + 3);
    int sent = 0;
    auto f = open_connected();
    cfg.on_idle = [&](File &g)
    {
        if((size_t) sent >= data.size()) { g.eof = true; return; }
        if(g.nonblock && mc::deviate(2, "nothing yet")) return;
        size_t left = data.size() - (size_t) sent;
        size_t k = left - (size_t) mc::choose((int) left, "arrives (less than the rest)");
        g.rx.append(data, (size_t) sent, k); sent += (int) k;
    };
    fr::TcpSocket s;
    attach(s, f);
    if(!blocking) s.set_blocking(false);
    std::string got;
    bool over = false;
    for(int i = 0; i < 60 && !over; ++i)
    {
        std::string buf(want, 0);
        size_t before = f->rxpos, received = 0;
        Status st = all ? s.receive_all(&buf[0], want) : s.receive_raw(&buf[0], want, received);
        size_t took = f->rxpos - before;
        if(st == Status::Success)
        {
            MC_CHECK(!all || took == want, "Success after " + N((long long) took) + " bytes");
            got += buf.substr(0, took);
            MC_CHECK(got == data.substr(0, got.size()), "bytes lost, repeated or reordered");
        }
        else if(st == Status::WouldBlock) { MC_CHECK(!blocking && took == 0, "WouldBlock after consuming " + N((long long) took)); }
        else
        {
            MC_CHECK(st == Status::Disconnected, "unexpected " + sname(st));
            MC_CHECK(f->eof && f->rxpos == data.size(), "Disconnected before the end of the stream");
            over = true;
        }
        mc::outcome(mc::mix((uint64_t) st, took));
    }
    MC_CHECK(over, "the end of the stream is never reported");
}

// more than 31 and 32 bits can count
static void gigabytes(bool blocking, bool all)
{
    Session sess;
    size_t size = GIANTS[mc::choose(mc::by_tier(2, 4), "size")];
    Giant from(size), to(size);
    from.fill();
    fr::TcpSocket s;
    auto f = open_connected();
    attach(s, f);
    if(!blocking) s.set_blocking(false);
    f->giant_rx = from.base; f->giant_rx_left = size;
    size_t received = 77;
    Status st = all ? s.receive_all(to.base, size) : s.receive_raw(to.base, size, received);
    size_t want = all ? size : std::min<size_t>(size, 0x7ffff000);
    MC_CHECK(st == Status::Success && f->giant_rx_done == want && (all || received == want), "receiving " + N((long long) size) + " bytes: " + sname(st) + ", received=" + N((long long) received) + ", taken " + N((long long) f->giant_rx_done));
    MC_CHECK(memcmp(to.base, from.base, Giant::PERIOD) == 0, "the bytes stored differ");
    mc::outcome(size);
}

void mc_register()
{
    for(int b = 0; b < 4; ++b) mc::add(std::string(b / 2 ? "all/" : "raw/") + (b % 2 ? "blocking" : "nonblocking") + "/gigabytes", 0, [=] { gigabytes(b % 2, b / 2); }, 4, 1);
    for(int all = 0; all < 2; ++all)
        for(int mode = 0; mode < 3; ++mode)
        {
            bool blocking = mode != 0, timeo = mode == 2;
            std::string nm = std::string(all ? "all/" : "raw/") + (mode == 0 ? "nonblocking/" : mode == 1 ? "blocking/" : "blocking-timeout/");
            for(size_t want : {1, 2, 3, 4})
                for(size_t stream : {0, 1, 2, 3, 4, 5})
                {
                    mc::add(nm + N((long long) stream) + "by" + N((long long) want), mc::by_tier(2, 3), [=] { run({blocking, timeo, true, stream, want, 4, (bool) all}); }, 2);
                }
            for(size_t want : {64, 4096, 65536, 70000})
            {
                mc::add(nm + "large/" + N((long long) want), mc::by_tier(3, 4), [=] { run({blocking, timeo, false, 2 * want + 1, want, 2, (bool) all}); }, 8);
                mc::add(nm + "cut/" + N((long long) want), mc::by_tier(2, 3), [=] { run({blocking, timeo, false, want - 1, want, 2, (bool) all}); }, 4);
            }
            mc::add(nm + "storm", 0, [=] { Storm st(mc::choose(Storm::KINDS, "storm")); static const size_t SIZES[] = {1, 5, 130, 1448, 5000}; size_t want = SIZES[mc::choose(5, "size")]; run({blocking, timeo, false, 2 * want + 1, want, 3, (bool) all}); }, 8, 2);
            mc::add(nm + "every-size", 1, [=] { size_t want = (size_t) mc::choose(mc::by_tier(800, 9000), "size") + 1; run({blocking, timeo, false, want + 2, want, 2, (bool) all}); }, 8, 1);
            for(size_t want : {size_t(1) << 20, size_t(3) << 20})
                mc::add(nm + "megabytes/" + N((long long) want), 1, [=] { run({blocking, timeo, false, want + 1, want, 2, (bool) all}); }, 2);
            mc::add(nm + "zero-length", 1, [=] {
                Session sess; fr::TcpSocket s; auto f = open_connected(); attach(s, f); f->rx = "abc";
                if(all) { char c; MC_CHECK(s.receive_all(&c, 0) == Status::Success, "receive_all of 0 bytes fails"); MC_CHECK(f->rxpos == 0, "receive_all of 0 bytes consumes data"); }
            });
            if(mode != 2)
                for(size_t want : {1, 2, 3, 5})
                    mc::add(nm + "slow/" + N((long long) want), mc::by_tier(2, 4), [=] { slow(blocking, (bool) all, want); }, 4);
        }
    mc::add("never-connected", 0, [] {
        Session sess; fr::TcpSocket s; char c[4]; size_t r = 7;
        Status st = s.receive_raw(c, 4, r);
        MC_CHECK(st != Status::Success && st != Status::WouldBlock && st != Status::Timeout, "receive on an unconnected socket returns " + sname(st));
        MC_CHECK(r == 0, "bytes reported on an unconnected socket");
        st = s.receive_all(c, 4);
        MC_CHECK(st != Status::Success && st != Status::WouldBlock && st != Status::Timeout, "receive_all on an unconnected socket returns " + sname(st));
    });
}
