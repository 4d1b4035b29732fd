// C01: raw TCP send.  Every answer of the kernel to every write, in both modes, with retries.
#include "giant.hpp"
using namespace simk;

static void run(size_t size, bool blocking, bool free_sizes, int messages)
{
    signal(SIGPIPE, SIG_DFL);
    Session sess;
    cfg.tx_free = free_sizes; cfg.tx_short = true; cfg.tx_eintr = true; cfg.tx_again = true;
    cfg.tx_errs = {ECONNRESET, EPIPE, ENOBUFS};
    fr::TcpSocket s;
    auto f = open_connected();
    if(blocking) s.set_send_timeout(1500);
    attach(s, f);
    if(!blocking) MC_CHECK(s.set_blocking(false) == Status::Success, "set_blocking(false) fails");
    std::string expect;
    bool dead = false;
    for(int m = 0; m < messages && !dead; ++m)
    {
        std::string data = pattern(size, (unsigned) m);
        const std::string before = data;
        size_t sent = 0;
        for(int attempt = 0;; ++attempt)
        {
            if(attempt > patience(50)) mc::fail("send_raw still not finished after that many retries");
            unsigned again0 = f->tx_agains;
            Status st = s.send_raw(data.data(), data.size(), sent);
            MC_NOTE("send_raw -> " + sname(st) + ", sent=" + N((long long) sent));
            MC_CHECK(sent <= size, "sent=" + N((long long) sent) + " exceeds the size " + N((long long) size));
            MC_CHECK(data == before, "send_raw altered the caller's data");
            MC_CHECK(f->tx.size() == expect.size() + sent && f->tx.compare(0, expect.size(), expect) == 0 && f->tx.compare(expect.size(), sent, data, 0, sent) == 0, "after " + sname(st) + " with sent=" + N((long long) sent) + " the wire holds " + N((long long) f->tx.size()) + " bytes: '" + mc::printable(f->tx, 80) + "' instead of exactly the first " + N((long long) sent) + " bytes of the data");
            MC_CHECK((st == Status::Success) == (sent == size), sname(st) + " although sent=" + N((long long) sent) + " of " + N((long long) size));
            mc::outcome(mc::mix((uint64_t) st, sent));
            if(st == Status::Success) break;
            if(st == Status::WouldBlock) { MC_CHECK(!blocking, "WouldBlock on a blocking socket"); }
            else if(st == Status::Timeout) { MC_CHECK(blocking, "Timeout on a non-blocking socket"); }
            else
            {
                MC_CHECK(st == Status::SendError, "unexpected status " + sname(st));
                MC_CHECK(f->broken, "SendError although no write failed");
                dead = true; break;
            }
            MC_CHECK(!f->broken, sname(st) + " although the write failed with a real error");
            MC_CHECK(f->tx_agains > again0, sname(st) + " although no write would block");
        }
        expect += data.substr(0, sent);
        if(dead)
        {
            // a peer that has gone away: still a status, still nothing lost or doubled
            size_t again = sent;
            Status st = s.send_raw(data.data(), data.size(), again);
            MC_CHECK(st == Status::SendError, "sending to a peer that has gone away returns " + sname(st));
            MC_CHECK(again == sent && f->tx == expect, "bytes counted or put on the wire after the connection broke");
        }
    }
}

// more than 31 and 32 bits can count
static void gigabytes(bool blocking)
{
    Session sess;
    size_t size = GIANTS[mc::choose(mc::by_tier(2, 4), "size")];
    Giant g(size);
    g.fill();
    fr::TcpSocket s;
    auto f = open_connected();
    attach(s, f);
    if(!blocking) s.set_blocking(false);
    f->giant_tx = g.base;
    size_t sent = 0;
    Status st = s.send_raw(g.base, size, sent);
    MC_CHECK(st == Status::Success && sent == size && f->giant_tx_done == size, "sending " + N((long long) size) + " bytes: " + sname(st) + ", sent=" + N((long long) sent) + ", on the wire " + N((long long) f->giant_tx_done));
    mc::outcome(size);
}

void mc_register()
{
    for(int b = 0; b < 2; ++b) mc::add(std::string("gigabytes/") + (b ? "blocking" : "nonblocking"), 0, [=] { gigabytes(b); }, 4, 1);
    for(int blocking = 0; blocking < 2; ++blocking)
    {
        std::string m = blocking ? "blocking" : "nonblocking";
        for(size_t n : {0, 1, 2, 3, 4, 5})
            mc::add("all-compositions/" + m + "/" + N((long long) n), n <= 4 ? mc::by_tier(3, 4) : mc::by_tier(2, 3), [=] { run(n, blocking, true, 1); }, n >= 4 ? 8 : 1);
        if(mc::thorough())
            for(size_t n : {7, 9}) mc::add("all-compositions/" + m + "/" + N((long long) n), 2, [=] { run(n, blocking, true, 1); }, 16);
        mc::add("two-messages/" + m, mc::by_tier(3, 4), [=] { run(3, blocking, true, 2); }, 8);
        for(size_t n : {64, 1448, 4095, 4096, 4097, 65535, 65536, 70000})
            mc::add("large/" + m + "/" + N((long long) n), mc::by_tier(n < 5000 ? 3 : 2, n < 5000 ? 5 : 4), [=] { run(n, blocking, false, 1); }, 8);
        mc::add("every-size/" + m, mc::by_tier(1, 2), [=] { run((size_t) mc::choose(mc::by_tier(1600, 9000), "size"), blocking, false, 1); }, 8, 1);
        mc::add("storm/" + m, 0, [=] { Storm st(mc::choose(Storm::KINDS, "storm")); static const size_t SIZES[] = {0, 1, 5, 130, 1448, 5000}; run(SIZES[mc::choose(6, "size")], blocking, false, 2); }, 8, 2);
        mc::add("many/" + m, 0, [=] { run((size_t) mc::choose(3, "size") * 3 + 1, blocking, false, mc::by_tier(3000, 30000)); }, 3, 1);
        for(size_t n : {size_t(1) << 20, (size_t(1) << 20) + 1, size_t(3) << 20})
            mc::add("megabytes/" + m + "/" + N((long long) n), mc::by_tier(1, 2), [=] { run(n, blocking, false, 1); }, 4);
    }
}
