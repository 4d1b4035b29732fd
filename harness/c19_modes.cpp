// C19: blocking mode and timeouts always match the live connection.
#include "sockets.hpp"
using namespace simk;

enum Op { Conn, ConnLater, ConnFail, Accept, Disc, Block, NonBlock, Rcv1, Rcv2, Rcv0, Snd1, Snd2, Snd0, AttachNB, RcvMax, NOPS };
static const char *opn[] = {"connect", "connect later", "connect fails", "accept", "disconnect", "set_blocking(true)", "set_blocking(false)", "receive timeout 1", "receive timeout 1999", "no receive timeout", "send timeout 1001", "send timeout 30000", "no send timeout", "attach a non-blocking descriptor", "receive timeout max"};

static void history(int depth, const std::vector<int> &ops, bool faults, int fdbase)
{
    Session sess;
    cfg.first_fd = fdbase;
    Sock s; Lst l;
    MC_CHECK(l.listen("80") == Status::Success, "listen fails");
    auto lf = get(l.get_socket_descriptor());
    cfg.faults = faults; cfg.f_gai = cfg.f_accept = cfg.f_socket = false;
    long long rcv = 0, snd = 0;
    for(int i = 0; i < depth; ++i)
    {
        int op = ops[(size_t) mc::choose((int) ops.size(), "operation")];
        MC_NOTE(std::string("* ") + opn[op]);
        bool was = s.connected(), mode = s.get_blocking(), fresh = false;
        unsigned f0 = faults_hit;
        cfg.addrs = {"10.0.0.1"};
        cfg.plan = [op](const std::string &) { return op == ConnLater ? OkLater : op == ConnFail ? RefusedLater : OkAtOnce; };
        switch(op)
        {
            case Conn: case ConnLater: case ConnFail: fresh = s.connect("h", "1", std::chrono::seconds(2)) == Status::Success; break;
            case Accept: lf->backlog = {"10.2.2.2"}; fresh = l.accept(s) == Status::Success; break;
            case Disc: s.disconnect(); break;
            case Block: case NonBlock:
            {
                Status st = s.set_blocking(op == Block);
                if(!was) { if(s.get_blocking() != mode && st != Status::Success) mc::fail("a failed mode change is reported as made"); break; }
                if(st == Status::Success) MC_CHECK(s.get_blocking() == (op == Block), "a successful mode change is not reported");
                else
                {
                    MC_CHECK(faults_hit > f0, "set_blocking fails with " + sname(st) + " although nothing went wrong");
                    MC_CHECK(s.get_blocking() == mode, "a failed mode change is reported as made");
                }
                break;
            }
            case Rcv1: rcv = 1; s.set_receive_timeout(1); break;
            case Rcv2: rcv = 1999; s.set_receive_timeout(1999); break;
            case Rcv0: rcv = 0; s.set_receive_timeout(0); break;
            case RcvMax: rcv = 4294967295ll; s.set_receive_timeout(4294967295u); break;
            case Snd1: snd = 1001; s.set_send_timeout(1001); break;
            case Snd2: snd = 30000; s.set_send_timeout(30000); break;
            case Snd0: snd = 0; s.set_send_timeout(0); break;
            case AttachNB: { bool was_faulty = cfg.faults; cfg.faults = false; auto f = open_connected(); f->nonblock = mc::choose(2, "non-blocking"); attach(s, f); cfg.faults = was_faulty; break; }
        }
        MC_CHECK(s.get_receive_timeout() == rcv && s.get_send_timeout() == snd, "the timeouts reported differ from those that were set");
        if(op >= Rcv1 && op != AttachNB) MC_CHECK(s.connected() == was && s.get_blocking() == mode, "setting a timeout changed the connection");
        if(s.connected())
        {
            auto f = get(s.get_socket_descriptor());
            MC_CHECK(f && f->st == Connected, "a connected socket has no connection");
            if(fresh) MC_CHECK(s.get_blocking(), "a fresh connection is reported as non-blocking");
            MC_CHECK(f->nonblock == !s.get_blocking(), std::string("the socket reports ") + (s.get_blocking() ? "blocking" : "non-blocking") + " mode, its descriptor is " + (f->nonblock ? "non-blocking" : "blocking"));
            MC_CHECK(f->rcv_us == rcv * 1000, "the receive timeout in force is " + N(f->rcv_us) + " us instead of " + N(rcv) + " ms");
            MC_CHECK(f->snd_us == snd * 1000, "the send timeout in force is " + N(f->snd_us) + " us instead of " + N(snd) + " ms");
            MC_CHECK(f->nodelay && !f->cork, "Nagle's algorithm is not switched off");
            // and the statuses agree with the mode
            char b; size_t r = 0;
            f->rxerr = 0;
            if(f->nonblock || f->rcv_us)
            {
                long long t = clock_us;
                Status st = s.receive_raw(&b, 1, r);
                MC_CHECK(st == (s.get_blocking() ? Status::Timeout : Status::WouldBlock), "a receive without data returns " + sname(st) + " in " + (s.get_blocking() ? "blocking" : "non-blocking") + " mode");
                if(s.get_blocking()) MC_CHECK(clock_us - t == rcv * 1000, "the receive waited " + N(clock_us - t) + " us");
            }
        }
    }
    cfg.faults = false;
    uint64_t h = (uint64_t) s.connected() * 2 + s.get_blocking();
    mc::outcome(mc::mix(h, (uint64_t) (rcv * 100000 + snd)));
}

static void value(uint32_t ms, int how)
{
    Session sess;
    Sock s;
    cfg.addrs = {"10.0.0.1"};
    if(how == 0) { s.set_receive_timeout(ms); s.set_send_timeout(ms ^ 1); }
    MC_CHECK(s.connect("h", "1", std::chrono::seconds(1)) == Status::Success, "connect fails");
    if(how == 1) { s.set_receive_timeout(ms); s.set_send_timeout(ms ^ 1); }
    if(how == 2) { s.set_send_timeout(ms ^ 1); s.set_receive_timeout(ms); s.disconnect(); auto f = open_connected(); attach(s, f); }
    auto f = get(s.get_socket_descriptor());
    MC_CHECK(f->rcv_us == ms * 1000ll && f->snd_us == (ms ^ 1) * 1000ll, "timeouts of " + N(ms) + " and " + N(ms ^ 1) + " ms are applied as " + N(f->rcv_us) + " and " + N(f->snd_us) + " us");
    mc::outcome((uint64_t) f->rcv_us);
}

void mc_register()
{
    std::vector<int> every; for(int i = 0; i < NOPS; ++i) every.push_back(i);
    std::vector<int> mode{Conn, ConnLater, ConnFail, Accept, Disc, Block, NonBlock, AttachNB}, tmo{Conn, Accept, Disc, NonBlock, Rcv1, Rcv2, Rcv0, Snd1, Snd0};
    mc::add("all", 0, [=] { history(mc::by_tier(4, 5), every, false, 300); }, 8, 2);
    mc::add("all/faults", 1, [=] { history(mc::by_tier(3, 4), every, true, 300); }, 8, 2);
    mc::add("modes/faults", 2, [=] { history(mc::by_tier(4, 5), mode, true, 300); }, 8, 2);
    mc::add("modes/deep", 0, [=] { history(mc::by_tier(6, 7), mode, false, 300); }, 8, 2);
    mc::add("timeouts/deep", 0, [=] { history(mc::by_tier(5, 6), tmo, false, 300); }, 8, 2);
    mc::add("all/high-descriptors", 1, [=] { history(2, every, true, 5000); });
    for(int how = 0; how < 3; ++how)
        mc::add("values/" + N(how), 0, [=] { std::vector<uint32_t> v; for(uint32_t i = 0; i < 2200; ++i) v.push_back(i); for(uint32_t i : {59999u, 60000u, 2147483u, 2147484u, 4294967u, 4294968u, 2147483647u, 2147483648u, 4294967294u, 4294967295u, 1000000u, 999999u}) v.push_back(i); value(v[(size_t) mc::choose((int) v.size(), "milliseconds")], how); });
}
