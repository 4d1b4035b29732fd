// C18: connect, listen and accept report the truth.
#include "sockets.hpp"
using namespace simk;

static std::string addr_of(int i) { return i == 2 ? "fd00::7" : "10.0.0." + N(i + 1); }
static const char *plan_name[] = {"ok", "ok later", "refused", "refused later", "no answer", "unreachable"};

static void usable(Sock &s, FileP f, const std::string &what)
{
    size_t sent = 0, got = 0; char b[8];
    f->rx += "pong";
    MC_CHECK(s.send_raw("ping", 4, sent) == Status::Success && sent == 4 && f->tx.size() >= 4 && f->tx.substr(f->tx.size() - 4) == "ping", "sending does not work after " + what);
    MC_CHECK(s.receive_raw(b, 8, got) == Status::Success && got == 4 && !memcmp(b, "pong", 4), "receiving does not work after " + what);
}

// One attempt; the plans of the addresses are explored.
static void attempt(Sock &s, int naddr, int version, long long secs, bool clean)
{
    std::vector<std::string> as; std::map<std::string, Plan> plans;
    std::vector<std::string> want;         // the addresses of the chosen version in order
    for(int i = 0; i < naddr; ++i)
    {
        as.push_back(addr_of(i));
        bool six = as.back().find(':') != std::string::npos;
        if(version == 0 || (version == 6) == six) want.push_back(as.back());
    }
    cfg.addrs = as;
    for(auto &a : want) plans[a] = clean ? OkAtOnce : (Plan) mc::choose(6, "plan of an address");
    cfg.later_us = clean ? 0 : std::vector<long long>{1000, (secs ? secs : 20) * 1000000 - 1000000, (secs ? secs : 20) * 1000000 + 1000000}[(size_t) mc::choose(3, "delay")];
    cfg.plan = [plans](const std::string &a) { auto i = plans.find(a); return i == plans.end() ? RefusedAtOnce : i->second; };
    connect_log.clear(); resolve_log.clear();
    long long t0 = clock_us; unsigned f0 = faults_hit, i0 = interrupts;
    s.set_inet_version(version == 0 ? fr::Socket::IP::any : version == 4 ? fr::Socket::IP::v4 : fr::Socket::IP::v6);
    Status st = s.connect("some.host", "4321", std::chrono::seconds(secs));
    MC_NOTE("connect -> " + sname(st));
    bool faulty = faults_hit - f0 > interrupts - i0;    // a signal is no reason to fail
    std::string log; for(auto &a : connect_log) log += a + " ";
    mc::outcome(mc::mix((uint64_t) st, mc::hash(log)));
    long long limit = (secs ? secs : 20) * 1000000, cost = 0;
    // what must happen
    std::vector<std::string> tried; bool ok = false; std::string to;
    for(auto &a : want)
    {
        tried.push_back(a);
        Plan p = plans[a];
        if(p == OkAtOnce || (p == OkLater && cfg.later_us <= limit)) { ok = true; to = a; if(p == OkLater) cost += cfg.later_us; break; }
        if(p == RefusedLater && cfg.later_us <= limit) cost += cfg.later_us;
        else if(p == NeverAnswers || p == OkLater || p == RefusedLater) cost += limit;
    }
    if(!faulty)
    {
        MC_CHECK(resolve_log.size() == 1 && resolve_log[0] == "some.host|4321", "the host and port asked for were not looked up");
        MC_CHECK((st == Status::Success) == ok, std::string("connect returns ") + sname(st) + (ok ? " although a connection was possible" : " although no connection was made"));
        MC_CHECK(connect_log == tried, "addresses tried: " + log + "instead of " + N((long long) tried.size()) + " in order");
        long long slack = 2000ll * (interrupts - i0), off = clock_us - t0 - cost;
        MC_CHECK(off <= slack && off >= -slack, "connecting took " + N((clock_us - t0) / 1000) + " ms instead of " + N(cost / 1000) + " ms with a limit of " + N(secs) + " s per address");
        if(ok) MC_CHECK(get(s.get_socket_descriptor()) && get(s.get_socket_descriptor())->addr == to, "connected to the wrong address");
    }
    if(st == Status::Success)
    {
        auto f = get(s.get_socket_descriptor());
        MC_CHECK(s.connected(), "connected() is false after Success");
        MC_CHECK(f && !f->foreign && f->st == Connected, "connect returns Success, but the descriptor is not connected");
        usable(s, f, "connect");
        MC_CHECK(open_files().size() == 1, "more than the one connection is open after connecting");
    }
    else
    {
        MC_CHECK(!s.connected() && s.get_socket_descriptor() == -1, "connected() is true after connect returned " + sname(st));
        size_t got = 0, sent = 0; char b[4];
        MC_CHECK(s.send_raw("x", 1, sent) != Status::Success && s.receive_raw(b, 1, got) != Status::Success, "a socket that failed to connect can be used");
    }
}

static void connecting(int naddr, int version, long long secs, int before, bool faults, int fdbase, bool errors = false, bool signals = false)
{
    Session sess;
    static const long long EVERY[] = {330000, 700000, 1000000, 1999000, 5000001};
    if(errors)
    {
        static const int AT_ONCE[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, EACCES, EPERM, EADDRNOTAVAIL, ETIMEDOUT, EAFNOSUPPORT}, LATER[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EACCES, EPROTO, ENETDOWN, EHOSTDOWN, ENOPROTOOPT, EMSGSIZE};
        if(mc::choose(2, "which errors")) cfg.later_error = LATER[mc::choose(11, "the later error")];
        else cfg.once_error = AT_ONCE[mc::choose(8, "the error at once")];
    }
    if(fdbase == 0) cfg.low_fd_zero = true; else cfg.first_fd = fdbase;
    Sock s;
    switch(before)
    {
        case 1: attempt(s, 1, 0, 3, true); break;                          // connected
        case 2: attempt(s, 1, 0, 3, true); s.disconnect(); break;          // disconnected
        case 3: { cfg.addrs = {"10.0.0.9"}; cfg.plan = [](const std::string &) { return RefusedLater; }; s.connect("h", "1", std::chrono::seconds(1)); break; }
        case 4: { attempt(s, 1, 0, 3, true); MC_CHECK(s.set_blocking(false) == Status::Success, "set_blocking fails"); break; }
        case 5: { attempt(s, 1, 0, 3, true); get(s.get_socket_descriptor())->eof = true; char b; size_t r; s.receive_raw(&b, 1, r); break; }
    }
    cfg.faults = faults;
    if(signals) cfg.signal_us = EVERY[mc::choose(5, "a signal every so often")];
    attempt(s, naddr, version, secs, false);
    cfg.faults = false; cfg.signal_us = 0;
    // as on a fresh one
    attempt(s, 1, 0, 2, true);
    MC_CHECK(s.get_blocking() && !get(s.get_socket_descriptor())->nonblock, "a fresh connection is not blocking");
}

static void listening(int version, int before, bool faults, int fdbase)
{
    Session sess;
    if(fdbase == 0) cfg.low_fd_zero = true; else cfg.first_fd = fdbase;
    Lst l;
    l.set_inet_version(version == 0 ? fr::Socket::IP::any : version == 4 ? fr::Socket::IP::v4 : fr::Socket::IP::v6);
    if(before) { MC_CHECK(l.listen("70") == Status::Success, "listen fails"); if(before == 2) l.close_socket(); }
    auto good = [&](Status st, const char *port)
    {
        auto f = get(l.get_socket_descriptor());
        MC_CHECK(l.connected() && f && !f->foreign && f->st == Listening, "listen returns Success, but nothing is listening");
        MC_CHECK(resolve_log.size() == 1 && resolve_log[0] == std::string("*|") + port, "the wrong port was looked up");
        bool six = f->addr.find(':') != std::string::npos;
        MC_CHECK(version == 0 || six == (version == 6), "listening with the wrong IP version");
        (void) st;
        MC_CHECK(open_files().size() == 1, "more than the one listener is open");
    };
    for(int round = 0; round < 2; ++round)
    {
        cfg.faults = faults && round == 0;
        unsigned f0 = faults_hit; resolve_log.clear();
        Status st = l.listen(round ? "81" : "80");
        MC_NOTE("listen -> " + sname(st));
        mc::outcome((uint64_t) st);
        if(st == Status::Success) good(st, round ? "81" : "80");
        else
        {
            MC_CHECK(faults_hit > f0, "listen fails with " + sname(st) + " although nothing went wrong");
            MC_CHECK(!l.connected(), "connected() is true after listen returned " + sname(st));
        }
    }
    cfg.faults = false;
    Sock c;
    get(l.get_socket_descriptor())->backlog.push_back("10.3.3.3");
    MC_CHECK(l.accept(c) == Status::Success && c.connected(), "a listener cannot be used");
}

static void accepting(int before, int clients, bool faults, int fdbase)
{
    Session sess;
    if(fdbase == 0) cfg.low_fd_zero = true; else cfg.first_fd = fdbase;
    Lst l; Sock c;
    auto lf = [&] { return get(l.get_socket_descriptor()); };
    if(before == 1) attempt(c, 1, 0, 3, true);
    if(before == 2) { attempt(c, 1, 0, 3, true); c.set_blocking(false); c.disconnect(); }
    if(before == 3) { attempt(c, 1, 0, 3, true); c.set_blocking(false); }
    if(before == 4) { MC_CHECK(l.accept(c) != Status::Success && !c.connected(), "accept works on a listener that does not listen"); }
    MC_CHECK(l.listen("80") == Status::Success, "listen fails");
    std::vector<std::string> from{"10.3.3.3", "fd00:1:2:3:4:5:6:7", "255.255.255.255", "::1"};
    int first = mc::choose(4, "first client");
    for(int i = 0; i < clients; ++i) lf()->backlog.push_back(from[(size_t) (first + i) % 4]);
    cfg.faults = faults;
    for(int i = 0; i < clients;)
    {
        unsigned f0 = faults_hit, n0 = names_failed, h0 = handshakes_failed; size_t waiting = lf()->backlog.size();
        auto old = c.connected() ? get(c.get_socket_descriptor()) : nullptr;
        size_t nfiles = all().size();
        std::string oldaddr = c.get_remote_address();
        Status st = l.accept(c);
        MC_NOTE("accept -> " + sname(st));
        mc::outcome(mc::mix((uint64_t) st, (uint64_t) i));
        if(st == Status::Success)
        {
            MC_CHECK(lf()->backlog.size() == waiting - 1, "Success without a connection having been taken over");
            MC_CHECK(all().size() == nfiles + 1, "one connection should have been taken over");
            auto f = all().back();
            MC_CHECK(!f->gone && c.connected() && c.get_socket_descriptor() == f->fd, "the client is not attached to the connection that was taken over");
            if(names_failed > n0) { for(auto &a : from) MC_CHECK(c.get_remote_address() != a || a == from[(size_t) (first + i) % 4], "the address of another peer is recorded"); }
            else MC_CHECK(c.get_remote_address() == from[(size_t) (first + i) % 4], "the peer's address is recorded as " + c.get_remote_address() + " instead of " + from[(size_t) (first + i) % 4]);
            MC_CHECK(!old || old->gone, "the connection that was replaced is still open");
            MC_CHECK(c.get_blocking() && !f->nonblock, "an accepted connection is not blocking");
            usable(c, f, "accept");
            ++i;
        }
        else
        {
            MC_CHECK(faults_hit > f0, "accept fails with " + sname(st) + " although nothing went wrong");
            if(handshakes_failed > h0) { if(lf()->backlog.size() < waiting) ++i; }
            else MC_CHECK(lf()->backlog.size() == waiting, "accept fails with " + sname(st) + " after taking a connection");
            MC_CHECK(c.connected() == (old != nullptr), "connected() is wrong after a failed accept");
            if(old) { MC_CHECK(!old->gone && c.get_remote_address() == oldaddr, "a failed accept disturbed the client object"); usable(c, old, "a failed accept"); }
        }
    }
}

// attempt after attempt on one object
static void again(int n)
{
    Session sess;
    cfg.max_calls = 2000000;
    Sock s; Lst l; Sock c;
    int a = mc::choose(4, "first attempt"), b = mc::choose(4, "second attempt"), how = mc::choose(3, "listener");
    for(int i = 0; i < n; ++i)
    {
        int k = i % 2 ? b : a;
        cfg.addrs = {"10.0.0.1", "fd00::2"};
        cfg.plan = [k](const std::string &x) { bool v4 = x == "10.0.0.1"; return k == 0 ? OkAtOnce : k == 1 ? RefusedLater : k == 2 ? (v4 ? RefusedAtOnce : OkLater) : NeverAnswers; };
        Status st = s.connect("host", "80", std::chrono::seconds(2));
        cfg.plan = nullptr;
        bool ok = k == 0 || k == 2;
        MC_CHECK((st == Status::Success) == ok && s.connected() == ok, "attempt " + N(i) + ": connect returns " + sname(st) + (s.connected() ? ", connected" : ", not connected"));
        if(ok) { auto f = get(s.get_socket_descriptor()); MC_CHECK(f && f->addr == (k == 0 ? "10.0.0.1" : "fd00::2"), "attempt " + N(i) + " is connected to another address"); }
        if(how == 1 || !i) MC_CHECK(l.listen("80") == Status::Success && l.connected(), "listen number " + N(i) + " fails");
        if(how == 2 && i) { l.close_socket(); MC_CHECK(!l.connected(), "a closed listener is connected"); MC_CHECK(l.listen("80") == Status::Success, "listen number " + N(i) + " fails"); }
        get(l.get_socket_descriptor())->backlog.push_back("10.1.2." + N(i % 200));
        MC_CHECK(l.accept(c) == Status::Success && c.connected() && c.get_remote_address() == "10.1.2." + N(i % 200), "accept number " + N(i) + " fails or records " + c.get_remote_address());
        MC_CHECK(open_files().size() == (size_t) (2 + ok), "attempt " + N(i) + ": " + N((long long) open_files().size()) + " descriptors are open");
    }
    mc::outcome((uint64_t) (a * 16 + b * 4 + how));
}

void mc_register()
{
    mc::add("again", 0, [] { again(mc::by_tier(300, 2000)); }, 8, 2);
    for(int fd : {300, 0, 5000})
        for(int before = 0; before < 6; ++before)
        {
            std::string b = "fd" + N(fd) + "/before" + N(before);
            for(int n = 0; n <= mc::by_tier(3, 3); ++n)
                for(int v : {0, 4, 6})
                {
                    if(fd != 300 && v) continue;
                    for(int secs : {0, 1, 7, 100000})
                    {
                        if((fd != 300 || v) && secs != 7) continue;
                        if(secs == 100000 && n > 1) continue;
                        mc::add(b + "/connect" + N(n) + "/v" + N(v) + "/" + N(secs), 0, [=] { connecting(n, v, secs, before, false, fd); });
                    }
                    if(n && !v && fd == 300) for(int secs : {0, 7}) mc::add(b + "/signals" + N(n) + "/" + N(secs), 0, [=] { connecting(n, v, secs, before, false, fd, false, true); });
                    if(n && !v && fd == 300) mc::add(b + "/errors" + N(n), 0, [=] { connecting(n, v, 7, before, false, fd, true); });
                    if(n && v != 4) mc::add(b + "/faults" + N(n) + "/v" + N(v), n == 3 ? 1 : mc::by_tier(2, 3), [=] { connecting(n, v, 7, before, true, fd); }, 4);
                }
            if(before < 3) for(int v : {0, 4, 6}) { mc::add(b + "/listen/v" + N(v), 0, [=] { listening(v, before, false, fd); }); mc::add(b + "/listen-faults/v" + N(v), mc::by_tier(4, 6), [=] { listening(v, before, true, fd); }); }
            if(before < 5) { mc::add(b + "/accept", 0, [=] { accepting(before, 4, false, fd); }); mc::add(b + "/accept-faults", mc::by_tier(3, 4), [=] { accepting(before, 3, true, fd); }); }
        }
}
