// C17: every descriptor is closed exactly once, and only by its owner.
#include "sockets.hpp"
#include <algorithm>
using namespace simk;

struct World
{
    std::unique_ptr<Sock> s[2];
    std::unique_ptr<Lst> l, moved;
    std::map<unsigned, int> owner;         // file id -> 0,1: sockets, 2: listener, 3: moved-from listener
    std::vector<FileP> mine;               // descriptors of the program itself
    void attribute(int o) { for(auto &f : all()) if(!f->foreign && !owner.count(f->id)) owner[f->id] = o; }
    std::vector<FileP> files(int o) { std::vector<FileP> r; for(auto &f : all()) if(!f->gone && !f->foreign && owner.count(f->id) && owner[f->id] == o) r.push_back(f); return r; }
    void at_most(int o, size_t n, const std::string &when)
    {
        auto v = files(o);
        if(v.size() > n) mc::fail("descriptor " + N(v[0]->fd) + " obtained by " + (o < 2 ? "a socket" : "a listener") + " is still open " + when);
    }
    void check()
    {
        for(auto &f : mine) MC_CHECK(!f->gone, "a descriptor the library does not own was closed");
        for(int o = 0; o < 4; ++o) at_most(o, 1, "although its owner has replaced it");
    }
};

enum Op { ConnOk, ConnLater, ConnSecond, ConnRefused, ConnNever, ConnNone, Disc, Destroy, ConnB, Listen, AcceptA, AcceptB, CloseL, MoveL, DestroyL, Foreign, Release, Mode, DropMoved, ListenMoved, Adopt, Same, NOPS };
static const char *opn[] = {"connect (at once)", "connect (later)", "connect (second address)", "connect (refused)", "connect (no answer)", "connect (no address)", "disconnect", "destroy socket",
    "connect other socket", "listen", "accept into socket", "accept into other socket", "close listener", "move listener", "destroy listener", "program opens a descriptor", "release descriptor", "non-blocking", "destroy moved-from listener", "listen on moved-from listener", "the socket is given a connection of the program", "the socket is given its own descriptor again"};

static void step(World &w, int op)
{
    MC_NOTE(std::string("* ") + opn[op]);
    cfg.addrs = {"10.0.0.1"};
    Plan first = OkAtOnce;
    switch(op)
    {
        case ConnLater: first = OkLater; break;
        case ConnSecond: cfg.addrs = {"10.0.0.1", "10.0.0.2"}; first = RefusedLater; break;
        case ConnRefused: cfg.addrs = {"10.0.0.1", "10.0.0.1"}; first = RefusedAtOnce; break;
        case ConnNever: first = NeverAnswers; break;
        case ConnNone: cfg.addrs.clear(); break;
    }
    cfg.plan = [first](const std::string &a) { return a == "10.0.0.1" ? first : OkAtOnce; };
    auto backlog = [&] { for(auto &f : w.files(2)) if(f->st == Listening && f->backlog.empty()) f->backlog.push_back("10.1.1.1"); };
    switch(op)
    {
        case ConnOk: case ConnLater: case ConnSecond: case ConnRefused: case ConnNever: case ConnNone: w.s[0]->connect("host", "80", std::chrono::seconds(3)); w.attribute(0); break;
        case ConnB: w.s[1]->connect("host", "80", std::chrono::seconds(3)); w.attribute(1); break;
        case Disc: w.s[0]->disconnect(); w.at_most(0, 0, "after disconnecting"); break;
        case Destroy: w.s[0].reset(); w.at_most(0, 0, "after its owner was destroyed"); w.s[0].reset(new Sock()); break;
        case Listen: w.l->listen("80"); w.attribute(2); break;
        case AcceptA: backlog(); w.l->accept(*w.s[0]); w.attribute(0); break;
        case AcceptB: backlog(); w.l->accept(*w.s[1]); w.attribute(1); break;
        case CloseL: w.l->close_socket(); w.at_most(2, 0, "after closing"); break;
        case MoveL:
        {
#ifndef TLS
            w.moved.reset(); w.at_most(3, 0, "after its owner was destroyed");
            std::unique_ptr<Lst> n(new Lst(std::move(*w.l)));
            w.moved = std::move(w.l); w.l = std::move(n);
#endif
            break;
        }
        case DestroyL: w.l.reset(); w.at_most(2, 0, "after its owner was destroyed"); w.l.reset(new Lst()); break;
        case Foreign: w.mine.push_back(open_foreign()); break;
        case Release:
#ifdef TLS
            break;
#endif
            if(w.s[0]->connected())
            {
                auto f = get(w.s[0]->get_socket_descriptor());
                MC_CHECK(f && !f->foreign, "a connected socket holds a descriptor which is not its own");
                w.s[0]->set_descriptor(nullptr);
                MC_CHECK(!f->gone, "releasing a descriptor closed it");
                f->foreign = true; w.mine.push_back(f);
            }
            break;
        case Adopt: { auto f = open_connected(); attach(*w.s[0], f); w.attribute(0); MC_CHECK(w.s[0]->get_socket_descriptor() == f->fd && !f->gone, "a socket does not hold the descriptor it was given"); break; }
        case Same:
            if(w.s[0]->connected())
            {
                int32_t d = w.s[0]->get_socket_descriptor();
#ifndef TLS
                auto f = get(d);
                w.s[0]->set_descriptor(&d);
                MC_CHECK(f && !f->gone, "giving a socket the descriptor it has already closes it");
#endif
                MC_CHECK(w.s[0]->get_socket_descriptor() == d, "giving a socket the descriptor it has already changes it");
            }
            break;
        case Mode: if(w.s[0]->connected()) w.s[0]->set_blocking(!w.s[0]->get_blocking()); break;
        case DropMoved: w.moved.reset(); w.at_most(3, 0, "after its owner was destroyed"); break;
        case ListenMoved: if(w.moved) { w.moved->listen("81"); w.attribute(3); } break;
    }
    w.check();
}

static void history(int depth, const std::vector<int> &ops, bool faults, bool zero, int first_fd)
{
    Session sess;
    cfg.first_fd = first_fd; cfg.low_fd_zero = zero;
    World w;
    w.s[0].reset(new Sock()); w.s[1].reset(new Sock()); w.l.reset(new Lst());
    cfg.faults = faults;
    for(int i = 0; i < depth; ++i) step(w, ops[(size_t) mc::choose((int) ops.size(), "operation")]);
    cfg.faults = false;
    w.moved.reset(); w.s[0].reset(); w.l.reset(); w.s[1].reset();
    for(int o = 0; o < 4; ++o) w.at_most(o, 0, "after its owner was destroyed");
    check_all_closed("after everything was destroyed");
    for(auto &f : w.mine) MC_CHECK(!f->gone, "a descriptor the library does not own was closed");
    uint64_t h = all().size();
    for(auto &f : all()) h = mc::mix(h, (uint64_t) f->fd * 8 + (uint64_t) f->st);
    mc::outcome(h);
}

// every combination of addresses, of what the attempts end with, and of the errors they report
static void errors(int naddr, int connects)
{
    Session sess;
    World w; w.s[0].reset(new Sock()); w.s[1].reset(new Sock()); w.l.reset(new Lst());
    static const int ONCE[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL, EAFNOSUPPORT, EACCES, ETIMEDOUT};
    static const int LATER[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, ECONNRESET, ECONNABORTED, EACCES};
    cfg.once_error = ONCE[mc::choose(7, "the error reported at once")];
    cfg.later_error = LATER[mc::choose(7, "the error reported later")];
    for(int i = 0; i < connects; ++i)
    {
        static const char *const ADDR[] = {"10.0.0.1", "10.0.0.2", "fd00::3"};
        static const Plan PLAN[] = {OkAtOnce, OkLater, RefusedAtOnce, RefusedLater, NeverAnswers};
        std::map<std::string, Plan> plan; cfg.addrs.clear();
        for(int k = 0; k < naddr; ++k) { cfg.addrs.push_back(ADDR[k]); plan[ADDR[k]] = PLAN[mc::choose(5, "what the address does")]; }
        cfg.plan = [plan](const std::string &a) { auto it = plan.find(a); return it == plan.end() ? OkAtOnce : it->second; };
        Status st = w.s[0]->connect("host", "80", std::chrono::seconds(3));
        MC_NOTE("connect -> " + sname(st));
        w.attribute(0);
        if(st != Status::Success && !w.s[0]->connected()) w.at_most(0, 0, "after connecting failed");
        w.check();
    }
    cfg.plan = nullptr;
    w.s[0].reset(); w.at_most(0, 0, "after its owner was destroyed");
    w.l.reset(); w.s[1].reset();
    check_all_closed("after everything was destroyed");
    mc::outcome(all().size());
}

void mc_register()
{
    // the same short history again and again
    mc::add("again", 0, [=] {
        Session sess;
        World w; w.s[0].reset(new Sock()); w.s[1].reset(new Sock()); w.l.reset(new Lst());
        int o[3]; for(int &x : o) { x = mc::choose(NOPS, "operation"); if(x == Foreign) mc::abandon(); 
#ifdef TLS
            if(x == MoveL || x == DropMoved || x == ListenMoved || x == Release || x == Same) mc::abandon();
#endif
        }
        bool released = o[0] == Release || o[1] == Release || o[2] == Release;
        for(int i = 0; i < (released ? 10 : mc::by_tier(20, 60)); ++i) for(int x : o) step(w, x);
        w.moved.reset(); w.s[0].reset(); w.l.reset(); w.s[1].reset();
        check_all_closed("after everything was destroyed");
        for(auto &f : w.mine) MC_CHECK(!f->gone, "a descriptor the library does not own was closed");
        mc::outcome(all().size());
    }, 8, 1);
    for(int n = 1; n <= 3; ++n) mc::add("errors/" + N(n), 0, [=] { errors(n, 1); }, 4, 1);
    mc::add("errors/1-twice", 0, [=] { errors(1, 2); }, 4, 1);
    mc::add("errors/2-twice", 0, [=] { errors(2, mc::by_tier(1, 2)); }, 4, 1);
    std::vector<int> every; for(int i = 0; i < NOPS; ++i) every.push_back(i);
#ifdef TLS
    every.erase(std::remove_if(every.begin(), every.end(), [](int o) { return o == MoveL || o == DropMoved || o == ListenMoved || o == Release || o == Same; }), every.end());
#endif
    std::vector<int> conn{ConnOk, ConnSecond, ConnRefused, ConnNever, Disc, Destroy, Foreign, Release, Mode, Adopt, Same}, lst{Listen, AcceptA, AcceptB, CloseL, MoveL, DestroyL, Foreign, DropMoved, ListenMoved, Disc};
#ifdef TLS
    conn = {ConnOk, ConnSecond, ConnRefused, ConnNever, Disc, Destroy, Foreign, Mode, Adopt}; lst = {Listen, AcceptA, AcceptB, CloseL, DestroyL, Foreign, Disc, Destroy};
#endif
    mc::add("all/no-faults", 0, [=] { history(mc::by_tier(4, 5), every, false, false, 300); }, 8, 2);
    mc::add("all/faults", 1, [=] { history(mc::by_tier(3, 4), every, true, false, 300); }, 8, 2);
    mc::add("connecting/faults", 2, [=] { history(mc::by_tier(3, 4), conn, true, false, 300); }, 8, 2);
    mc::add("connecting/deep", 0, [=] { history(mc::by_tier(5, 7), conn, false, false, 300); }, 8, 2);
    mc::add("listening/faults", 2, [=] { history(mc::by_tier(3, 4), lst, true, false, 300); }, 8, 2);
    mc::add("listening/deep", 0, [=] { history(mc::by_tier(5, 6), lst, false, false, 300); }, 8, 2);
    mc::add("all/descriptor-zero", 1, [=] { history(mc::by_tier(2, 3), every, true, true, 300); }, 4, 1);
    mc::add("all/high-descriptors", 1, [=] { history(mc::by_tier(2, 3), every, true, false, 5000); }, 4, 1);
}
