// C20: the selector reports exactly the ready registered sockets (on real descriptors and real epoll).
#include "util.hpp"
#include "frnetlib/SocketSelector.h"
#include "frnetlib/TcpListener.h"
#include <algorithm>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <unistd.h>

// ---- the boundary to epoll: timeouts are recorded and never waited for, failures can be injected ----
static long long last_timeout = -12345;
static unsigned ctl_fail = 0, ctl_failed = 0, waits = 0;
static int wait_errno = 0;
extern "C" int __real_epoll_wait(int, struct epoll_event *, int, int);
extern "C" int __real_epoll_pwait(int, struct epoll_event *, int, int, const sigset_t *);
extern "C" int __real_epoll_ctl(int, int, int, struct epoll_event *);
static bool interfere()
{
    ++waits;
    if(wait_errno) { errno = wait_errno; wait_errno = 0; return true; }
    return false;
}
extern "C" int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int t)
{
    last_timeout = t;
    if(interfere()) return -1;
    return __real_epoll_wait(e, ev, n, 0);
}
extern "C" int __wrap_epoll_pwait(int e, struct epoll_event *ev, int n, int t, const sigset_t *s)
{
    last_timeout = t;
    if(interfere()) return -1;
    return __real_epoll_pwait(e, ev, n, 0, s);
}
extern "C" int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev)
{
    if(ctl_fail && op == EPOLL_CTL_ADD) { --ctl_fail; ++ctl_failed; errno = mc::deviate(2, "epoll error") ? ENOMEM : ENOSPC; return -1; }
    return __real_epoll_ctl(e, op, fd, ev);
}

// ---- world: objects, their peers, and what the selector should know ----
struct Obj
{
    std::shared_ptr<fr::SocketDescriptor> d;
    std::shared_ptr<fr::TcpSocket> s;          // d as a socket
    std::shared_ptr<fr::TcpListener> l;        // d as a listener
    bool sock = false;
    void close() { if(s) s->disconnect(); else l->close_socket(); }
    int peer = -1;
    bool open = false, peer_open = false;
    unsigned pending = 0;                      // bytes to read, or connections to accept
    std::vector<int> clients;
    uint16_t port = 0;
};
struct Reg { bool in = false, live = false; void *opaque = nullptr; };   // live: the descriptor it was added with is still open
struct World
{
    std::vector<std::unique_ptr<fr::SocketSelector>> sel;
    std::vector<std::shared_ptr<Obj>> slot;
    struct Entry { std::shared_ptr<Obj> o; Reg r; };
    std::vector<std::vector<Entry>> reg;       // per selector
    uintptr_t next_opaque = 0x1000;
    int base_fd = -1;
    std::string last;

    World(int nsel, int nsock, int nlis)
    {
        base_fd = ::dup(0); ::close(base_fd);
        reg.resize((size_t) nsel);
        for(int i = 0; i < nsel; ++i) sel.emplace_back(new fr::SocketSelector);
        for(int i = 0; i < nsock; ++i) { slot.push_back(fresh_socket()); open(*slot.back()); }
        for(int i = 0; i < nlis; ++i) { slot.push_back(fresh_listener()); open(*slot.back()); }
    }
    std::shared_ptr<Obj> fresh_socket() { auto o = std::make_shared<Obj>(); o->sock = true; o->s = std::make_shared<fr::TcpSocket>(); o->d = o->s; return o; }
    std::shared_ptr<Obj> fresh_listener() { auto o = std::make_shared<Obj>(); o->l = std::make_shared<fr::TcpListener>(); o->d = o->l; return o; }
    ~World()
    {
        for(auto &o : slot) if(o->peer != -1) ::close(o->peer);
        for(auto &r : reg) for(auto &e : r) if(e.o->peer != -1 && !in_slot(e.o)) ::close(e.o->peer);
        for(auto &o : slot) for(int c : o->clients) ::close(c);
        for(auto &r : reg) for(auto &e : r) if(!in_slot(e.o)) { for(int c : e.o->clients) ::close(c); e.o->clients.clear(); e.o->peer = -1; }
    }
    bool in_slot(const std::shared_ptr<Obj> &o) { return std::find(slot.begin(), slot.end(), o) != slot.end(); }
    void open(Obj &o)
    {
        if(o.s)
        {
            int sv[2];
            if(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) throw std::runtime_error("socketpair");
            o.s->set_descriptor(&sv[0]);
            MC_CHECK(o.s->connected() && o.s->get_socket_descriptor() == sv[0], "a socket given a descriptor isn't connected");
            o.peer = sv[1]; o.peer_open = true; o.pending = 0;
        }
        else
        {
            MC_CHECK(o.l->listen("0") == Status::Success, "listening on the loopback fails");
            sockaddr_storage a{}; socklen_t n = sizeof a;
            if(::getsockname(o.l->get_socket_descriptor(), (sockaddr *) &a, &n)) throw std::runtime_error("getsockname");
            o.port = ntohs(((sockaddr_in *) &a)->sin_port);    // same place for both families
            o.pending = 0;
        }
        o.open = true;
    }
    void closed(Obj &o)
    {
        o.open = false; o.pending = 0;
        if(o.peer != -1) { ::close(o.peer); o.peer = -1; }
        o.peer_open = false;
        for(int c : o.clients) ::close(c);
        o.clients.clear();
        for(auto &r : reg) for(auto &e : r) if(e.o.get() == &o) e.r.live = false;
    }
    Entry *find(int k, Obj *o) { for(auto &e : reg[(size_t) k]) if(e.o.get() == o && e.r.in) return &e; return nullptr; }
    std::string name(Obj *o)
    {
        for(size_t i = 0; i < slot.size(); ++i) if(slot[i].get() == o) return (o->sock ? "socket " : "listener ") + N((long long) i);
        return "a replaced socket";
    }
    bool ready(Obj &o) { return o.open && (o.pending || (o.sock && !o.peer_open)); }

    // what wait() reports against what it should
    void observe(int k, int how)
    {
        auto &sl = *sel[(size_t) k];
        last_timeout = -12345; waits = 0;
        if(how == 3) { wait_errno = EINTR; }
        auto got = how == 0 ? sl.wait(std::chrono::milliseconds(0)) : how == 1 ? sl.wait() : how == 2 ? sl.wait(std::chrono::milliseconds(70000)) : sl.wait(std::chrono::milliseconds(5));
        long long want = how == 0 ? 0 : how == 1 ? -1 : how == 2 ? 70000 : 5;
        wait_errno = 0;
        if(waits) MC_CHECK(last_timeout == want, "wait waits for " + N(last_timeout) + " ms instead of " + N(want));
        if(how == 3 && waits) { MC_CHECK(got.empty() || waits > 1, "an interrupted wait reports sockets"); if(got.empty()) return; }
        std::vector<Entry *> want_list;
        for(auto &e : reg[(size_t) k]) if(e.r.in && e.r.live && ready(*e.o)) want_list.push_back(&e);
        for(auto &g : got)
        {
            auto it = std::find_if(want_list.begin(), want_list.end(), [&](Entry *e) { return e && e->o->d == g.first; });
            if(it == want_list.end())
            {
                for(auto &e : reg[(size_t) k]) if(e.o->d == g.first)
                    mc::fail(name(e.o.get()) + " is reported " + (!e.r.in ? "although it isn't registered" : !e.o->open ? "although it is closed" : !e.r.live ? "although it was closed since it was added" : ready(*e.o) ? "more than once" : "although nothing happened on it"));
                mc::fail("an unknown socket is reported");
            }
            MC_CHECK(g.second == (*it)->r.opaque, name((*it)->o.get()) + " is reported with another opaque value than it was added with");
            *it = nullptr;
        }
        for(auto *e : want_list) if(e) mc::fail(name(e->o.get()) + " isn't reported although " + (e->o->pending ? "input is pending" : "its peer is gone"));
    }
    void add(int k, std::shared_ptr<Obj> o, bool fault)
    {
        Entry *e = find(k, o.get());
        next_opaque += 8;                              // any value will do: null, and one that was used before, too
        void *opq = next_opaque % 32 == 16 ? nullptr : (void *) (next_opaque % 32 == 0 ? next_opaque - 24 : next_opaque);
        ctl_fail = fault ? 1 : 0; ctl_failed = 0;
        bool threw = false;
        try { sel[(size_t) k]->add(o->d, opq); } catch(const std::exception &x) { threw = true; }
        bool injected = ctl_failed;
        ctl_fail = 0;
        bool ok = o->open && !(e && e->r.live) && !injected;
        if(threw == ok) mc::fail(ok ? "adding " + name(o.get()) + " is refused" : std::string("adding ") + (!o->open ? "a closed socket" : injected ? "a socket epoll refuses" : "a registered socket") + " is accepted");
        if(!ok) return;
        if(!e) { for(auto &x : reg[(size_t) k]) if(x.o == o) e = &x; }
        if(!e) { reg[(size_t) k].push_back({o, Reg()}); e = &reg[(size_t) k].back(); }
        e->r.in = e->r.live = true; e->r.opaque = opq;
    }
    void remove(int k, std::shared_ptr<Obj> o)
    {
        Entry *e = find(k, o.get());
        void *got = nullptr;
        try { got = sel[(size_t) k]->remove(o->d); }
        catch(const std::exception &x) { mc::fail("removing " + name(o.get()) + (!e ? ", which isn't registered," : !o->open ? ", which has been closed," : !e->r.live ? ", which has been opened again," : "") + " throws: " + x.what()); }
        MC_CHECK(got == (e ? e->r.opaque : nullptr), "removing " + name(o.get()) + " returns another opaque value than it was added with");
        if(e) e->r.in = e->r.live = false;
    }
    // after everything is gone no descriptor may be left
    void finish()
    {
        int b = base_fd;
        for(auto &o : slot) closed(*o);
        for(auto &r : reg) for(auto &e : r) if(!in_slot(e.o))
        {
            if(e.r.in) { MC_CHECK(e.o->d.use_count() >= 2, "the selector doesn't keep a registered socket alive"); }
            closed(*e.o);
        }
        sel.clear();
        for(auto &o : slot) if(o->open || o->d->connected()) { o->close(); }
        reg.clear();
        slot.clear();
        int n = ::dup(0); ::close(n);
        MC_CHECK(n == b, "a descriptor is left open or was closed twice at the end");
    }
};

enum Kind { Open, Close, PeerSend, Drain, PeerClose, Add, Remove, Replace, AddFault, NK };
static const char *kn[] = {"open", "close", "peer acts on", "drain", "peer closes", "add", "remove", "replace", "add with epoll failing"};

static void history(int depth, int nsel, int nsock, int nlis, bool always, unsigned kinds)
{
    World w(nsel, nsock, nlis);
    // optionally registered from the start
    bool pre = mc::choose(2, "registered at first");
    if(pre) for(int k = 0; k < nsel; ++k) for(auto &o : w.slot) w.add(k, o, false);
    auto step = [&]
    {
        struct Op { Kind k; int i, s; };
        std::vector<Op> ops;
        for(int i = 0; i < (int) w.slot.size(); ++i)
        {
            auto &o = *w.slot[(size_t) i];
            auto put = [&](Kind k, int s = 0) { if(kinds >> k & 1) ops.push_back({k, i, s}); };
            if(!o.open) put(Open); else put(Close);
            if(o.s ? (o.open && o.peer_open && o.pending < 2) : (o.open && o.pending < 2)) put(PeerSend);
            if(o.open && (o.pending || (o.sock && !o.peer_open))) put(Drain);
            if(o.s && o.open && o.peer_open) put(PeerClose);
            for(int k = 0; k < nsel; ++k) { put(Add, k); put(Remove, k); }
            if(o.open) put(AddFault);
            if(o.s) put(Replace);
        }
        Op op = ops[(size_t) mc::choose((int) ops.size(), "operation")];
        auto so = w.slot[(size_t) op.i];
        Obj &o = *so;
        MC_NOTE(std::string("* ") + kn[op.k] + " " + w.name(&o) + (nsel > 1 && (op.k == Add || op.k == Remove) ? " (selector " + N(op.s) + ")" : ""));
        switch(op.k)
        {
            case Open: w.open(o); break;
            case Close: o.close(); MC_CHECK(!o.d->connected(), "a closed socket reports being connected"); w.closed(o); break;
            case PeerSend:
                if(o.s) { if(::send(o.peer, "x", 1, MSG_NOSIGNAL) != 1) throw std::runtime_error("send"); ++o.pending; }
                else
                {
                    int c = ::socket(AF_INET, SOCK_STREAM, 0);
                    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(o.port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                    if(::connect(c, (sockaddr *) &a, sizeof a)) throw std::runtime_error("connect");
                    linger lg{1, 0}; ::setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);   // leave no TIME_WAIT behind
                    o.clients.push_back(c); ++o.pending;
                }
                break;
            case Drain:
                if(o.s)
                {
                    char b[4]; size_t n = 0;
                    Status st = o.s->receive_raw(b, 1, n);
                    if(o.pending) { MC_CHECK(st == Status::Success && n == 1, "pending input can't be received: " + sname(st)); --o.pending; }
                    else { MC_CHECK(st == Status::Disconnected, "the end of the stream is reported as " + sname(st)); if(!o.s->connected()) w.closed(o); }
                }
                else
                {
                    fr::TcpSocket t;
                    MC_CHECK(o.l->accept(t) == Status::Success, "a pending connection isn't accepted");
                    --o.pending;
                    ::close(o.clients.front()); o.clients.erase(o.clients.begin());
                }
                break;
            case PeerClose: ::close(o.peer); o.peer = -1; o.peer_open = false; break;
            case Add: w.add(op.s, so, false); break;
            case AddFault: w.add(0, so, true); break;
            case Remove: w.remove(op.s, so); break;
            case Replace:
            {
                bool kept = false;
                for(int k = 0; k < nsel; ++k) if(w.find(k, &o)) kept = true;
                if(!kept) { w.closed(o); for(auto &r : w.reg) r.erase(std::remove_if(r.begin(), r.end(), [&](World::Entry &e) { return e.o == so; }), r.end()); }
                std::weak_ptr<fr::SocketDescriptor> wk = o.d;
                w.slot[(size_t) op.i] = w.fresh_socket();
                if(!kept) { so.reset(); MC_CHECK(wk.expired(), "the selector keeps a socket alive which isn't registered"); }
                else { o.s.reset(); }
                break;
            }
            default: break;
        }
    };
    for(int i = 0; i < depth; ++i)
    {
        step();
        if(always) for(int k = 0; k < nsel; ++k) w.observe(k, 0);
    }
    int how = mc::choose(4, "wait");
    if(!always) { for(int k = 0; k < nsel; ++k) { w.observe(k, how); w.observe(k, 0); w.observe(k, 0); } }
    else w.observe(0, how);
    // everything can be removed at the end, each with its own value
    for(int k = 0; k < nsel; ++k)
    {
        for(auto &o : w.slot) { w.remove(k, o); }
        w.observe(k, 0);
        for(auto &o : w.slot) if(o->open) w.add(k, o, false);
        w.observe(k, 0);
    }
    w.finish();
}

// more sockets ready than one call reports
static void bulk(int n, int events)
{
    World w(1, 0, 0);
    for(int i = 0; i < n; ++i) { w.slot.push_back(w.fresh_socket()); w.open(*w.slot.back()); w.add(0, w.slot.back(), false); }
    std::vector<int> want;
    for(int i = 0; i < n; ++i)
        if(events == 0 || (events == 1 && i % 2) || (events == 2 && i >= n / 2) || events == 3)
        {
            auto &o = *w.slot[(size_t) i];
            if(events == 3 && i % 3 == 0) { ::close(o.peer); o.peer = -1; o.peer_open = false; }
            else { if(::send(o.peer, "x", 1, MSG_NOSIGNAL) != 1) throw std::runtime_error("send"); ++o.pending; }
            want.push_back(i);
        }
    int mode = mc::choose(3, "served as they come");    // 0: never served, 1: drained at once, 2: removed at once
    std::map<fr::SocketDescriptor *, int> idx;
    for(int i = 0; i < n; ++i) idx[w.slot[(size_t) i]->d.get()] = i;
    std::set<int> seen;
    size_t rounds = (want.size() + 99) / 100;
    for(size_t r = 0; r < rounds; ++r)
    {
        auto got = w.sel[0]->wait(std::chrono::milliseconds(0));
        size_t left = mode ? want.size() - seen.size() : want.size();
        MC_CHECK(got.size() >= std::min<size_t>(100, left) && got.size() <= left, "wait reports " + N((long long) got.size()) + " sockets of " + N((long long) left) + " which are ready");
        std::set<int> now;
        for(auto &g : got)
        {
            MC_CHECK(idx.count(g.first.get()), "an unknown socket is reported");
            int i = idx[g.first.get()];
            auto &o = w.slot[(size_t) i];
            MC_CHECK(now.insert(i).second, "a socket is reported twice by one wait");
            MC_CHECK(w.ready(*o), "a socket is reported although nothing happened on it");
            MC_CHECK(g.second == w.find(0, o.get())->r.opaque, "a socket is reported with another one's opaque value");
            seen.insert(i);
            if(mode == 1 && o->pending) { char b; size_t c; MC_CHECK(o->s->receive_raw(&b, 1, c) == Status::Success, "receive fails"); o->pending = 0; }
            else if(mode == 1) { o->close(); w.closed(*o); }
            else if(mode == 2) w.remove(0, o);
        }
    }
    MC_CHECK(seen.size() == want.size(), N((long long) (want.size() - seen.size())) + " of " + N((long long) want.size()) + " ready sockets were forgotten");
    if(mode) MC_CHECK(w.sel[0]->wait(std::chrono::milliseconds(0)).empty(), "a socket is reported again after it was served");
    w.finish();
}

// the same short life of a socket many times over, each ending differently
static void lives(int n)
{
    World w(2, 2, 0);
    int order = mc::choose(6, "order"), keep = mc::choose(3, "the other socket");
    if(keep) for(int k = 0; k < keep; ++k) w.add(k, w.slot[1], false);
    for(int i = 0; i < n; ++i)
    {
        auto o = w.slot[0];
        if(!o->open) w.open(*o);
        w.add(i % 2, o, false);
        if(order % 2) { if(::send(o->peer, "x", 1, MSG_NOSIGNAL) != 1) throw std::runtime_error("send"); ++o->pending; }
        if(i % 50 == 0) w.observe(i % 2, 0);
        switch(order / 2)
        {
            case 0: w.remove(i % 2, o); o->close(); w.closed(*o); break;
            case 1: o->close(); w.closed(*o); w.remove(i % 2, o); break;
            case 2: o->close(); w.closed(*o); if(i % 50 == 1) for(int k = 0; k < 2; ++k) w.observe(k, 0); break;
        }
        if(keep && i % 100 == 99) { if(::send(w.slot[1]->peer, "x", 1, MSG_NOSIGNAL) != 1) throw std::runtime_error("send"); ++w.slot[1]->pending; for(int k = 0; k < 2; ++k) w.observe(k, 0); char b; size_t c; if(w.slot[1]->s->receive_raw(&b, 1, c) != Status::Success) mc::fail("receive fails"); --w.slot[1]->pending; }
    }
    for(int k = 0; k < 2; ++k) w.observe(k, 0);
    w.finish();
}

// a failing epoll_wait is an exception, and only that
static void failing(int err)
{
    World w(1, 2, 0);
    w.add(0, w.slot[0], false); w.add(0, w.slot[1], false);
    ::send(w.slot[1]->peer, "x", 1, MSG_NOSIGNAL); ++w.slot[1]->pending;
    wait_errno = err;
    bool threw = false;
    try { auto got = w.sel[0]->wait(std::chrono::milliseconds(3)); MC_CHECK(got.empty() || waits > 1, "a failed wait reports sockets"); }
    catch(const std::exception &) { threw = true; }
    wait_errno = 0;
    MC_CHECK(err == EINTR ? !threw : threw, err == EINTR ? "an interrupted wait throws" : "a failed wait goes unnoticed");
    w.observe(0, 0);
    w.finish();
}

void mc_register()
{
    const unsigned core = 1u << Open | 1u << Close | 1u << PeerSend | 1u << Drain | 1u << PeerClose | 1u << Add | 1u << Remove;
    const unsigned reuse = 1u << Open | 1u << Close | 1u << Add | 1u << Remove | 1u << PeerSend;
    for(int a = 0; a < 2; ++a)
    {
        std::string s = a ? "/observed" : "/unobserved";
        mc::add("one-socket" + s, 1, [=] { history(mc::by_tier(6, 8), 1, 1, 0, a, core | 1u << Replace | 1u << AddFault); }, 8, 3);
        mc::add("two-sockets" + s, 0, [=] { history(mc::by_tier(4, 5), 1, 2, 0, a, core | 1u << Replace); }, 8, 3);
        mc::add("reuse" + s, 0, [=] { history(mc::by_tier(5, 7), 1, 2, 0, a, reuse); }, 8, 3);
        mc::add("three-sockets" + s, 0, [=] { history(mc::by_tier(4, 5), 1, 3, 0, a, reuse); }, 8, 3);
        mc::add("listener" + s, 0, [=] { history(mc::by_tier(4, 5), 1, 1, 1, a, core); }, 8, 3);
        mc::add("two-selectors" + s, 0, [=] { history(mc::by_tier(4, 5), 2, 1, 0, a, core); }, 8, 3);
    }
    for(int n : {1, 99, 100, 101, 199, 200, 201, 250, 350}) for(int e = 0; e < 4; ++e) mc::add("bulk" + N(n) + "/" + N(e), 0, [=] { bulk(n, e); });
    mc::add("lives", 0, [] { lives(mc::by_tier(600, 5000)); }, 6, 1);
    for(int e : {EINTR, EBADF, EINVAL, EFAULT}) mc::add("failing" + N(e), 0, [=] { failing(e); });
}
