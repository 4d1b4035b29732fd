// Binding of the simulated kernel (lib/simk.cpp) to the real one: every sequence of socket calls up to a length is
// made both on a simulated file and on a real socket of this machine (loopback TCP), and every result,
// errno value, readiness mask and byte must agree.  Nothing of /repo is involved: a difference is a defect of the
// model, so the runner reports it as such ("no answer"), never as a violation of a property.
#include "util.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

extern "C" int __real_socket(int, int, int);
using simk::FileP;

namespace
{
    std::string ename(int e)
    {
        switch(e)
        {
            case EAGAIN: return "EAGAIN"; case EPIPE: return "EPIPE"; case ECONNRESET: return "ECONNRESET"; case ENOTCONN: return "ENOTCONN";
            case EINVAL: return "EINVAL"; case EISCONN: return "EISCONN"; case EINPROGRESS: return "EINPROGRESS"; case EALREADY: return "EALREADY";
            case ECONNREFUSED: return "ECONNREFUSED"; case EBADF: return "EBADF"; case ECONNABORTED: return "ECONNABORTED"; case EDOM: return "EDOM";
            case EOPNOTSUPP: return "EOPNOTSUPP";
        }
        return "errno " + N(e);
    }
    std::string res(long r) { int e = errno; return r < 0 ? "-1 " + ename(e) : N(r); }
    struct Fd { int v = -1; ~Fd() { if(v < 0) return; linger l {1, 0}; ::setsockopt(v, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(v); } };   // no TIME_WAIT left behind

    // A pair of endpoints: the library's end in the model and in reality, and what drives the peer of each.
    struct World
    {
        FileP m;                  // model file of the library's end
        FileP mp;                 // model file of the peer, when it is simulated too
        Fd real, peer;            // real library end, real peer
        sockaddr_in lad {};
        bool peer_open = true, mine_open = true, peer_wr = true;
        bool pair = false, reset = false;
        bool sent_after = false;
    };

    // one listener (or one bound port on which nobody listens) per process
    int listener(sockaddr_in &a, bool listens = true)
    {
        static Fd made[2]; static sockaddr_in at[2];
        int &l = made[listens].v;
        if(l >= 0) { a = at[listens]; return l; }
        l = __real_socket(AF_INET, SOCK_STREAM, 0);
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t n = sizeof a;
        if(::bind(l, (sockaddr *) &a, n) || (listens && ::listen(l, 64)) || ::getsockname(l, (sockaddr *) &a, &n)) mc::fail("the machine gives no loopback listener");
        at[listens] = a;
        return l;
    }

    std::string mask(short r)
    {
        std::string s;
        if(r & POLLIN) s += "IN ";
        if(r & POLLOUT) s += "OUT ";
        if(r & POLLERR) s += "ERR ";
        if(r & POLLHUP) s += "HUP ";
        if(r & POLLRDHUP) s += "RDHUP ";
        if(r & POLLNVAL) s += "NVAL ";
        return s;
    }
    std::string do_poll(int fd, short ev)
    {
        pollfd p {fd, ev, 0};
        int r = ::poll(&p, 1, 0);
        return res(r) + " " + mask(p.revents);
    }
    std::string do_select(int fd, int which)
    {
        fd_set r, w; FD_ZERO(&r); FD_ZERO(&w);
        if(which & 1) FD_SET(fd, &r);
        if(which & 2) FD_SET(fd, &w);
        timeval tv {0, 0};
        int k = ::select(fd + 1, which & 1 ? &r : nullptr, which & 2 ? &w : nullptr, nullptr, &tv);
        return res(k) + (FD_ISSET(fd, &r) ? " r" : "") + (FD_ISSET(fd, &w) ? " w" : "");
    }
    std::string do_recv(int fd, size_t n, int fl)
    {
        char b[16] = {};
        long r = ::recv(fd, b, n, fl);
        return res(r) + (r > 0 ? ":" + std::string(b, (size_t) r) : "");
    }
    std::string timeo(int fd, int opt)
    {
        timeval tv {}; socklen_t n = sizeof tv;
        int r = ::getsockopt(fd, SOL_SOCKET, opt, &tv, &n);
        return res(r) + " " + N(tv.tv_sec) + "." + N(tv.tv_usec / 10000);
    }
    std::string set_timeo(int fd, int opt, long s, long us)
    {
        timeval tv {s, us};
        return res(::setsockopt(fd, SOL_SOCKET, opt, &tv, sizeof tv));
    }
    std::string intopt(int fd, int lvl, int opt)
    {
        int v = -7; socklen_t n = sizeof v;
        int r = ::getsockopt(fd, lvl, opt, &v, &n);
        return res(r) + " " + (opt == SO_ERROR && lvl == SOL_SOCKET && v > 0 ? ename(v) : N(v)) + "/" + N(n);
    }
    std::string nodelay(int fd, int on) { return res(::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on)); }
    std::string setfl(int fd, bool nb)
    {
        int fl = ::fcntl(fd, F_GETFL, 0);
        if(fl < 0) return res(fl);
        return res(::fcntl(fd, F_SETFL, nb ? fl | O_NONBLOCK : fl & ~O_NONBLOCK));
    }
    std::string getfl(int fd) { int r = ::fcntl(fd, F_GETFL, 0); return r < 0 ? res(r) : N(r & (O_NONBLOCK | O_ACCMODE)); }
    std::string fionread(int fd) { int v = -1; int r = ::ioctl(fd, FIONREAD, &v); return res(r) + " " + N(v); }
    std::string peername(int fd)
    {
        sockaddr_storage ss {}; socklen_t n = sizeof ss;
        int r = ::getpeername(fd, (sockaddr *) &ss, &n);
        return res(r) + (r == 0 ? " family " + N(ss.ss_family) : "");
    }

    enum Op { S1, S3, R1, R4, PK2, RD4, R0, NB, BL, TO, TO0, GTO, POLL, SEL, FION, ERRQ, PW2, PW5, PSHUT, PRST, SHWR, SHRD, SHRW, NAME, GFL, NDLY, NOPS };
    const char *opname[] = {"send 1", "send 3", "recv 1", "recv 4", "peek 2", "recv 4 don't wait", "recv 0", "nonblocking", "blocking", "receive timeout 1 ms", "no receive timeout", "read timeout option",
        "poll", "select", "FIONREAD", "SO_ERROR", "peer writes 2", "peer writes 5", "peer shuts down writing", "peer resets", "shutdown writing", "shutdown reading", "shutdown both", "getpeername", "F_GETFL", "TCP_NODELAY"};

    bool would_block(const World &w, int fl)
    {
        auto &f = *w.m;
        return !(f.nonblock || (fl & MSG_DONTWAIT)) && f.rcv_us == 0 && f.rxpos == f.rx.size() && !f.eof && !f.rxerr && !f.shut_rd;
    }
    // one step on both sides; "" when they agree
    std::string step(World &w, int op, std::string &trace)
    {
        std::string a, b;
        int fm = w.m->fd, fr = w.real.v;
        auto both = [&](const std::function<std::string(int)> &fn) { a = fn(fm); b = fn(fr); };
        auto reading = [&](size_t n, int fl)
        {
            if(would_block(w, fl) && n) { pollfd p {fr, POLLIN, 0}; a = "blocks"; b = ::poll(&p, 1, 0) == 0 ? "blocks" : "does not block (" + mask(p.revents) + ")"; return; }
            both([&](int fd) { return do_recv(fd, n, fl); });
        };
        auto settle = [&](bool readable)   // the real network takes its time
        {
            if(!readable) return;
            pollfd p {fr, POLLIN, 0};
            ::poll(&p, 1, 300);
        };
        switch(op)
        {
            case S1: both([](int fd) { return res(::send(fd, "x", 1, MSG_NOSIGNAL)); }); break;
            case S3: both([](int fd) { return res(::send(fd, "abc", 3, MSG_NOSIGNAL)); }); break;
            case R1: reading(1, 0); break;
            case R4: reading(4, 0); break;
            case PK2: reading(2, MSG_PEEK); break;
            case RD4: reading(4, MSG_DONTWAIT); break;
            case R0: both([](int fd) { return do_recv(fd, 0, MSG_DONTWAIT); }); break;
            case NB: both([](int fd) { return setfl(fd, true); }); break;
            case BL: both([](int fd) { return setfl(fd, false); }); break;
            case TO: both([](int fd) { return set_timeo(fd, SO_RCVTIMEO, 0, 20000); }); break;
            case TO0: both([](int fd) { return set_timeo(fd, SO_RCVTIMEO, 0, 0); }); break;
            case GTO: both([](int fd) { return timeo(fd, SO_RCVTIMEO) + " " + timeo(fd, SO_SNDTIMEO); }); break;
            case POLL: both([](int fd) { return do_poll(fd, POLLIN | POLLOUT | POLLRDHUP); }); break;
            case SEL: both([](int fd) { return do_select(fd, 3); }); break;
            case FION: both(fionread); break;
            case ERRQ: both([](int fd) { return intopt(fd, SOL_SOCKET, SO_ERROR); }); break;
            case NAME: both(peername); break;
            case GFL: both(getfl); break;
            case NDLY: both([](int fd) { return nodelay(fd, 1) + " " + intopt(fd, IPPROTO_TCP, TCP_NODELAY); }); break;
            case PW2: case PW5:
            {
                if(!w.peer_open || !w.peer_wr) return "";
                if(w.m->shut_rd && w.m->shut_wr) return "stop";   // outside the model: data for an end that has shut down both ways
                std::string d = op == PW2 ? "PQ" : "mnopq";
                if(w.pair) { a = res(::send(w.mp->fd, d.data(), d.size(), MSG_NOSIGNAL)); b = res(::send(w.peer.v, d.data(), d.size(), MSG_NOSIGNAL)); }
                else
                {
                    w.m->rx += d; b = a = res(::send(w.peer.v, d.data(), d.size(), MSG_NOSIGNAL));
                }
                settle(true); break;
            }
            case PSHUT:
                if(!w.peer_open || !w.peer_wr) return "";
                w.peer_wr = false;
                if(w.pair) { a = res(::shutdown(w.mp->fd, SHUT_WR)); b = res(::shutdown(w.peer.v, SHUT_WR)); }
                else { if(w.m->shut_wr) return "stop"; w.m->eof = true; b = a = res(::shutdown(w.peer.v, SHUT_WR)); pollfd p {fr, POLLRDHUP, 0}; ::poll(&p, 1, 300); }
                settle(true); break;
            case PRST:
            {
                if(w.pair || !w.peer_open) return "";
                if(w.m->shut_rd || w.m->shut_wr || w.m->eof) return "stop";
                linger l {1, 0};
                ::setsockopt(w.peer.v, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                ::close(w.peer.v); w.peer.v = -1; w.peer_open = false;
                w.m->reset(ECONNRESET);
                pollfd p {fr, 0, 0}; ::poll(&p, 1, 300);
                break;
            }
            case SHWR: both([](int fd) { return res(::shutdown(fd, SHUT_WR)); }); break;
            case SHRD: both([](int fd) { return res(::shutdown(fd, SHUT_RD)); }); break;
            case SHRW: both([](int fd) { return res(::shutdown(fd, SHUT_RDWR)); }); break;
        }
        if(mc::tracing) trace += std::string("  ") + opname[op] + " -> " + b + "\n";
        if(a != b) return std::string(opname[op]) + ": the model says \"" + a + "\", this machine's kernel \"" + b + "\"";
        return "";
    }
    uint64_t H;
    // runs a sequence, retried: the real network may be slow
    void compare(const std::function<std::string(std::string &)> &once)
    {
        std::string why, trace;
        for(int k = 0; k < 6; ++k)
        {
            trace.clear(); H = 1;
            simk::begin();
            why = once(trace);
            if(why.empty()) { MC_NOTE(trace); simk::end(); mc::outcome(H); return; }
            simk::end();
            usleep(20000 << k);
        }
        mc::fail("model kernel: " + why + "\n" + trace);
    }

    void stream(bool pair, int depth)
    {
        std::vector<int> ops;
        for(int i = 0; i < depth; ++i) ops.push_back(mc::choose(NOPS, "call"));
        compare([&](std::string &trace) -> std::string
        {
            World w; w.pair = pair;
            if(pair)
            {
                auto p = simk::open_pair(); w.m = p.first; w.mp = p.second;
            }
            else w.m = simk::open_connected("127.0.0.1");
            {
                int lst = listener(w.lad);
                w.real.v = __real_socket(AF_INET, SOCK_STREAM, 0);
                if(::connect(w.real.v, (sockaddr *) &w.lad, sizeof w.lad)) return "loopback refuses";
                w.peer.v = ::accept(lst, nullptr, nullptr);
            }
            for(int op : ops)
            {
                std::string r = step(w, op, trace);
                if(r == "stop") break;
                if(!r.empty()) { std::string s; for(int o : ops) s += std::string(opname[o]) + "; "; return r + " in: " + s; }
                mc::state(simk::state_hash()); H = mc::mix(H, simk::state_hash());
            }
            // what the peer got
            if(!pair && w.peer_open)
            {
                std::string got; char b[64];
                while(got.size() < w.m->tx.size())
                {
                    pollfd p {w.peer.v, POLLIN, 0}; ::poll(&p, 1, 300);
                    long r = ::recv(w.peer.v, b, sizeof b, MSG_DONTWAIT);
                    if(r <= 0) break;
                    got.append(b, (size_t) r);
                }
                if(got != w.m->tx) return "the peer got \"" + got + "\", the model says \"" + w.m->tx + "\"";
            }
            return "";
        });
    }

    // connection attempts
    enum COp { CON, CPOLL, CSEL, CERR, CNAME, CSEND, CRECV, CNB, CBL, CSHUT, CNOPS };
    const char *cname[] = {"connect", "poll", "select for writing", "SO_ERROR", "getpeername", "send", "recv", "nonblocking", "blocking", "shutdown"};
    void connecting(bool accepts, int depth)
    {
        std::vector<int> ops;
        for(int i = 0; i < depth; ++i) ops.push_back(mc::choose(CNOPS, "call"));
        compare([&](std::string &trace) -> std::string
        {
            simk::cfg.plan = [&](const std::string &) {
                auto f = simk::all().back();
                return f->nonblock ? (accepts ? simk::OkLater : simk::RefusedLater) : (accepts ? simk::OkAtOnce : simk::RefusedAtOnce); };
            World w;
            int lst = listener(w.lad, accepts);
            int fm = ::socket(AF_INET, SOCK_STREAM, 0);
            w.m = simk::get(fm);
            w.real.v = __real_socket(AF_INET, SOCK_STREAM, 0);
            int n = 0;
            for(int op : ops)
            {
                std::string a, b; int fr = w.real.v;
                auto both = [&](const std::function<std::string(int)> &fn) { a = fn(fm); b = fn(fr); };
                bool was_connecting = w.m->st == simk::Connecting;
                switch(op)
                {
                    case CON: both([&](int fd) { return res(::connect(fd, (sockaddr *) &w.lad, sizeof w.lad)); });
                        if(w.m->st == simk::Connecting) { pollfd p {fr, POLLOUT, 0}; ::poll(&p, 1, 300); } break;
                    case CPOLL: both([](int fd) { return do_poll(fd, POLLIN | POLLOUT); }); break;
                    case CSEL: both([](int fd) { return do_select(fd, 2); }); break;
                    case CERR: both([](int fd) { return intopt(fd, SOL_SOCKET, SO_ERROR); }); break;
                    case CNAME: if(was_connecting) continue; both(peername); break;
                    case CSEND: if(was_connecting) continue; both([](int fd) { return res(::send(fd, "x", 1, MSG_NOSIGNAL)); }); break;
                    case CRECV: if(was_connecting) continue; both([](int fd) { return do_recv(fd, 4, MSG_DONTWAIT); }); break;
                    case CNB: both([](int fd) { return setfl(fd, true); }); break;
                    case CBL: if(was_connecting) continue; both([](int fd) { return setfl(fd, false); }); break;
                    case CSHUT: if(was_connecting) continue; both([](int fd) { return res(::shutdown(fd, SHUT_RDWR)); }); ++n; break;
                }
                if(mc::tracing) trace += std::string("  ") + cname[op] + " -> " + b + "\n";
                if(a != b)
                {
                    std::string s; for(int o : ops) s += std::string(cname[o]) + "; ";
                    return std::string(cname[op]) + ": the model says \"" + a + "\", this machine's kernel \"" + b + "\" in: " + s;
                }
                mc::state(simk::state_hash()); H = mc::mix(H, mc::hash(b));
                if(n) break;
            }
            for(pollfd p {lst, POLLIN, 0}; accepts && ::poll(&p, 1, 0) > 0;) { Fd c; c.v = ::accept(lst, nullptr, nullptr); }
            return "";
        });
    }

    // listeners
    enum LOp { LBIND, LLISTEN, LACC, LPOLL, LSEL, LCLIENT, LNB, LBL, LERR, LCONN, LRECV, LSEND, LNAME, LSHUT, LNOPS };
    const char *lname[] = {"bind", "listen", "accept", "poll", "select for reading", "a client connects", "nonblocking", "blocking", "SO_ERROR", "SO_ACCEPTCONN", "recv", "send", "getpeername", "shutdown"};
    void listening(int depth)
    {
        std::vector<int> ops;
        for(int i = 0; i < depth; ++i) ops.push_back(mc::choose(LNOPS, "call"));
        compare([&](std::string &trace) -> std::string
        {
            int fm = ::socket(AF_INET, SOCK_STREAM, 0);
            auto m = simk::get(fm);
            Fd real; real.v = __real_socket(AF_INET, SOCK_STREAM, 0);
            std::vector<std::unique_ptr<Fd>> cl;
            sockaddr_in a4 {}; a4.sin_family = AF_INET; a4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            for(int op : ops)
            {
                std::string a, b; int fr = real.v;
                auto both = [&](const std::function<std::string(int)> &fn) { a = fn(fm); b = fn(fr); };
                bool stop = false;
                switch(op)
                {
                    case LBIND: both([&](int fd) { return res(::bind(fd, (sockaddr *) &a4, sizeof a4)); }); break;
                    case LLISTEN: if(m->st == simk::Fresh) continue; both([](int fd) { return res(::listen(fd, 8)); }); break;
                    case LACC:
                        if(m->st == simk::Listening && m->backlog.empty() && !m->nonblock)
                        { pollfd p {fr, POLLIN, 0}; a = "blocks"; b = ::poll(&p, 1, 0) == 0 ? "blocks" : "does not block"; break; }
                        {
                            int flm, flr;
                            auto acc = [&](int fd, int &out) { sockaddr_in c {}; socklen_t n = sizeof c; int r = ::accept(fd, (sockaddr *) &c, &n); out = r;
                                if(r < 0) return res(r); return std::string("accepted from ") + inet_ntoa(c.sin_addr) + " " + N(n) + " flags " + getfl(r); };
                            a = acc(fm, flm); b = acc(fr, flr);
                            if(flr >= 0) { cl.emplace_back(new Fd); cl.back()->v = flr; }
                            if(flm >= 0) ::close(flm);
                        }
                        break;
                    case LPOLL: both([](int fd) { return do_poll(fd, POLLIN | POLLOUT); }); break;
                    case LSEL: both([](int fd) { return do_select(fd, 1); }); break;
                    case LCLIENT:
                    {
                        if(m->st != simk::Listening) continue;
                        m->backlog.push_back("127.0.0.1");
                        sockaddr_in x; socklen_t n = sizeof x; ::getsockname(fr, (sockaddr *) &x, &n);
                        cl.emplace_back(new Fd); cl.back()->v = __real_socket(AF_INET, SOCK_STREAM, 0);
                        if(::connect(cl.back()->v, (sockaddr *) &x, n)) return "loopback refuses a client";
                        pollfd p {fr, POLLIN, 0}; ::poll(&p, 1, 300);
                        break;
                    }
                    case LNB: both([](int fd) { return setfl(fd, true); }); break;
                    case LBL: both([](int fd) { return setfl(fd, false); }); break;
                    case LERR: both([](int fd) { return intopt(fd, SOL_SOCKET, SO_ERROR); }); break;
                    case LCONN: both([](int fd) { return intopt(fd, SOL_SOCKET, SO_ACCEPTCONN); }); break;
                    case LRECV: both([](int fd) { return do_recv(fd, 4, MSG_DONTWAIT); }); break;
                    case LSEND: both([](int fd) { return res(::send(fd, "x", 1, MSG_NOSIGNAL)); }); break;
                    case LNAME: both(peername); break;
                    case LSHUT: both([](int fd) { return res(::shutdown(fd, SHUT_RDWR)); }); stop = true; break;
                }
                if(mc::tracing) trace += std::string("  ") + lname[op] + " -> " + b + "\n";
                if(a != b)
                {
                    std::string s; for(int o : ops) s += std::string(lname[o]) + "; ";
                    return std::string(lname[op]) + ": the model says \"" + a + "\", this machine's kernel \"" + b + "\" in: " + s;
                }
                mc::state(simk::state_hash()); H = mc::mix(H, mc::hash(b));
                if(stop) break;
            }
            return "";
        });
    }
}

void mc_register()
{
    signal(SIGPIPE, SIG_IGN);
    int d = mc::by_tier(3, 4);
    mc::add("kernel: a TCP stream, all call sequences", 0, [=] { stream(false, d); }, 16, 1);
    mc::add("kernel: a TCP stream between two simulated ends, all call sequences", 0, [=] { stream(true, d); }, 16, 1);
    mc::add("kernel: connecting, peer accepts", 0, [=] { connecting(true, d + 1); }, 8, 1);
    mc::add("kernel: connecting, peer refuses", 0, [=] { connecting(false, d + 1); }, 8, 1);
    mc::add("kernel: a listener, all call sequences", 0, [=] { listening(d + 1); }, 8, 1);
}
