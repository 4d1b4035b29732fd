#include "simk.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

using mc::num;
namespace simk
{
    Cfg cfg;
    std::vector<std::string> connect_log, resolve_log;
    long long clock_us = 0;
    unsigned calls = 0, faults_hit = 0, interrupts = 0, names_failed = 0;

    static bool active = false;
    static std::map<int, FileP> table;
    static std::vector<FileP> files;
    static std::set<int> ever;
    static bool zero_given = false;

    static int pending_storm = 0;
    void begin()
    {
        cfg = Cfg(); table.clear(); files.clear(); ever.clear(); connect_log.clear(); resolve_log.clear();
        clock_us = 0; calls = 0; faults_hit = 0; interrupts = 0; names_failed = 0; zero_given = false; active = true;
        static const struct { unsigned intr, again; size_t max; } K[Storm::KINDS] = {{0, 0, 0}, {300, 0, 0}, {0, 300, 0}, {0, 0, 1}, {70000, 0, 0}, {0, 70000, 0}, {40, 40, 3}, {5, 0, 1}};
        if(!pending_storm) return;
        cfg.intr_storm = K[pending_storm].intr; cfg.again_storm = K[pending_storm].again; cfg.rx_max = cfg.tx_max = K[pending_storm].max;
        cfg.max_calls = 400000000;
    }
    Storm::Storm(int kind) { pending_storm = kind; }
    Storm::~Storm() { pending_storm = 0; }
    bool storming() { return pending_storm != 0; }
    void end()
    {
        active = false;
        for(auto &f : files) { f->peer = nullptr; }
        cfg = Cfg(); table.clear(); files.clear(); ever.clear();
    }

    static FileP make(bool foreign)
    {
        auto f = std::make_shared<File>();
        int fd;
        if(cfg.low_fd_zero && !table.count(0)) fd = 0;
        else { fd = cfg.first_fd; while(table.count(fd)) ++fd; }
        f->fd = fd; f->id = (unsigned) files.size(); f->foreign = foreign;
        table[fd] = f; files.push_back(f); ever.insert(fd);
        return f;
    }
    FileP open_connected(const std::string &addr, bool foreign)
    {
        auto f = make(foreign); f->st = Connected; f->addr = addr; return f;
    }
    FileP open_foreign() { return open_connected("foreign", true); }
    std::pair<FileP, FileP> open_pair()
    {
        auto a = open_connected(), b = open_connected();
        a->peer = b; b->peer = a;
        return {a, b};
    }
    FileP get(int fd) { auto i = table.find(fd); return i == table.end() ? nullptr : i->second; }
    const std::vector<FileP> &all() { return files; }
    std::vector<FileP> open_files()
    {
        std::vector<FileP> r;
        for(auto &f : files) if(!f->gone && !f->foreign) r.push_back(f);
        return r;
    }
    void check_all_closed(const std::string &when)
    {
        for(auto &f : open_files())
            mc::fail("descriptor " + num(f->fd) + " (file #" + num(f->id) + ", " + (f->addr.empty() ? "no address" : f->addr) + ") is still open " + when);
    }
    uint64_t state_hash()
    {
        uint64_t h = 17;
        for(auto &f : files)
        {
            h = mc::mix(h, (uint64_t) f->fd * 64 + f->st * 8 + f->gone * 4 + f->nonblock * 2 + f->eof);
            h = mc::mix(h, mc::hash(f->tx)); h = mc::mix(h, f->rxpos); h = mc::mix(h, mc::hash(f->rx));
            h = mc::mix(h, (uint64_t) f->rcv_us); h = mc::mix(h, (uint64_t) f->snd_us);
        }
        return h;
    }

    static void step()
    {
        if(++calls > cfg.max_calls && !std::uncaught_exceptions()) mc::fail("more than " + num((long long) cfg.max_calls) + " system calls in one execution (livelock)");
    }
    static int fault(bool on, const char *name, std::initializer_list<int> errs)
    {
        if(!cfg.faults || !on) return 0;
        int c = mc::deviate(1 + (int) errs.size(), name);
        if(!c) return 0;
        ++faults_hit;
        return *(errs.begin() + c - 1);
    }
    static int err(int e) { errno = e; return -1; }

    // null: pass through to the real call. *bad set: answer EBADF.
    static File *lookup(int fd, const char *what, bool &bad)
    {
        bad = false;
        if(!active) return nullptr;
        if(fd < 0) { step(); bad = true; return nullptr; }
        auto i = table.find(fd);
        if(i == table.end())
        {
            if(ever.count(fd))
            {
                mc::record(std::string(what) + "() on descriptor " + num(fd) + " which is already closed");
                bad = true;
            }
            return nullptr;
        }
        step();
        if(i->second->foreign) mc::record(std::string(what) + "() on descriptor " + num(fd) + " which the library does not own");
        return i->second.get();
    }

    static void resolve(File &f);
    // true: the call fails with errno set
    static bool storm(File &f, bool nb, bool rx)
    {
        if(f.stormed < cfg.intr_storm) { ++f.stormed; ++(rx ? f.rx_intrs : f.tx_intrs); errno = EINTR; return true; }
        if(nb && f.stormed - cfg.intr_storm < cfg.again_storm) { ++f.stormed; ++(rx ? f.rx_agains : f.tx_agains); errno = EAGAIN; return true; }
        f.stormed = 0;
        return false;
    }
    static ssize_t do_recv(File &f, void *buf, size_t len, int flags)
    {
        ++f.recv_calls;
        resolve(f);
        if(f.st == Failed && f.untold) { int e = f.so_error; f.so_error = 0; errno = e; return e ? -1 : 0; }
        if(f.st != Connected) { errno = ENOTCONN; return -1; }
        bool nb = f.nonblock || (flags & MSG_DONTWAIT);
        if(f.giant_rx)
        {
            size_t n = std::min<uint64_t>({len, f.giant_rx_left, 0x7ffff000ull});      // Linux moves no more than this at once
            memcpy(buf, f.giant_rx + f.giant_rx_done, n);
            f.giant_rx_done += n; f.giant_rx_left -= n;
            MC_NOTE("recv(" + num((long long) len) + ") -> " + num((long long) n) + " bytes");
            return (ssize_t) n;
        }
        if(f.rxpos == f.rx.size() && !f.eof && !f.rxerr && cfg.on_idle) { auto fn = cfg.on_idle; fn(f); }
        if((cfg.intr_storm || cfg.again_storm) && storm(f, nb, true)) return -1;
        size_t avail = f.rx.size() - f.rxpos;
        // menu of answers
        enum { FULL, ONE, HALF, BUTONE, INTR, AGAIN, END, ERR0 };
        int menu[16], n = 0;
        menu[n++] = FULL;
        size_t full = std::min(len, avail);
        if(cfg.rx_max) full = std::min(full, cfg.rx_max);
        if(full > 1 && cfg.rx_short && !cfg.rx_free)
        {
            menu[n++] = ONE;
            if(full / 2 > 1) menu[n++] = HALF;
            if(full - 1 > 1 && full - 1 != full / 2) menu[n++] = BUTONE;
        }
        if(cfg.rx_eintr) menu[n++] = INTR;
        if(cfg.rx_again && (nb || f.rcv_us > 0)) menu[n++] = AGAIN;
        if(cfg.rx_eof && !f.eof) menu[n++] = END;
        for(size_t i = 0; i < cfg.rx_errs.size() && n < 16; ++i) menu[n++] = ERR0 + (int) i;
        int c = n > 1 && !pending_storm ? mc::deviate(n, nb ? "recv(nonblocking)" : "recv") : 0;
        int m = menu[c];
        if(m == INTR) { ++f.rx_intrs; MC_NOTE("recv -> EINTR"); errno = EINTR; return -1; }
        if(m == AGAIN) { ++f.rx_agains; MC_NOTE("recv -> EAGAIN"); if(!nb) clock_us += f.rcv_us; errno = EAGAIN; return -1; }
        if(m == END) { f.eof = true; f.rx.resize(f.rxpos); MC_NOTE("recv -> end of stream"); return 0; }
        if(m >= ERR0) { int e = cfg.rx_errs[m - ERR0]; f.rx.resize(f.rxpos); f.eof = true; ++f.rx_fails; MC_NOTE("recv -> error " + num(e)); errno = e; return -1; }
        if(avail == 0)
        {
            if(f.rxerr) { int e = f.rxerr; f.rxerr = 0; f.eof = f.dead = true; ++f.rx_fails; errno = e; return -1; }
            if(f.eof || f.shut_rd) return 0;
            if(nb) { ++f.rx_agains; errno = EAGAIN; return -1; }
            if(f.rcv_us > 0) { ++f.rx_agains; clock_us += f.rcv_us; errno = EAGAIN; return -1; }
            mc::fail("a blocking read waits for data that will never come (everything sent has been consumed: " + num((long long) f.rxpos) + " bytes)");
        }
        if(len == 0) return 0;
        size_t give = full;
        if(m == ONE) give = 1; else if(m == HALF) give = full / 2; else if(m == BUTONE) give = full - 1;
        if((flags & MSG_WAITALL) && !nb && m == FULL && !cfg.rx_max && give < len && !cfg.rx_free && !f.eof && !f.shut_rd)
        {
            for(size_t had = 0; had != avail && avail < len && cfg.on_idle;) { had = avail; size_t p = f.rxpos; f.rxpos = f.rx.size(); auto fn = cfg.on_idle; fn(f); f.rxpos = p; avail = f.rx.size() - f.rxpos; }
            give = std::min(len, avail);
            if(give < len && !f.eof) { if(f.rcv_us > 0) clock_us += f.rcv_us; else mc::fail("a blocking read waits for " + num((long long) len) + " bytes although only " + num((long long) avail) + " will ever come"); }
        }
        if(cfg.rx_free && full > 1) give = full - (size_t) mc::choose((int) full, "recv size (less than all)");
        memcpy(buf, f.rx.data() + f.rxpos, give);
        if(!(flags & MSG_PEEK)) f.rxpos += give;
        if(give) f.told = f.tx.size();
        MC_NOTE("recv(" + num((long long) len) + ") -> " + num((long long) give) + " bytes");
        return (ssize_t) give;
    }

    static ssize_t do_send(File &f, const void *buf, size_t len, int flags)
    {
        ++f.send_calls;
        auto pipe = [&]() -> ssize_t
        {
            struct sigaction sa {};
            sigaction(SIGPIPE, nullptr, &sa);
            if(!(flags & MSG_NOSIGNAL) && sa.sa_handler == SIG_DFL)
                mc::fail("sending to a peer that has gone away would terminate the process (SIGPIPE)");
            errno = EPIPE; return -1;
        };
        resolve(f);
        if(f.st == Failed && f.untold && f.so_error) { int e = f.so_error; f.so_error = 0; errno = e; return -1; }
        if(f.st != Connected) return pipe();
        if(f.rxerr) { int e = f.rxerr; f.rxerr = 0; f.broken = f.eof = f.dead = true; ++f.tx_fails; errno = e; return -1; }  // a pending error is delivered once, to whoever asks first
        if(f.broken || f.shut_wr) return pipe();
        bool nb = f.nonblock || (flags & MSG_DONTWAIT);
        if(f.giant_tx)
        {
            size_t n = std::min<size_t>(len, 0x7ffff000);
            if(memcmp(buf, f.giant_tx + f.giant_tx_done, n) != 0) mc::fail("the bytes sent after " + num((long long) f.giant_tx_done) + " are not the next ones");
            f.giant_tx_done += n;
            MC_NOTE("send(" + num((long long) len) + ") -> " + num((long long) n) + " bytes");
            return (ssize_t) n;
        }
        if((cfg.intr_storm || cfg.again_storm) && storm(f, nb, false)) return -1;
        if(cfg.tx_max) len = std::min(len, cfg.tx_max);
        enum { FULL, ONE, HALF, BUTONE, INTR, AGAIN, ERR0 };
        int menu[16], n = 0;
        menu[n++] = FULL;
        if(len > 1 && cfg.tx_short && !cfg.tx_free)
        {
            menu[n++] = ONE;
            if(len / 2 > 1) menu[n++] = HALF;
            if(len - 1 > 1 && len - 1 != len / 2) menu[n++] = BUTONE;
        }
        if(cfg.tx_eintr) menu[n++] = INTR;
        if(cfg.tx_again && (nb || f.snd_us > 0)) menu[n++] = AGAIN;
        for(size_t i = 0; i < cfg.tx_errs.size() && n < 16; ++i) menu[n++] = ERR0 + (int) i;
        int c = n > 1 && !pending_storm ? mc::deviate(n, nb ? "send(nonblocking)" : "send") : 0;
        int m = menu[c];
        if(m == INTR) { ++f.tx_intrs; MC_NOTE("send -> EINTR"); errno = EINTR; return -1; }
        if(m == AGAIN) { ++f.tx_agains; MC_NOTE("send -> EAGAIN"); if(!nb) clock_us += f.snd_us; errno = EAGAIN; return -1; }
        if(m >= ERR0)
        {
            int e = cfg.tx_errs[m - ERR0];
            f.broken = true; ++f.tx_fails;
            MC_NOTE("send -> error " + num(e));
            if(e == EPIPE) return pipe();
            errno = e; return -1;
        }
        size_t take = len;
        if(m == ONE) take = 1; else if(m == HALF) take = len / 2; else if(m == BUTONE) take = len - 1;
        if(cfg.tx_free && len > 1) take = len - (size_t) mc::choose((int) len, "send size (less than all)");
        if((flags & MSG_MORE) || f.cork) f.held.append((const char *) buf, take);      // announced as incomplete: the kernel waits for more
        else { f.release(); f.tx.append((const char *) buf, take); if(f.peer) f.peer->rx.append((const char *) buf, take); }
        MC_NOTE("send(" + num((long long) len) + ") -> " + num((long long) take) + " bytes");
        if(cfg.on_tx) { auto fn = cfg.on_tx; fn(f); }
        return (ssize_t) take;
    }

    static std::string addr_str(const sockaddr *sa)
    {
        char b[64] = "?";
        if(sa->sa_family == AF_INET) inet_ntop(AF_INET, &((const sockaddr_in *) sa)->sin_addr, b, sizeof b);
        else if(sa->sa_family == AF_INET6) inet_ntop(AF_INET6, &((const sockaddr_in6 *) sa)->sin6_addr, b, sizeof b);
        return b;
    }
    static socklen_t make_addr(const std::string &a, int port, sockaddr_storage &ss)
    {
        memset(&ss, 0, sizeof ss);
        if(a.find(':') != std::string::npos)
        {
            auto *s = (sockaddr_in6 *) &ss; s->sin6_family = AF_INET6; s->sin6_port = htons((uint16_t) port);
            inet_pton(AF_INET6, a.c_str(), &s->sin6_addr); return sizeof(*s);
        }
        auto *s = (sockaddr_in *) &ss; s->sin_family = AF_INET; s->sin_port = htons((uint16_t) port);
        inet_pton(AF_INET, a.c_str(), &s->sin_addr); return sizeof(*s);
    }

    static void resolve(File &f)  // the outcome of a pending connection attempt
    {
        if(f.st != Connecting || f.remaining_us > 0) return;
        if(f.plan == OkLater) { f.st = Connected; f.untold = true; }
        else if(f.plan == RefusedLater) { f.st = Failed; f.untold = true; f.so_error = cfg.later_error; }
    }
    static short ready(File &f)
    {
        resolve(f);
        switch(f.st)
        {
            case Connected:
            {
                if(f.rxpos == f.rx.size() && !f.eof && cfg.on_idle) { auto fn = cfg.on_idle; fn(f); }
                short r = POLLOUT;
                bool in = f.eof || f.shut_rd || f.rxerr || f.dead, out = f.shut_wr;
                if(f.rxpos < f.rx.size() || in) r |= POLLIN;
                if(in) r |= POLLRDHUP;
                if((in && out) || f.rxerr || f.dead) r |= POLLHUP;
                if(f.rxerr) r |= POLLERR;
                return r;
            }
            case Failed: return f.untold ? POLLOUT | POLLHUP | POLLIN | POLLRDHUP | (f.so_error ? POLLERR : 0) : POLLOUT | POLLHUP;
            case Listening: return f.backlog.empty() ? 0 : POLLIN;
            case Connecting: return 0;
            default: return POLLOUT | POLLHUP;
        }
    }
    static int wait_files(std::vector<std::pair<File *, short>> want, std::vector<short> &got, long long timeout_us)
    {
        int e = fault(cfg.f_poll, "poll/select", {EINTR, ENOMEM});
        if(e == EINTR) ++interrupts;
        if(e) { MC_NOTE("poll/select -> errno " + num(e)); return err(e); }
        int n = 0;
        for(;;)
        {
            got.assign(want.size(), 0);
            for(size_t i = 0; i < want.size(); ++i)
            {
                short r = ready(*want[i].first) & (want[i].second | POLLERR | POLLHUP);
                got[i] = r;
                if(r) ++n;
            }
            if(n) return n;
            long long next = -1;       // the earliest pending decision
            for(auto &w : want)
                if(w.first->st == Connecting && w.first->plan != NeverAnswers && (next < 0 || w.first->remaining_us < next)) next = w.first->remaining_us;
            bool decided = next >= 0 && (timeout_us < 0 || next <= timeout_us);
            if(!decided && timeout_us < 0) mc::fail("waiting without a time limit for something that never happens");
            long long pass = decided ? next : timeout_us;
            if(cfg.signal_us && pass > cfg.signal_us - clock_us % cfg.signal_us)
            {
                pass = cfg.signal_us - clock_us % cfg.signal_us;
                clock_us += pass; ++interrupts;
                for(auto &f : files) if(f->st == Connecting) f->remaining_us -= pass;
                MC_NOTE("poll/select -> interrupted, now at " + num(clock_us / 1000) + " ms");
                return err(EINTR);
            }
            clock_us += pass; timeout_us -= timeout_us < 0 ? 0 : pass;
            for(auto &f : files) if(f->st == Connecting) f->remaining_us -= pass;
            if(!decided) break;
        }
        MC_NOTE("poll/select -> time out, now at " + num(clock_us / 1000) + " ms");
        return 0;
    }
}

using namespace simk;
#define REAL(ret, name, args) extern "C" ret __real_##name args
#define WRAP(ret, name, args) extern "C" ret __wrap_##name args
#define LOOK(fd, name) bool bad; File *f = lookup(fd, name, bad); if(bad) return err(EBADF)

REAL(ssize_t, recv, (int, void *, size_t, int));
WRAP(ssize_t, recv, (int fd, void *b, size_t n, int fl)) { mc::Outside outside_; LOOK(fd, "recv"); return f ? do_recv(*f, b, n, fl) : __real_recv(fd, b, n, fl); }
REAL(ssize_t, recvfrom, (int, void *, size_t, int, sockaddr *, socklen_t *));
WRAP(ssize_t, recvfrom, (int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *al)) { mc::Outside outside_; LOOK(fd, "recvfrom"); return f ? do_recv(*f, b, n, fl) : __real_recvfrom(fd, b, n, fl, a, al); }
REAL(ssize_t, read, (int, void *, size_t));
WRAP(ssize_t, read, (int fd, void *b, size_t n)) { mc::Outside outside_; LOOK(fd, "read"); return f ? do_recv(*f, b, n, 0) : __real_read(fd, b, n); }
extern "C" ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return __wrap_read(fd, b, n); }
extern "C" ssize_t __wrap___recv_chk(int fd, void *b, size_t n, size_t, int fl) { return __wrap_recv(fd, b, n, fl); }
REAL(ssize_t, readv, (int, const iovec *, int));
static ssize_t iov_in(File &f, const iovec *v, size_t c, int fl)
{
    size_t t = 0; for(size_t i = 0; i < c; ++i) t += v[i].iov_len;
    std::string tmp(t, '\0');
    ssize_t r = do_recv(f, &tmp[0], t, fl);
    size_t o = 0;
    for(size_t i = 0; i < c && r > 0 && o < (size_t) r; ++i) { size_t k = std::min(v[i].iov_len, (size_t) r - o); memcpy(v[i].iov_base, &tmp[o], k); o += k; }
    return r;
}
static ssize_t iov_out(File &f, const iovec *v, size_t c, int fl)
{
    std::string tmp; for(size_t i = 0; i < c; ++i) tmp.append((const char *) v[i].iov_base, v[i].iov_len);
    return do_send(f, tmp.data(), tmp.size(), fl);
}
WRAP(ssize_t, readv, (int fd, const iovec *v, int c)) { mc::Outside outside_; LOOK(fd, "readv"); return f ? iov_in(*f, v, (size_t) c, 0) : __real_readv(fd, v, c); }
REAL(ssize_t, recvmsg, (int, msghdr *, int));
WRAP(ssize_t, recvmsg, (int fd, msghdr *m, int fl)) { mc::Outside outside_; LOOK(fd, "recvmsg"); return f ? iov_in(*f, m->msg_iov, m->msg_iovlen, fl) : __real_recvmsg(fd, m, fl); }

REAL(ssize_t, send, (int, const void *, size_t, int));
WRAP(ssize_t, send, (int fd, const void *b, size_t n, int fl)) { mc::Outside outside_; LOOK(fd, "send"); return f ? do_send(*f, b, n, fl) : __real_send(fd, b, n, fl); }
REAL(ssize_t, sendto, (int, const void *, size_t, int, const sockaddr *, socklen_t));
WRAP(ssize_t, sendto, (int fd, const void *b, size_t n, int fl, const sockaddr *a, socklen_t al)) { mc::Outside outside_; LOOK(fd, "sendto"); return f ? do_send(*f, b, n, fl) : __real_sendto(fd, b, n, fl, a, al); }
REAL(ssize_t, write, (int, const void *, size_t));
WRAP(ssize_t, write, (int fd, const void *b, size_t n)) { mc::Outside outside_; LOOK(fd, "write"); return f ? do_send(*f, b, n, 0) : __real_write(fd, b, n); }
REAL(ssize_t, writev, (int, const iovec *, int));
WRAP(ssize_t, writev, (int fd, const iovec *v, int c)) { mc::Outside outside_; LOOK(fd, "writev"); return f ? iov_out(*f, v, (size_t) c, 0) : __real_writev(fd, v, c); }
REAL(ssize_t, sendmsg, (int, const msghdr *, int));
WRAP(ssize_t, sendmsg, (int fd, const msghdr *m, int fl)) { mc::Outside outside_; LOOK(fd, "sendmsg"); return f ? iov_out(*f, m->msg_iov, m->msg_iovlen, fl) : __real_sendmsg(fd, m, fl); }

REAL(int, socket, (int, int, int));
WRAP(int, socket, (int fam, int type, int proto))
{ mc::Outside outside_;
    if(!active) return __real_socket(fam, type, proto);
    step();
    int e = fault(cfg.f_socket, "socket", {EMFILE});
    if(e) { MC_NOTE("socket -> errno " + num(e)); return err(e); }
    auto f = make(false);
    f->family = fam; f->nonblock = type & SOCK_NONBLOCK;
    MC_NOTE("socket -> " + num(f->fd));
    return f->fd;
}
REAL(int, close, (int));
WRAP(int, close, (int fd))
{ mc::Outside outside_;
    if(!active || fd < 0) return active ? err(EBADF) : __real_close(fd);
    auto i = table.find(fd);
    if(i == table.end())
    {
        if(!ever.count(fd)) return __real_close(fd);
        mc::record("descriptor " + num(fd) + " is closed a second time");
        return err(EBADF);
    }
    step();
    if(i->second->foreign) mc::record("the library closes descriptor " + num(fd) + " which it does not own");
    MC_NOTE("close(" + num(fd) + ")");
    FileP f = i->second;
    f->gone = true;
    if(f->abortive && f->st == Connected && !f->closed())
    {
        MC_NOTE("  (abortive: unread data is discarded)");
        if(f->peer) { f->peer->rx.resize(f->peer->rxpos); f->peer->reset(ECONNRESET); }
        f->tx.resize(std::min(f->tx.size(), f->told));
    }
    else f->release();
    if(f->peer) { f->peer->eof = true; f->peer->broken = true; }
    table.erase(i);
    return 0;
}
REAL(int, shutdown, (int, int));
WRAP(int, shutdown, (int fd, int how))
{ mc::Outside outside_;
    LOOK(fd, "shutdown");
    if(!f) return __real_shutdown(fd, how);
    if(f->closed() || (f->st != Connected && f->st != Listening)) return err(ENOTCONN);
    if(how < SHUT_RD || how > SHUT_RDWR) return err(EINVAL);
    if(how != SHUT_WR) f->shut_rd = true;      // not seen by the peer
    if(how != SHUT_RD) { f->shut_wr = true; if(f->peer) f->peer->eof = true; }
    return 0;
}
REAL(int, fcntl, (int, int, ...));
static int do_fcntl(int fd, int cmd, long arg, bool is64);
WRAP(int, fcntl, (int fd, int cmd, ...)) { mc::Outside outside_; va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a, false); }
REAL(int, fcntl64, (int, int, ...));
WRAP(int, fcntl64, (int fd, int cmd, ...)) { mc::Outside outside_; va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a, true); }
static int do_fcntl(int fd, int cmd, long arg, bool is64)
{
    LOOK(fd, "fcntl");
    if(!f) return is64 ? __real_fcntl64(fd, cmd, arg) : __real_fcntl(fd, cmd, arg);
    if(cmd == F_GETFL)
    {
        int e = fault(cfg.f_fcntl, "fcntl(F_GETFL)", {EBADF});
        if(e) { MC_NOTE("fcntl(F_GETFL) -> fails"); return err(e); }
        return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    }
    if(cmd == F_SETFL)
    {
        int e = fault(cfg.f_fcntl, "fcntl(F_SETFL)", {EINVAL});
        if(e) { MC_NOTE("fcntl(F_SETFL) -> fails"); return err(e); }
        f->nonblock = arg & O_NONBLOCK;
        MC_NOTE("fcntl(" + num(fd) + ", " + (f->nonblock ? "O_NONBLOCK" : "blocking") + ")");
        return 0;
    }
    return 0;
}
REAL(int, ioctl, (int, unsigned long, ...));
WRAP(int, ioctl, (int fd, unsigned long req, ...))
{ mc::Outside outside_;
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    LOOK(fd, "ioctl");
    if(!f) return __real_ioctl(fd, req, a);
    if(req == FIONBIO)
    {
        int e = fault(cfg.f_fcntl, "ioctl(FIONBIO)", {EBADF});
        if(e) return err(e);
        f->nonblock = *(int *) a; return 0;
    }
    if(req == FIONREAD) { *(int *) a = (int) (f->rx.size() - f->rxpos); return 0; }
    return err(EINVAL);
}
REAL(int, connect, (int, const sockaddr *, socklen_t));
WRAP(int, connect, (int fd, const sockaddr *sa, socklen_t sl))
{ mc::Outside outside_;
    LOOK(fd, "connect");
    if(!f) return __real_connect(fd, sa, sl);
    resolve(*f);
    if(f->st == Connected) { if(!f->untold) return err(EISCONN); f->untold = false; return 0; }
    if(f->st == Connecting) return err(EALREADY);
    if(f->st == Failed && f->untold) { f->untold = false; int x = f->so_error ? f->so_error : ECONNABORTED; f->so_error = 0; return err(x); }
    if(f->st == Listening) return err(EISCONN);
    f->addr = addr_str(sa);
    connect_log.push_back(f->addr);
    f->plan = cfg.plan ? cfg.plan(f->addr) : OkAtOnce;
    static const char *names[] = {"at once", "later", "refused at once", "refused later", "never answers", "unreachable at once"};
    MC_NOTE("connect(" + num(fd) + ", " + f->addr + ") -> " + names[f->plan]);
    switch(f->plan)
    {
        case OkAtOnce: f->st = Connected; return 0;
        case RefusedAtOnce: f->st = Failed; return err(cfg.once_error);
        case UnreachableAtOnce: f->st = Failed; return err(ENETUNREACH);
        default: break;
    }
    f->remaining_us = cfg.later_us;
    if(f->nonblock) { f->st = Connecting; return err(EINPROGRESS); }
    if(f->snd_us > 0 && (f->plan == NeverAnswers || f->remaining_us > f->snd_us)) { f->st = Connecting; clock_us += f->snd_us; if(f->plan != NeverAnswers) f->remaining_us -= f->snd_us; return err(EINPROGRESS); }
    f->st = Connecting; clock_us += f->remaining_us; f->remaining_us = 0; resolve(*f); f->untold = false;
    if(f->st == Connected) return 0;
    if(f->plan == NeverAnswers) { clock_us += 130000000ll; f->st = Failed; return err(ETIMEDOUT); }
    f->so_error = 0; return err(ECONNREFUSED);
}
REAL(int, bind, (int, const sockaddr *, socklen_t));
WRAP(int, bind, (int fd, const sockaddr *sa, socklen_t sl))
{ mc::Outside outside_;
    LOOK(fd, "bind");
    if(!f) return __real_bind(fd, sa, sl);
    int e = fault(cfg.f_bind, "bind", {EADDRINUSE});
    if(e) { MC_NOTE("bind -> fails"); return err(e); }
    if(f->st != Fresh) return err(EINVAL);
    f->st = Bound; f->addr = addr_str(sa); return 0;
}
REAL(int, listen, (int, int));
WRAP(int, listen, (int fd, int n))
{ mc::Outside outside_;
    LOOK(fd, "listen");
    if(!f) return __real_listen(fd, n);
    int e = fault(cfg.f_listen, "listen", {EADDRINUSE});
    if(e) { MC_NOTE("listen -> fails"); return err(e); }
    if(f->st != Bound && f->st != Listening) return err(EINVAL);
    f->st = Listening; MC_NOTE("listen(" + num(fd) + ")"); return 0;
}
static int do_accept(File &f, sockaddr *sa, socklen_t *sl, int flags)
{
    if(f.st != Listening) return err(EINVAL);
    int e = fault(cfg.f_accept, "accept", {ECONNABORTED, EMFILE, EINTR});
    if(e) { MC_NOTE("accept -> fails"); return err(e); }
    if(f.backlog.empty())
    {
        if(f.nonblock) return err(EAGAIN);
        mc::fail("accept blocks although no client will ever come");
    }
    std::string a = f.backlog.front(); f.backlog.pop_front();
    auto c = make(false);
    c->st = Connected; c->addr = a; c->nonblock = flags & SOCK_NONBLOCK;
    sockaddr_storage ss; socklen_t n = make_addr(a, 40000, ss);
    if(sa && sl) { memcpy(sa, &ss, std::min<size_t>(*sl, n)); *sl = n; }
    MC_NOTE("accept -> " + num(c->fd) + " from " + a);
    return c->fd;
}
REAL(int, accept, (int, sockaddr *, socklen_t *));
WRAP(int, accept, (int fd, sockaddr *sa, socklen_t *sl)) { mc::Outside outside_; LOOK(fd, "accept"); return f ? do_accept(*f, sa, sl, 0) : __real_accept(fd, sa, sl); }
REAL(int, accept4, (int, sockaddr *, socklen_t *, int));
WRAP(int, accept4, (int fd, sockaddr *sa, socklen_t *sl, int fl)) { mc::Outside outside_; LOOK(fd, "accept4"); return f ? do_accept(*f, sa, sl, fl) : __real_accept4(fd, sa, sl, fl); }
REAL(int, setsockopt, (int, int, int, const void *, socklen_t));
WRAP(int, setsockopt, (int fd, int lvl, int opt, const void *v, socklen_t n))
{ mc::Outside outside_;
    LOOK(fd, "setsockopt");
    if(!f) return __real_setsockopt(fd, lvl, opt, v, n);
    if(lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO))
    {
        if(n != sizeof(timeval)) return err(EINVAL);
        timeval tv; memcpy(&tv, v, sizeof tv);
        if(tv.tv_usec < 0 || tv.tv_usec >= 1000000) return err(EDOM);
        long long us = tv.tv_sec < 0 ? 0 : tv.tv_sec * 1000000ll + tv.tv_usec;
        (opt == SO_RCVTIMEO ? f->rcv_us : f->snd_us) = us;
        return 0;
    }
    if(lvl == IPPROTO_TCP && opt == TCP_NODELAY) { f->nodelay = *(const int *) v; return 0; }
    if(lvl == SOL_SOCKET && opt == SO_LINGER && n == sizeof(linger)) { linger l; memcpy(&l, v, sizeof l); f->abortive = l.l_onoff && l.l_linger == 0; return 0; }
    if(lvl == IPPROTO_TCP && opt == TCP_CORK) { f->cork = *(const int *) v; if(!f->cork) f->release(); return 0; }
    int e = fault(cfg.f_sockopt, "setsockopt", {ENOPROTOOPT});
    if(e) { MC_NOTE("setsockopt -> fails"); return err(e); }
    return 0;
}
REAL(int, getsockopt, (int, int, int, void *, socklen_t *));
WRAP(int, getsockopt, (int fd, int lvl, int opt, void *v, socklen_t *n))
{ mc::Outside outside_;
    LOOK(fd, "getsockopt");
    if(!f) return __real_getsockopt(fd, lvl, opt, v, n);
    int e = fault(cfg.f_sockopt, "getsockopt", {ENOBUFS});
    if(e) { MC_NOTE("getsockopt -> fails"); return err(e); }
    auto put = [&](const void *p, socklen_t k) { k = std::min(k, *n); memcpy(v, p, k); *n = k; return 0; };
    if(lvl == SOL_SOCKET && opt == SO_ERROR) { resolve(*f); int x = f->rxerr ? f->rxerr : f->so_error; if(f->rxerr) { f->rxerr = 0; f->eof = f->broken = f->dead = true; } f->so_error = 0; return put(&x, sizeof x); }
    if(lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO))
    {
        long long us = opt == SO_RCVTIMEO ? f->rcv_us : f->snd_us;
        timeval tv; tv.tv_sec = us / 1000000; tv.tv_usec = us % 1000000; return put(&tv, sizeof tv);
    }
    if(lvl == SOL_SOCKET && opt == SO_TYPE) { int x = SOCK_STREAM; return put(&x, sizeof x); }
    if(lvl == SOL_SOCKET && opt == SO_ACCEPTCONN) { int x = f->st == Listening; return put(&x, sizeof x); }
    if(lvl == IPPROTO_TCP && opt == TCP_NODELAY) { int x = f->nodelay; return put(&x, sizeof x); }
    int x = 0; return put(&x, sizeof x);
}
REAL(int, getpeername, (int, sockaddr *, socklen_t *));
WRAP(int, getpeername, (int fd, sockaddr *sa, socklen_t *sl))
{ mc::Outside outside_;
    LOOK(fd, "getpeername");
    if(!f) return __real_getpeername(fd, sa, sl);
    if(f->st != Connected || f->closed()) return err(ENOTCONN);
    if(int e = fault(cfg.f_names, "getpeername", {ENOTCONN, ENOBUFS})) { ++names_failed; return err(e); }
    sockaddr_storage ss; socklen_t n = make_addr(f->addr, 40000, ss);
    memcpy(sa, &ss, std::min<size_t>(*sl, n)); *sl = n; return 0;
}
REAL(int, getsockname, (int, sockaddr *, socklen_t *));
WRAP(int, getsockname, (int fd, sockaddr *sa, socklen_t *sl))
{ mc::Outside outside_;
    LOOK(fd, "getsockname");
    if(!f) return __real_getsockname(fd, sa, sl);
    sockaddr_storage ss; socklen_t n = make_addr("127.0.0.1", 5000, ss);
    memcpy(sa, &ss, std::min<size_t>(*sl, n)); *sl = n; return 0;
}
REAL(int, poll, (pollfd *, nfds_t, int));
WRAP(int, poll, (pollfd *p, nfds_t n, int to))
{ mc::Outside outside_;
    if(!active) return __real_poll(p, n, to);
    std::vector<std::pair<File *, short>> w; std::vector<size_t> idx; int nval = 0;
    for(nfds_t i = 0; i < n; ++i)
    {
        p[i].revents = 0;
        if(p[i].fd < 0) continue;
        bool bad; File *f = lookup(p[i].fd, "poll", bad);
        if(bad) { p[i].revents = POLLNVAL; ++nval; continue; }
        if(!f) return __real_poll(p, n, to);
        w.push_back({f, p[i].events}); idx.push_back(i);
    }
    std::vector<short> got;
    int r = wait_files(w, got, nval ? 0 : to < 0 ? -1 : to * 1000ll);
    if(r < 0) return r;
    for(size_t k = 0; k < idx.size() && !got.empty(); ++k) p[idx[k]].revents = got[k];
    return r + nval;
}
extern "C" int __wrap___poll_chk(pollfd *p, nfds_t n, int to, size_t) { return __wrap_poll(p, n, to); }
REAL(int, ppoll, (pollfd *, nfds_t, const timespec *, const sigset_t *));
WRAP(int, ppoll, (pollfd *p, nfds_t n, const timespec *ts, const sigset_t *m))
{ mc::Outside outside_;
    if(!active) return __real_ppoll(p, n, ts, m);
    return __wrap_poll(p, n, ts ? (int) (ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}
static int do_select(int n, fd_set *r, fd_set *w, fd_set *e, long long us, bool &pass)
{
    pass = false;
    std::vector<std::pair<File *, short>> want; std::vector<int> fds;
    for(int i = 0; i < n && i < FD_SETSIZE; ++i)
    {
        short ev = 0;
        if(r && FD_ISSET(i, r)) ev |= POLLIN;
        if(w && FD_ISSET(i, w)) ev |= POLLOUT;
        if(e && FD_ISSET(i, e)) ev |= POLLPRI;
        if(!ev) continue;
        bool bad; File *f = lookup(i, "select", bad);
        if(bad) return err(EBADF);
        if(!f) { pass = true; return 0; }
        want.push_back({f, ev}); fds.push_back(i);
    }
    std::vector<short> got;
    int k = wait_files(want, got, us);
    if(k < 0) return k;
    if(r) FD_ZERO(r);
    if(w) FD_ZERO(w);
    if(e) FD_ZERO(e);
    int cnt = 0;
    for(size_t i = 0; i < fds.size() && !got.empty(); ++i)
    {
        if(r && (want[i].second & POLLIN) && (got[i] & (POLLIN | POLLHUP | POLLERR))) { FD_SET(fds[i], r); ++cnt; }
        if(w && (want[i].second & POLLOUT) && (got[i] & (POLLOUT | POLLERR))) { FD_SET(fds[i], w); ++cnt; }
    }
    return cnt;
}
REAL(int, select, (int, fd_set *, fd_set *, fd_set *, timeval *));
WRAP(int, select, (int n, fd_set *r, fd_set *w, fd_set *e, timeval *tv))
{ mc::Outside outside_;
    if(!active) return __real_select(n, r, w, e, tv);
    long long t0 = clock_us;
    bool pass; int k = do_select(n, r, w, e, tv ? tv->tv_sec * 1000000ll + tv->tv_usec : -1, pass);
    if(tv && !pass) { long long left = std::max(0ll, tv->tv_sec * 1000000ll + tv->tv_usec - (clock_us - t0)); tv->tv_sec = left / 1000000; tv->tv_usec = left % 1000000; }   // as Linux does
    return pass ? __real_select(n, r, w, e, tv) : k;
}
REAL(int, pselect, (int, fd_set *, fd_set *, fd_set *, const timespec *, const sigset_t *));
WRAP(int, pselect, (int n, fd_set *r, fd_set *w, fd_set *e, const timespec *tv, const sigset_t *m))
{ mc::Outside outside_;
    if(!active) return __real_pselect(n, r, w, e, tv, m);
    bool pass; int k = do_select(n, r, w, e, tv ? tv->tv_sec * 1000000ll + tv->tv_nsec / 1000 : -1, pass);
    return pass ? __real_pselect(n, r, w, e, tv, m) : k;
}
struct SimInfo { addrinfo ai; sockaddr_storage ss; };
REAL(int, getaddrinfo, (const char *, const char *, const addrinfo *, addrinfo **));
WRAP(int, getaddrinfo, (const char *node, const char *svc, const addrinfo *h, addrinfo **res))
{ mc::Outside outside_;
    if(!active) return __real_getaddrinfo(node, svc, h, res);
    step();
    resolve_log.push_back(std::string(node ? node : "*") + "|" + (svc ? svc : ""));
    int e = fault(cfg.f_gai, "getaddrinfo", {EAI_AGAIN});
    if(e) { MC_NOTE("getaddrinfo -> fails"); return e; }
    std::vector<std::string> as = cfg.addrs;
    if(!node) as = {"0.0.0.0", "::"};
    addrinfo *first = nullptr, **tail = &first;
    for(auto &a : as)
    {
        int fam = a.find(':') != std::string::npos ? AF_INET6 : AF_INET;
        if(h && h->ai_family != AF_UNSPEC && h->ai_family != fam) continue;
        auto *si = (SimInfo *) calloc(1, sizeof(SimInfo));
        if(outside_.was > 0) mc::mem_claim(si, sizeof *si);
        si->ai.ai_addrlen = make_addr(a, svc ? atoi(svc) : 0, si->ss);
        si->ai.ai_family = fam; si->ai.ai_socktype = h ? h->ai_socktype : SOCK_STREAM; si->ai.ai_protocol = IPPROTO_TCP;
        si->ai.ai_addr = (sockaddr *) &si->ss;
        *tail = &si->ai; tail = &si->ai.ai_next;
    }
    if(!first) return EAI_NONAME;
    *res = first; return 0;
}
REAL(void, freeaddrinfo, (addrinfo *));
WRAP(void, freeaddrinfo, (addrinfo *a))
{ mc::Outside outside_;
    if(!active) { __real_freeaddrinfo(a); return; }
    while(a) { auto *n = a->ai_next; free((void *) a); a = n; }
}
REAL(int, getnameinfo, (const sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int));
WRAP(int, getnameinfo, (const sockaddr *sa, socklen_t sl, char *h, socklen_t hl, char *s, socklen_t ssl, int fl))
{ mc::Outside outside_;
    if(!active) return __real_getnameinfo(sa, sl, h, hl, s, ssl, fl);
    if(int e = fault(cfg.f_names, "getnameinfo", {EAI_AGAIN, EAI_OVERFLOW})) { ++names_failed; return e; }
    if(sl < (socklen_t) (sa->sa_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in))) return EAI_FAMILY;     // as glibc
    std::string a = addr_str(sa);
    if(h) { if(a.size() + 1 > hl) return EAI_OVERFLOW; strcpy(h, a.c_str()); }
    if(s) snprintf(s, ssl, "%d", 40000);
    return 0;
}

// Time passes only where the simulation says so.
#include <chrono>
#include <ctime>
#include <sys/time.h>
static const long long EPOCH_US = 1780000000ll * 1000000;
REAL(int, clock_gettime, (clockid_t, timespec *));
WRAP(int, clock_gettime, (clockid_t c, timespec *t))
{ mc::Outside outside_;
    if(!active || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return __real_clock_gettime(c, t);
    long long us = EPOCH_US + clock_us;
    t->tv_sec = us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0;
}
REAL(int, gettimeofday, (timeval *, void *));
WRAP(int, gettimeofday, (timeval *t, void *z))
{ mc::Outside outside_;
    if(!active) return __real_gettimeofday(t, z);
    long long us = EPOCH_US + clock_us;
    t->tv_sec = us / 1000000; t->tv_usec = us % 1000000; return 0;
}
extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    if(!active) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
    return std::chrono::steady_clock::time_point(std::chrono::microseconds(EPOCH_US + clock_us));
}
extern "C" std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
extern "C" std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
    if(!active) return __real__ZNSt6chrono3_V212system_clock3nowEv();
    return std::chrono::system_clock::time_point(std::chrono::microseconds(EPOCH_US + clock_us));
}
static int pass_time(const timespec *t) { step(); clock_us += t->tv_sec * 1000000ll + (t->tv_nsec + 999) / 1000; for(auto &f : files) if(f->st == Connecting) f->remaining_us -= t->tv_sec * 1000000ll + (t->tv_nsec + 999) / 1000; return 0; }
REAL(int, nanosleep, (const timespec *, timespec *));
WRAP(int, nanosleep, (const timespec *t, timespec *left)) { mc::Outside outside_; return active ? pass_time(t) : __real_nanosleep(t, left); }
REAL(int, clock_nanosleep, (clockid_t, int, const timespec *, timespec *));
WRAP(int, clock_nanosleep, (clockid_t c, int flags, const timespec *t, timespec *left))
{ mc::Outside outside_;
    if(!active) return __real_clock_nanosleep(c, flags, t, left);
    timespec d = *t;
    if(flags & TIMER_ABSTIME) { long long us = std::max(0ll, t->tv_sec * 1000000ll + t->tv_nsec / 1000 - EPOCH_US - clock_us); d.tv_sec = us / 1000000; d.tv_nsec = us % 1000000 * 1000; }
    return pass_time(&d);
}
REAL(int, usleep, (useconds_t));
WRAP(int, usleep, (useconds_t u)) { mc::Outside outside_; if(!active) return __real_usleep(u); timespec t{(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return pass_time(&t); }
REAL(unsigned, sleep, (unsigned));
WRAP(unsigned, sleep, (unsigned s)) { mc::Outside outside_; if(!active) return __real_sleep(s); timespec t{(time_t) s, 0}; return (unsigned) pass_time(&t); }
static struct Clock { Clock() { mc::simulated_us = [] { return active ? EPOCH_US + clock_us : -1ll; }; } } clock_hook;
