// C26: TLS send and receive.  Built twice: over a transparent TLS layer, whose every answer is a choice, and (-DREAL) over mbedtls itself.
#define TLS_DEFINE
#include "tls.hpp"
#include "frnetlib/Packet.h"
#include <array>
#include <fcntl.h>
using namespace simk;

static std::shared_ptr<fr::SSLContext> context()
{
    static std::shared_ptr<fr::SSLContext> c = std::make_shared<fr::SSLContext>();
    return c;
}
static struct { bool want, fatal, partial; size_t record; } layer;   // what the TLS layer may answer
static unsigned wants, fatals;                                       // what it has answered

static int inject(const char *what, bool reading)
{
    if(!layer.want && !layer.fatal) return 0;
    int menu[8], n = 0;
    menu[n++] = 0;
    if(layer.want) { menu[n++] = MBEDTLS_ERR_SSL_WANT_READ; menu[n++] = MBEDTLS_ERR_SSL_WANT_WRITE; }
    if(layer.fatal) { menu[n++] = MBEDTLS_ERR_SSL_INTERNAL_ERROR; menu[n++] = MBEDTLS_ERR_NET_CONN_RESET; if(reading) menu[n++] = MBEDTLS_ERR_SSL_INVALID_MAC; }
    int r = menu[mc::deviate(n, what)];
    if(r) MC_NOTE(std::string(what) + " -> -0x" + [&] { char b[16]; snprintf(b, sizeof b, "%x", -r); return std::string(b); }());
    if(r == MBEDTLS_ERR_SSL_WANT_READ || r == MBEDTLS_ERR_SSL_WANT_WRITE) ++wants;
    else if(r) ++fatals;
    return r;
}
static bool is_want(int r) { return r == MBEDTLS_ERR_SSL_WANT_READ || r == MBEDTLS_ERR_SSL_WANT_WRITE; }

#ifdef REAL
extern "C" int __real_mbedtls_ssl_read(mbedtls_ssl_context *, unsigned char *, size_t);
extern "C" int __real_mbedtls_ssl_write(mbedtls_ssl_context *, const unsigned char *, size_t);
struct State { bool dead = false; std::string repeat; bool must = false; };
static std::map<const void *, State> states;
static Peer *peer_of_socket;
static bool is_peer(const mbedtls_ssl_context *s) { return peer_of_socket && s == &peer_of_socket->ssl; }
extern "C" int __wrap_mbedtls_ssl_write(mbedtls_ssl_context *s, const unsigned char *b, size_t n)
{
    if(!s || is_peer(s)) return __real_mbedtls_ssl_write(s, b, n);
    State &st = states[s];
    if(st.dead) return MBEDTLS_ERR_SSL_INTERNAL_ERROR;
    if(st.must) MC_CHECK(std::string((const char *) b, n) == st.repeat, "a write that has to be repeated is repeated with other data");
    int r = inject("mbedtls_ssl_write", false);
    if(!r) { size_t k = n; if(layer.record && k > layer.record) k = layer.record; r = __real_mbedtls_ssl_write(s, b, k); if(is_want(r)) ++wants; else if(r < 0) ++fatals; }
    st.must = is_want(r);
    if(st.must) st.repeat.assign((const char *) b, n);
    else if(r < 0) st.dead = true;
    return r;
}
extern "C" int __wrap_mbedtls_ssl_read(mbedtls_ssl_context *s, unsigned char *b, size_t n)
{
    if(!s || is_peer(s)) return __real_mbedtls_ssl_read(s, b, n);
    State &st = states[s];
    if(st.dead) return MBEDTLS_ERR_SSL_INTERNAL_ERROR;
    int r = inject("mbedtls_ssl_read", true);
    if(!r)
    {
        r = __real_mbedtls_ssl_read(s, b, n);
        if(is_want(r)) ++wants; else if(r < 0 && r != MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY) ++fatals;
    }
    if(r < 0 && !is_want(r) && r != MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY) st.dead = true;
    return r;
}
#else
// A transparent TLS layer: records are two bytes of length and the data; 0xffff is a close notification.  It follows mbedtls where that
// matters to the caller: one record per write, a record that could not be put on the wire is kept and finished by the repeated call.
struct State
{
    bool dead = false, must = false;
    size_t kept = 0;               // data bytes of the record that is not on the wire yet
    std::string out, in, plain, repeat;
    int flush(mbedtls_ssl_context *s)
    {
        while(!out.empty())
        {
            int r = s->f_send(s->p_bio, (const unsigned char *) out.data(), out.size());
            if(r <= 0) return r ? r : MBEDTLS_ERR_SSL_INTERNAL_ERROR;
            out.erase(0, (size_t) r);
        }
        return 0;
    }
};
static std::map<const void *, State> states;
extern "C" void __real_mbedtls_ssl_free(mbedtls_ssl_context *);
extern "C" void __wrap_mbedtls_ssl_free(mbedtls_ssl_context *s) { states.erase(s); __real_mbedtls_ssl_free(s); }
extern "C" int __wrap_mbedtls_ssl_handshake(mbedtls_ssl_context *) { return 0; }
extern "C" uint32_t __wrap_mbedtls_ssl_get_verify_result(const mbedtls_ssl_context *) { return 0; }
extern "C" size_t __wrap_mbedtls_ssl_get_bytes_avail(const mbedtls_ssl_context *s) { return states[s].plain.size(); }
extern "C" int __wrap_mbedtls_ssl_check_pending(const mbedtls_ssl_context *s) { return !states[s].plain.empty(); }
extern "C" int __wrap_mbedtls_ssl_close_notify(mbedtls_ssl_context *) { return 0; }
extern "C" int __wrap_mbedtls_ssl_write(mbedtls_ssl_context *s, const unsigned char *b, size_t n)
{
    if(!s) return MBEDTLS_ERR_SSL_BAD_INPUT_DATA;
    State &st = states[s];
    if(st.dead) return MBEDTLS_ERR_SSL_INTERNAL_ERROR;
    std::string args((const char *) b, n);
    if(st.must) MC_CHECK(args == st.repeat, "a write that has to be repeated is repeated with other data (" + N((long long) n) + " bytes instead of " + N((long long) st.repeat.size()) + ")");
    int r = inject("mbedtls_ssl_write", false);
    if(!r)
    {
        if(st.out.empty())
        {
            size_t k = std::min(n, layer.record ? layer.record : (size_t) 16384);
            if(layer.partial && k > 1) { int c = mc::deviate(k > 2 ? 3 : 2, "mbedtls_ssl_write takes less"); if(c == 1) k = 1; else if(c == 2) k = k - 1; }
            st.out = std::string(1, (char) (k >> 8)) + (char) k + args.substr(0, k);
            st.kept = k;
        }
        r = st.flush(s);
        if(is_want(r)) ++wants;
        else if(r < 0) ++fatals;
        else r = (int) st.kept;
    }
    st.must = is_want(r);
    if(st.must) st.repeat = args;
    else if(r < 0) st.dead = true;
    return r;
}
static int fill(mbedtls_ssl_context *s, State &st)
{
    while(st.plain.empty())
    {
        size_t have = st.in.size(), need = 2;
        if(have >= 2)
        {
            size_t k = (size_t) (unsigned char) st.in[0] << 8 | (unsigned char) st.in[1];
            if(k == 0xffff) return MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY;
            need = 2 + k;
            if(have >= need) { st.plain = st.in.substr(2, k); st.in.erase(0, need); continue; }
        }
        std::string b(need - have, 0);
        int r = s->f_recv(s->p_bio, (unsigned char *) &b[0], b.size());
        if(r == 0) return MBEDTLS_ERR_SSL_CONN_EOF;
        if(r < 0) return r;
        st.in += b.substr(0, (size_t) r);
    }
    return 1;
}
extern "C" int __wrap_mbedtls_ssl_read(mbedtls_ssl_context *s, unsigned char *b, size_t n)
{
    if(!s) return MBEDTLS_ERR_SSL_BAD_INPUT_DATA;
    State &st = states[s];
    if(st.dead) return MBEDTLS_ERR_SSL_INTERNAL_ERROR;
    int r = inject("mbedtls_ssl_read", true);
    if(!r)
    {
        r = fill(s, st);
        if(r == MBEDTLS_ERR_SSL_CONN_EOF) return 0;
        if(r == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY) return r;
        if(is_want(r)) ++wants;
        else if(r < 0) ++fatals;
        else
        {
            size_t k = std::min(n, st.plain.size());
            if(layer.partial && k > 1) { int c = mc::deviate(k > 2 ? 3 : 2, "mbedtls_ssl_read gives less"); if(c == 1) k = 1; else if(c == 2) k = k - 1; }
            memcpy(b, st.plain.data(), k); st.plain.erase(0, k);
            r = (int) k;
        }
    }
    if(r < 0 && !is_want(r)) st.dead = true;
    return r;
}
#endif

// An established connection, seen from both ends.
struct Link
{
    std::unique_ptr<fr::SSLSocket> s;
    std::unique_ptr<fr::SSLListener> l;
    FileP f;
    bool accepted;
#ifdef REAL
    std::unique_ptr<Peer> p;
    std::string plain() { p->drain(); MC_CHECK(!p->dead, "the peer rejects what was sent: -" + N(-p->error)); return p->plain; }
    void give(const std::string &d, size_t record) { p->send(d, record); }
    void finish(int how) { if(how == 1) p->notify(); if(how == 2) f->rxerr = ECONNRESET; else f->eof = true; }
#else
    std::string plain()
    {
        std::string r; size_t o = 0;
        while(o + 2 <= f->tx.size())
        {
            size_t k = (size_t) (unsigned char) f->tx[o] << 8 | (unsigned char) f->tx[o + 1];
            if(o + 2 + k > f->tx.size()) break;
            r += f->tx.substr(o + 2, k); o += 2 + k;
        }
        return r;
    }
    void give(const std::string &d, size_t record) { for(size_t o = 0; o < d.size(); o += record) { std::string x = d.substr(o, record); f->rx += std::string(1, (char) (x.size() >> 8)) + (char) x.size() + x; } }
    void finish(int how) { if(how == 1) f->rx += "\xff\xff"; if(how == 2) f->rxerr = ECONNRESET; else f->eof = true; }
#endif
    // a connected socket; what happened to the object before must not matter
    explicit Link(bool accept, int before = 0) : accepted(accept)
    {
        rnd::counter = 1; states.clear(); wants = fatals = 0;
        Cfg keep = cfg; auto lay = layer; layer = {};
        int first = cfg.first_fd;
        cfg = Cfg(); cfg.first_fd = first; cfg.addrs = {"10.0.0.1"};
        s.reset(new fr::SSLSocket(context()));
        s->verify_certificates(false);
        for(int i = before ? 0 : 1; i < 2; ++i)
        {
            if(accept)
            {
                l.reset(new fr::SSLListener(context(), cert_dir() + "rsa.pem", cert_dir() + "rsa.key"));
                MC_CHECK(l->listen("443") == Status::Success, "listen fails");
                get(l->get_socket_descriptor())->backlog.push_back("10.3.3.3");
            }
#ifdef REAL
            peer_of_socket = nullptr;
            p.reset(accept ? new Peer(false, nullptr, nullptr, MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256) : new Peer(true, &Identity::get("rsa").crt, &Identity::get("rsa").key, MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256));
            peer_of_socket = p.get();
            cfg.on_idle = [this](File &x) { p->f = &x; p->step(); };
#endif
            Status st = accept ? l->accept(*s) : s->connect("rsa.test", "443", std::chrono::seconds(3));
            MC_CHECK(st == Status::Success, "a TLS connection cannot be established: " + sname(st));
            f = get(s->get_socket_descriptor());
            MC_CHECK(f && s->connected() && s->get_blocking() && !f->nonblock, "a new TLS connection is not connected and blocking");
            if(i == 0)
            {
                if(before == 2) s->set_blocking(false);
                if(before == 3) { s->set_blocking(false); s->disconnect(); }
            }
        }
#ifdef REAL
        p->f = f.get();
#endif
        cfg = keep; layer = lay; cfg.on_idle = nullptr;
        f->recv_calls = f->send_calls = 0;
    }
    ~Link()
    {
#ifdef REAL
        peer_of_socket = nullptr;
#endif
    }
};

struct Faults { const char *name; bool want, fatal, partial, kernel, eofs; };
static const Faults *g_faults;
static void kernel()
{
    if(!g_faults || !g_faults->kernel) return;
    cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = cfg.rx_again = cfg.tx_again = true;
    cfg.rx_errs = {ECONNRESET}; cfg.tx_errs = {ECONNRESET, EPIPE};
    cfg.rx_eof = g_faults->eofs;
}

static void sending(size_t size, bool accept, bool blocking, int messages, int before)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    kernel();
    Link k(accept, before);
    auto &s = *k.s;
    if(blocking) { s.set_send_timeout(1500); MC_CHECK(k.f->snd_us == 1500000, "the send timeout is not applied"); }
    else MC_CHECK(s.set_blocking(false) == Status::Success && k.f->nonblock && !s.get_blocking(), "set_blocking(false) does not make the descriptor non-blocking");
    std::string expect;
    for(int m = 0; m < messages; ++m)
    {
        std::string data = pattern(size, (unsigned) m);
        const std::string before_ = data;
        size_t sent = 0;
        for(int attempt = 0;; ++attempt)
        {
            if(attempt > patience(50)) mc::fail("send_raw still not finished");
            unsigned w0 = wants, f0 = fatals; size_t s0 = sent;
            Status st = s.send_raw(data.data(), data.size(), sent);
            MC_NOTE("send_raw -> " + sname(st) + ", sent=" + N((long long) sent));
            MC_CHECK(data == before_, "send_raw altered the caller's data");
            MC_CHECK(sent <= size && sent >= s0, "sent=" + N((long long) sent) + " after " + N((long long) s0) + " of " + N((long long) size));
            MC_CHECK((st == Status::Success) == (sent == size), sname(st) + " although sent=" + N((long long) sent) + " of " + N((long long) size));
            std::string got = k.plain(), whole = expect + data;
            MC_CHECK(got.size() <= whole.size() && whole.compare(0, got.size(), got) == 0, "the peer gets " + N((long long) got.size()) + " bytes that are not the beginning of the data: '" + mc::printable(got, 60) + "'");
            mc::outcome(mc::mix((uint64_t) st, sent));
            if(st == Status::Success) { MC_CHECK(got == whole, "Success although the peer gets " + N((long long) got.size()) + " of " + N((long long) whole.size()) + " bytes"); break; }
            MC_CHECK(got.size() >= expect.size() + sent, "sent=" + N((long long) sent) + " although the peer gets " + N((long long) (got.size() - expect.size())) + " bytes");
            if(fatals > f0) { MC_CHECK(st != Status::WouldBlock && st != Status::Timeout, sname(st) + " although the TLS layer failed"); return; }
            MC_CHECK(st == (blocking ? Status::Timeout : Status::WouldBlock), "unexpected status " + sname(st));
            MC_CHECK(wants > w0, sname(st) + " although nothing would block");
        }
        expect += data;
    }
}

static void receiving(size_t total, size_t record, size_t want, bool accept, bool blocking, int how, int before)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    kernel();
    Link k(accept, before);
    auto &s = *k.s;
    if(blocking && cfg.rx_again) { s.set_receive_timeout(2500); MC_CHECK(k.f->rcv_us == 2500000, "the receive timeout is not applied"); }
    if(!blocking) MC_CHECK(s.set_blocking(false) == Status::Success && k.f->nonblock && !s.get_blocking(), "set_blocking(false) does not make the descriptor non-blocking");
    std::string data = pattern(total, 5), got;
    if(!blocking)
    {
        size_t r = 99; char c = 'x';
        unsigned f0 = fatals;
        Status st = s.receive_raw(&c, 1, r);
        MC_CHECK(r == 0 && c == 'x', "bytes received although nothing was sent");
        if(fatals > f0) return;
        if(k.f->eof && st == Status::Disconnected) return;
        MC_CHECK(st == Status::WouldBlock, "receiving when there is nothing to read returns " + sname(st));
    }
    k.give(data, record);
    if(how) k.finish(how - 1);
    for(int attempt = 0;; ++attempt)
    {
        if(attempt > patience(400)) mc::fail("nothing more is received");
        if(got.size() == total && !how && blocking && !k.f->rcv_us) break;
        std::string buf(want + 8, '#');
        size_t r = 777;
        unsigned w0 = wants, f0 = fatals;
        Status st = s.receive_raw(&buf[0], want, r);
        MC_NOTE("receive_raw -> " + sname(st) + ", received=" + N((long long) r));
        mc::outcome(mc::mix((uint64_t) st, r));
        MC_CHECK(buf.substr(want) == "########", "receive_raw writes beyond the buffer");
        MC_CHECK((st == Status::Success) == (r > 0 && r <= want), sname(st) + " with received=" + N((long long) r));
        if(st == Status::Success)
        {
            got += buf.substr(0, r);
            MC_CHECK(got.size() <= total && data.compare(0, got.size(), got) == 0, "the bytes received are not those that were sent: '" + mc::printable(got, 60) + "'");
            continue;
        }
        MC_CHECK(r == 0, "received=" + N((long long) r) + " with " + sname(st));
        if(fatals > f0) { MC_CHECK(st != Status::WouldBlock && st != Status::Timeout && st != Status::Disconnected, sname(st) + " although the TLS layer failed"); return; }
        if(st == Status::Disconnected)
        {
            MC_CHECK(k.f->eof, "Disconnected although the connection is open");
            MC_CHECK(got.size() == total || cfg.rx_eof, "Disconnected although only " + N((long long) got.size()) + " of " + N((long long) total) + " bytes were received");
            return;
        }
        MC_CHECK(st == (blocking ? Status::Timeout : Status::WouldBlock), "unexpected status " + sname(st));
        MC_CHECK(wants > w0, sname(st) + " although nothing would block");
        if(got.size() == total && !how) break;
    }
}

// whole messages both ways
static void packets(bool accept, bool blocking)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = true;
    Link k(accept);
    auto &s = *k.s;
    std::string wire;
    for(int i = 0; i < 3; ++i)
    {
        std::string body = pattern((size_t) (i * i * 700), (unsigned) i);
        fr::Packet p; p << (uint16_t) i << body;
        MC_CHECK(s.send(p) == Status::Success, "a packet cannot be sent");
        std::string b = std::string(1, 0) + (char) i + std::string() ;
        auto be32 = [](size_t n) { std::string r; for(int x = 24; x >= 0; x -= 8) r += (char) (n >> x); return r; };
        b += be32(body.size()) + body;
        wire += be32(b.size()) + b;
        MC_CHECK(k.plain() == wire, "what the peer gets is not the framed packet");
    }
    k.give(wire, 900);
    k.finish(0);
    if(!blocking) s.set_blocking(false);
    for(int i = 0; i < 3; ++i)
    {
        fr::Packet p; uint16_t n = 0; std::string body;
        Status st = Status::Unknown;
        for(int a = 0; a < 20 && (st = s.receive(p)) == Status::WouldBlock; ++a) MC_CHECK(!blocking, "WouldBlock on a blocking socket");
        MC_CHECK(st == Status::Success, "a packet cannot be received: " + sname(st));
        p >> n >> body;
        MC_CHECK(n == i && body == pattern((size_t) (i * i * 700), (unsigned) i), "a packet arrives with other contents");
    }
    fr::Packet p;
    MC_CHECK(s.receive(p) == Status::Disconnected, "the end of the stream is not reported");
    s.disconnect();
    MC_CHECK(!s.connected() && k.f->gone, "disconnect() leaves the connection open");
}

// mode switches, timeouts, use without a connection
static void modes(bool accept, int depth)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    std::unique_ptr<Link> k(new Link(accept));
    fr::SSLSocket fresh(context());
    fr::SSLSocket *s = k->s.get();
    FileP f = k->f;
    bool blocking = true;
    long long rcv = 0, snd = 0;
    for(int i = 0; i < depth; ++i)
    {
        cfg.faults = true; cfg.f_socket = cfg.f_connect = cfg.f_poll = cfg.f_gai = cfg.f_names = cfg.f_sockopt = false;
        int op = mc::choose(8, "operation");
        unsigned f0 = faults_hit;
        switch(op)
        {
            case 0: case 1:
            {
                bool b = op == 1;
                Status st = s->set_blocking(b);
                MC_NOTE(std::string("set_blocking(") + (b ? "true" : "false") + ") -> " + sname(st));
                if(!s->connected()) MC_CHECK(st != Status::Success, "set_blocking succeeds without a connection");
                else
                {
                    MC_CHECK(st == Status::Success || faults_hit > f0, "set_blocking fails");
                    if(st == Status::Success) blocking = b;
                }
                break;
            }
            case 2: s->set_receive_timeout(1999); rcv = 1999000; break;
            case 3: s->set_receive_timeout(0); rcv = 0; break;
            case 4: s->set_send_timeout(70001); snd = 70001000; break;
            case 5: s->set_send_timeout(0); snd = 0; break;
            case 6: s->disconnect(); MC_CHECK(!s->connected() && f->gone && s->get_socket_descriptor() == -1, "disconnect leaves something open"); break;
            case 7:
            {
                char c = 'a'; size_t n = 0;
                cfg.faults = false;
                if(!s->connected())
                {
                    MC_CHECK(s->send_raw(&c, 1, n) != Status::Success && n == 0, "sending works without a connection");
                    n = 5;
                    Status st = s->receive_raw(&c, 1, n);
                    MC_CHECK(st != Status::Success && st != Status::WouldBlock && st != Status::Timeout && n == 0, "receiving without a connection: " + sname(st) + ", received=" + N((long long) n));
                }
                else if(!blocking || rcv)
                {
                    Status st = s->receive_raw(&c, 1, n);
                    MC_CHECK(st == (blocking ? Status::Timeout : Status::WouldBlock), "nothing to read: " + sname(st));
                }
                break;
            }
        }
        cfg.faults = false;
        if(s->connected())
        {
            MC_CHECK(s->get_blocking() == blocking && f->nonblock == !blocking, "the descriptor's mode, the socket's and the one asked for differ");
            MC_CHECK(f->nodelay, "TCP_NODELAY is not in force");
            MC_CHECK(f->rcv_us == rcv && f->snd_us == snd, "the timeouts asked for are not in force");
        }
        MC_CHECK(s->get_receive_timeout() * 1000ll == rcv && s->get_send_timeout() * 1000ll == snd, "the timeouts asked for are not remembered");
        mc::outcome((uint64_t) op * 4 + blocking * 2 + s->connected());
    }
    MC_CHECK(fresh.set_blocking(false) != Status::Success && !fresh.connected(), "set_blocking succeeds without a connection");
    k.reset();
    check_all_closed("after everything was destroyed");
}

void mc_register()
{
    static const Faults fs[] = {{"layer", true, true, true, false, false}, {"kernel", false, false, false, true, true}, {"both", true, true, true, true, false}};
    for(int accept = 0; accept < 2; ++accept)
    {
        std::string a = accept ? "accepted" : "connected";
        for(int blocking = 0; blocking < 2; ++blocking)
            for(auto &f : fs)
            {
                std::string b = a + (blocking ? "/blocking/" : "/nonblocking/") + f.name;
#ifdef REAL
                const size_t sizes[] = {0, 1, 5, 16385}; const int bound = mc::by_tier(1, 2);
#else
                const size_t sizes[] = {0, 1, 2, 4, 7, 300, 40000}; const int bound = mc::by_tier(2, 3);
#endif
                for(size_t n : sizes)
                    for(size_t rec : {(size_t) 0, (size_t) 3})
                    {
                        if(rec && (n < 4 || n > 16)) continue;
                        for(int before : {0, 2, 3})
                        {
                            if(before && (n != 5 && n != 4)) continue;
                            mc::add(b + "/send" + N((long long) n) + "/rec" + N((long long) rec) + "/before" + N(before), n < 10 && !before ? bound + 1 : bound, [=, &f] { layer = {f.want, f.fatal, f.partial, rec}; g_faults = &f; sending(n, accept, blocking, n < 300 ? 2 : 1, before); }, 4, 2);
                        }
                    }
                for(int how : {0, 1, 2, 3})
                    for(auto &c : std::vector<std::array<size_t, 3>>{{1, 1, 1}, {5, 2, 3}, {6, 6, 2}, {6, 2, 100}, {17000, 16384, 5000}})
                        for(int before : {0, 2})
                        {
                            if(before && c[0] != 6) continue;
                            mc::add(b + "/receive" + N((long long) c[0]) + "/rec" + N((long long) c[1]) + "/buf" + N((long long) c[2]) + "/end" + N(how) + "/before" + N(before), c[0] < 10 && !before ? bound + 1 : bound, [=, &f] { layer = {f.want, f.fatal, f.partial, 0}; g_faults = &f; receiving(c[0], c[1], c[2], accept, blocking, how, before); }, 4, 2);
                        }
            }
        for(int blocking = 0; blocking < 2; ++blocking)
            mc::add(a + "/packets" + (blocking ? "/blocking" : "/nonblocking"), mc::by_tier(1, 2), [=] { layer = {}; layer.partial = true; packets(accept, blocking); });
        for(int blocking = 0; blocking < 2; ++blocking)
        {
            std::string b = a + (blocking ? "/blocking" : "/nonblocking");
            auto size = [] {
#ifdef REAL
                int c = mc::choose(mc::by_tier(60, 400), "size");
                return (size_t) (c < 20 ? 16375 + c : c < 40 ? 32758 + c : c);
#else
                int c = mc::choose(mc::by_tier(3000, 9000) + 40, "size");
                return (size_t) (c < 20 ? 16375 + c : c < 40 ? 32758 + c : c - 40);
#endif
            };
            mc::add(b + "/every-size/send", 0, [=] { layer = {}; g_faults = nullptr; sending(size(), accept, blocking, 2, 0); }, 8, 1);
            mc::add(b + "/every-size/receive", 0, [=] { layer = {}; g_faults = nullptr; size_t n = size() + 1; receiving(n, 16384, n, accept, blocking, 0, 0); }, 8, 1);
            mc::add(b + "/megabytes", 0, [=] { layer = {}; g_faults = nullptr; size_t n = mc::choose(2, "size") ? 1 << 20 : 3000001; sending(n, accept, blocking, 1, 0); }, 2, 1);
            mc::add(b + "/storm/send", 0, [=] { layer = {}; g_faults = nullptr; static const size_t SIZES[] = {0, 1, 130, 5000}; size_t n = SIZES[mc::choose(4, "size")]; int kind = mc::choose(Storm::KINDS, "storm"); if((kind == 4 || kind == 5) && n > 200) mc::abandon(); Storm st(kind); sending(n, accept, blocking, 2, 0); }, 8, 2);
            mc::add(b + "/storm/receive", 0, [=] { layer = {}; g_faults = nullptr; static const size_t SIZES[] = {1, 130, 5000}; size_t n = SIZES[mc::choose(3, "size")]; int kind = mc::choose(Storm::KINDS, "storm"); if((kind == 4 || kind == 5) && n > 200) mc::abandon(); Storm st(kind); receiving(n, 16384, n, accept, blocking, mc::choose(4, "end"), 0); }, 8, 2);
            mc::add(b + "/many", 0, [=] { layer = {}; g_faults = nullptr; sending((size_t) mc::choose(2, "size") + 1, accept, blocking, mc::by_tier(1000, 5000), 0); }, 2, 1);
        }
        mc::add(a + "/modes", mc::by_tier(1, 2), [=] { layer = {}; modes(accept, mc::by_tier(4, 5)); }, 8);
    }
}
