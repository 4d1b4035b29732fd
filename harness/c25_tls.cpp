// C25: TLS connections are only established with a verified peer.  Real mbedtls on both sides, every combination of certificates, trust
// stores, names and settings, and every outcome of the handshake's reads and writes up to the fault bound.
#define TLS_DEFINE
#include "tls.hpp"
#include "frnetlib/TcpListener.h"
#include <set>
using namespace simk;

static const int FAST = MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256;

// What a server may present, and what has to be trusted for it to be accepted (any one of them).
struct Server { const char *name; std::vector<std::string> anchors; std::vector<std::string> names; bool proves; };
static const std::vector<std::string> S{"good.test", "*.wild.test"};
static const std::vector<Server> servers = {
    {"good", {"ca_a", "both"}, S, true},
    {"other", {"ca_a", "both"}, {"other.test"}, true},
    {"byb", {"ca_b", "both"}, S, true},
    {"fake", {"ca_fake"}, S, true},
    {"self", {"self"}, S, true},
    {"expired", {}, S, true},
    {"future", {}, S, true},
    {"oldca", {}, S, true},
    {"leaf", {"int_a"}, S, true},
    {"chain", {"ca_a", "both", "int_a"}, S, true},
    {"cnonly", {"ca_a", "both"}, {"good.test"}, true},
    {"sanwins", {"ca_a", "both"}, {"other.test"}, true},
    {"noca", {}, S, true},
    {"wrongkey", {"ca_a", "both"}, S, false},       // does not hold the key of its certificate
    {"badsig", {}, S, true},
    {"weak", {}, S, true},          // a key of 1024 bits
    {"sha1", {}, S, true},          // signed with SHA-1
};
static const std::vector<std::string> stores = {"", "ca_a", "ca_b", "both", "ca_fake", "ca_old", "int_a", "self", "ca_b+ca_a", "int_a+ca_b"};
static const std::vector<std::string> hosts = {"good.test", "other.test", "GOOD.Test", "a.wild.test", "a.b.wild.test", "wild.test", ".wild.test", "good.test.evil", "good.tes", "ood.test", "xgood.test", "evil", "10.0.0.1", "localhost", "127.0.0.1", "::1"};

static std::string lower(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }
static bool names_match(const Server &v, const std::string &host)
{
    std::string h = lower(host);
    for(auto &n : v.names)
    {
        if(n == h) return true;
        if(n.compare(0, 2, "*.") == 0)
        {
            size_t dot = h.find('.');
            if(dot != std::string::npos && dot > 0 && h.substr(dot) == n.substr(1)) return true;
        }
    }
    return false;
}
static bool trusted(const Server &v, const std::string &store)
{
    for(size_t o = 0; o <= store.size();)
    {
        size_t e = std::min(store.find('+', o), store.size());
        std::string one = store.substr(o, e - o);
        for(auto &a : v.anchors) if(a == one && !one.empty()) return true;
        o = e + 1;
    }
    return false;
}
// the trust stores, loaded from memory or from files
static std::shared_ptr<fr::SSLContext> context(const std::string &store, bool memory)
{
    static std::map<std::string, std::shared_ptr<fr::SSLContext>> all;
    auto &c = all[store + (memory ? "/m" : "/f")];
    if(c) return c;
    c = std::make_shared<fr::SSLContext>();
    for(size_t o = 0; o < store.size();)
    {
        size_t e = std::min(store.find('+', o), store.size());
        std::string path = cert_dir() + store.substr(o, e - o) + ".pem";
        bool ok = memory ? c->load_ca_certs_from_memory(slurp(path)) : c->load_ca_certs_from_file(path);
        if(!ok) { c.reset(); mc::fail("certificates cannot be loaded from " + std::string(memory ? "memory" : "a file")); }
        o = e + 1;
    }
    return c;
}

enum Verify { Default, On, Off, OffOn, OnOff, NVERIFY };
static const char *vname[] = {"default", "on", "off", "off, then on", "on, then off"};
static void set_verify(fr::SSLSocket &s, int v)
{
    if(v == On || v == OnOff) s.verify_certificates(true);
    if(v == Off || v == OffOn) s.verify_certificates(false);
    if(v == OffOn) s.verify_certificates(true);
    if(v == OnOff) s.verify_certificates(false);
}
static bool verifies(int v) { return v == Default || v == On || v == OffOn; }

static void unusable(fr::SSLSocket &s, const std::string &why)
{
    MC_CHECK(!s.connected(), "connected() after " + why);
    MC_CHECK(s.get_socket_descriptor() == -1, "a descriptor is reported after " + why);
    size_t sent = 0, got = 0; char c = 'x';
    MC_CHECK(s.send_raw(&c, 1, sent) != Status::Success && sent == 0, "data can be sent after " + why);
    MC_CHECK(s.receive_raw(&c, 1, got) != Status::Success && got == 0, "data can be received after " + why);
}
static void usable(fr::SSLSocket &s, Peer &p, const FileP &f)
{
    MC_CHECK(s.connected() && f && !f->gone && s.get_socket_descriptor() == f->fd, "not connected after Success");
    MC_CHECK(s.get_blocking() && !f->nonblock, "a new connection is not blocking");
    p.step();
    MC_CHECK(p.done, "Success although the peer has not completed the handshake");
    std::string hello = "hello, peer", back;
    size_t sent = 0;
    size_t already = p.plain.size();
    MC_CHECK(s.send_raw(hello.data(), hello.size(), sent) == Status::Success, "nothing can be sent over a new connection");
    p.drain();
    MC_CHECK(p.plain.substr(already) == hello, "the peer gets other data");
    MC_CHECK(f->tx.find("hello") == std::string::npos, "data travels in the clear");
    p.send("answer");
    char b[32]; size_t got = 0;
    MC_CHECK(s.receive_raw(b, sizeof b, got) == Status::Success && std::string(b, got) == "answer", "nothing can be received over a new connection");
}

// one attempt to connect; returns the status
struct Wire
{
    int corrupt = -1;              // bytes of the handshake are altered (a deviation for every record)
    bool corrupted = false, cut = false;
    bool can_corrupt = false, can_cut = false;
    void attach(Peer &p)
    {
        p.mangle = [this](std::string &s)
        {
            if(s.size() < 6) return;
            if(can_corrupt && !corrupted)
            {
                int c = mc::deviate(5, "a record is altered");
                size_t at = c == 1 ? 5 : c == 2 ? s.size() - 1 : c == 3 ? 5 + (s.size() - 5) / 2 : c == 4 ? 0 : 0;
                if(c) { corrupted = true; s[at] = (char) (s[at] ^ (c == 4 ? 0x40 : 1)); MC_NOTE("* the record's byte " + N((long long) at) + " is altered"); }
            }
            if(can_cut && !cut)
            {
                int c = mc::deviate(4, "the stream ends");
                if(c) { cut = true; s.resize(c == 1 ? 0 : c == 2 ? 5 : s.size() - 1); MC_NOTE("* the stream ends within a record"); }
            }
        };
    }
};
static bool wants_answer(int r) { return r == MBEDTLS_ERR_SSL_WANT_READ || r == MBEDTLS_ERR_SSL_WANT_WRITE; }
static unsigned layer_failed;
static bool layer_faults;
static Peer *the_peer;
static int layer(const char *n, std::initializer_list<int> errs)
{
    if(!layer_faults) return 0;
    int c = mc::deviate(1 + (int) errs.size(), n);
    if(!c) return 0;
    int e = *(errs.begin() + c - 1);
    if(!wants_answer(e)) ++layer_failed;
    MC_NOTE(std::string("* ") + n + " answers " + N(e));
    return e;
}
#define LAYER(ret, name, args, call, ...) extern "C" ret __real_##name args; extern "C" ret __wrap_##name args { if(int e = layer(#name, {__VA_ARGS__})) return e; return __real_##name call; }
static bool of_peer(const mbedtls_ssl_context *s) { return the_peer && s == &the_peer->ssl; }
extern "C" int __real_mbedtls_ssl_handshake(mbedtls_ssl_context *);
extern "C" int __wrap_mbedtls_ssl_handshake(mbedtls_ssl_context *s)
{
    if(!of_peer(s)) if(int e = layer("mbedtls_ssl_handshake", {MBEDTLS_ERR_SSL_WANT_READ, MBEDTLS_ERR_SSL_WANT_WRITE, MBEDTLS_ERR_SSL_ALLOC_FAILED, MBEDTLS_ERR_SSL_FATAL_ALERT_MESSAGE, MBEDTLS_ERR_X509_CERT_VERIFY_FAILED, 1})) return e;
    return __real_mbedtls_ssl_handshake(s);
}
extern "C" int __real_mbedtls_ssl_setup(mbedtls_ssl_context *, const mbedtls_ssl_config *);
extern "C" int __wrap_mbedtls_ssl_setup(mbedtls_ssl_context *s, const mbedtls_ssl_config *c)
{
    if(!of_peer(s) && the_peer) if(int e = layer("mbedtls_ssl_setup", {MBEDTLS_ERR_SSL_ALLOC_FAILED})) return e;
    return __real_mbedtls_ssl_setup(s, c);
}
extern "C" int __real_mbedtls_ssl_set_hostname(mbedtls_ssl_context *, const char *);
extern "C" int __wrap_mbedtls_ssl_set_hostname(mbedtls_ssl_context *s, const char *h)
{
    if(int e = layer("mbedtls_ssl_set_hostname", {MBEDTLS_ERR_SSL_ALLOC_FAILED})) return e;
    return __real_mbedtls_ssl_set_hostname(s, h);
}

struct Attempt { Status st; bool peer_done; FileP f; };
static Status attempt(fr::SSLSocket &s, const std::string &server, const std::string &host, std::unique_ptr<Peer> &p, Wire *w, bool faults)
{
    rnd::counter = 1;
    cfg.addrs = {"10.0.0.1"};
    the_peer = nullptr;
    p.reset(new Peer(true, &Identity::get(server).crt, &Identity::get(server).key, FAST));
    the_peer = p.get();
    if(w) w->attach(*p);
    Peer *pp = p.get();
    cfg.on_idle = [pp, w](File &x) { pp->f = &x; pp->step(); if(w && w->cut) x.eof = true; };
    if(faults) { cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = cfg.rx_eof = true; cfg.rx_errs = {ECONNRESET}; cfg.tx_errs = {EPIPE}; }
    Status st = s.connect(host, "443", std::chrono::seconds(3));
    cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = cfg.rx_eof = false; cfg.rx_errs.clear(); cfg.tx_errs.clear();
    if(w) { w->can_corrupt = w->can_cut = false; }
    layer_faults = false;
    MC_NOTE("connect to " + server + " as " + host + " -> " + sname(st));
    return st;
}
static FileP file_of(fr::SSLSocket &s) { return s.get_socket_descriptor() < 0 ? nullptr : get(s.get_socket_descriptor()); }

// every certificate, trust store, name and setting
static void table(const Server &v, const std::string &store, bool memory, bool reuse)
{
    Session sess;
    the_peer = nullptr; layer_faults = false;
    auto ctx = context(store, memory);
    fr::SSLSocket s(ctx);
    std::unique_ptr<Peer> p;
    for(int round = 0; round < (reuse ? 3 : 1); ++round)
    {
        const Server &sv = reuse && round < 2 ? servers[(size_t) (std::vector<int>{0, 4})[(size_t) mc::choose(2, "server")]] : v;
        int ver = mc::choose(reuse ? 3 : NVERIFY, "verification");
        if(reuse && round && ver == Default) { mc::abandon(); }
        static bool v_now; 
        if(round == 0) v_now = true;
        if(ver != Default) v_now = verifies(ver);
        const std::string &host = hosts[(size_t) mc::choose(reuse ? 2 : (int) hosts.size(), "host name")];
        set_verify(s, ver);
        Status st = attempt(s, sv.name, host, p, nullptr, false);
        bool ok = sv.proves && (!v_now || (trusted(sv, store) && names_match(sv, host)));
        std::string what = std::string("server ") + sv.name + ", trusting '" + store + "', asking for " + host + ", verification " + vname[ver];
        mc::outcome(mc::mix((uint64_t) st, mc::hash(what)));
        MC_CHECK((st == Status::Success) == ok, what + ": " + sname(st));
        if(ok) usable(s, *p, file_of(s)); else unusable(s, "a failed attempt (" + what + ")");
        MC_CHECK(open_files().size() == (ok ? 1u : 0u), "descriptors are left open");
    }
    cfg.on_idle = nullptr;
    s.disconnect();
    unusable(s, "disconnecting");
    check_all_closed("after the attempts");
}

// every outcome of the handshake's reads and writes
static void interrupted(const Server &v, int ver, int kind, int before)
{
    Session sess;
    the_peer = nullptr; layer_faults = false;
    const std::string store = "ca_a", host = "good.test";
    fr::SSLSocket s(context(store, false));
    std::unique_ptr<Peer> p;
    if(before)
    {
        s.verify_certificates(false);
        MC_CHECK(attempt(s, "self", host, p, nullptr, false) == Status::Success, "cannot connect");
        if(before == 2) s.disconnect();
        s.verify_certificates(true);
    }
    set_verify(s, ver);
    Wire w; w.can_corrupt = kind == 1; w.can_cut = kind == 2;
    layer_faults = kind == 3; layer_failed = 0;
    if(kind == 4) { cfg.faults = true; cfg.f_sockopt = false; }
    unsigned f0 = faults_hit;
    size_t old = all().size();
    Status st = attempt(s, v.name, host, p, &w, kind == 0);
    cfg.faults = false;
    bool ok = v.proves && (!verifies(ver) || (trusted(v, store) && names_match(v, host)));
    bool broken = false, tcp = all().size() > old;
    FileP f; if(tcp) { f = all().back(); broken = f->eof || f->broken || f->rx_fails || f->tx_fails; }
    mc::outcome(mc::mix((uint64_t) st, (uint64_t) broken));
    std::string what = std::string("server ") + v.name + ", verification " + vname[ver];
    if(w.corrupted) MC_CHECK(st != Status::Success, "Success although the handshake was altered (" + what + ")");
    if(w.cut) MC_CHECK(st != Status::Success, "Success although the handshake was cut off (" + what + ")");
    if(layer_failed) MC_CHECK(st != Status::Success, "Success although the TLS layer failed (" + what + ")");
    if(!ok) MC_CHECK(st != Status::Success, "Success (" + what + ")");
    if(ok && !broken && !w.corrupted && !w.cut && !layer_failed && faults_hit == f0) MC_CHECK(st == Status::Success, "connecting fails with " + sname(st) + " although nothing went wrong (" + what + ")");
    if(st == Status::Success)
    {
        if(broken && f->eof) { MC_CHECK(p->done || (p->step(), p->done), "Success although the peer has not completed the handshake"); }
        else if(!broken) usable(s, *p, file_of(s));
    }
    else
    {
        unusable(s, "a failed attempt (" + what + ")");
        for(auto &x : open_files()) { (void) x; mc::fail("a descriptor is left open after a failed attempt"); }
        // and the object can be used again
        if(kind < 4)
        {
            st = attempt(s, "good", host, p, nullptr, false);
            MC_CHECK(st == Status::Success, "after a failed attempt a good server is refused: " + sname(st));
            usable(s, *p, file_of(s));
        }
    }
    cfg.on_idle = nullptr;
    s.disconnect();
    check_all_closed("after the attempts");
}

// the server's side
static void serving(int kind, int before, const std::string &identity)
{
    Session sess;
    the_peer = nullptr; layer_faults = false;
    rnd::counter = 1;
    std::unique_ptr<fr::SSLListener> l(new fr::SSLListener(context("", false), cert_dir() + identity + ".pem", cert_dir() + identity + ".key"));
    cfg.addrs = {"10.0.0.1"};
    std::unique_ptr<Peer> p, q;
    {
        fr::SSLSocket s(context("ca_a", false));
        MC_CHECK(l->listen("443") == Status::Success && l->connected(), "listen fails");
        auto lf = get(l->get_socket_descriptor());
        MC_CHECK(lf && lf->st == Listening, "listen gives no listening descriptor");
        FileP old;
        if(before)
        {
            s.verify_certificates(false);
            MC_CHECK(attempt(s, "self", "x", p, nullptr, false) == Status::Success, "cannot connect");
            if(before == 2) s.disconnect(); else old = file_of(s);
            q = std::move(p);
        }
        lf->backlog.push_back("10.3.3.3");
        the_peer = nullptr;
        p.reset(new Peer(false, nullptr, nullptr, identity == "rsa" ? MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256 : FAST));
        Wire w; w.can_corrupt = kind == 1; w.can_cut = kind == 2; w.attach(*p);
        Peer *pp = p.get(); the_peer = pp;
        int garbage = kind == 5 ? mc::choose(6, "what the client says") : 0;
        cfg.on_idle = [pp, &w, garbage](File &x)
        {
            static const std::string g[] = {"", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", std::string("\x16\x03\x01\xff\xff", 5), std::string("\x16\x03\x03\x00\x00", 5), std::string("\x15\x03\x03\x00\x02\x02\x28", 7), std::string(70, '\0')};
            pp->f = &x;
            if(garbage) { if(!x.rx.size()) x.rx = g[garbage]; else x.eof = true; return; }
            pp->step(); if(w.cut) x.eof = true;
        };
        if(kind == 5 && !garbage) cfg.on_idle = [](File &x) { x.eof = true; };
        if(kind == 0) { cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = cfg.rx_eof = true; cfg.rx_errs = {ECONNRESET}; cfg.tx_errs = {EPIPE}; }
        layer_faults = kind == 3; layer_failed = 0;
        cfg.faults = kind == 4;
        unsigned f0 = faults_hit, n0 = names_failed;
        std::string oldaddr = s.get_remote_address();
        size_t files = all().size();
        Status st = l->accept(s);
        cfg.faults = false; layer_faults = false;
        cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = cfg.rx_eof = false; cfg.rx_errs.clear(); cfg.tx_errs.clear();
        w.can_corrupt = w.can_cut = false;
        MC_NOTE("accept -> " + sname(st));
        mc::outcome((uint64_t) st);
        FileP f; if(all().size() > files) f = all().back();
        bool broken = f && (f->eof || f->broken || f->rx_fails || f->tx_fails);
        if(w.corrupted || w.cut || layer_failed || kind == 5) MC_CHECK(st != Status::Success, "Success although the handshake failed");
        if(!broken && !w.corrupted && !w.cut && !layer_failed && kind != 5 && faults_hit == f0) MC_CHECK(st == Status::Success, "accept fails with " + sname(st) + " although nothing went wrong");
        if(st == Status::Success)
        {
            MC_CHECK(f && file_of(s) == f, "the client is not attached to the connection that was taken over");
            if(names_failed == n0 && faults_hit == f0) MC_CHECK(s.get_remote_address() == "10.3.3.3", "the peer's address is recorded as " + s.get_remote_address());
            MC_CHECK(!old || old->gone, "the connection that was replaced is still open");
            if(!broken) usable(s, *p, f);
        }
        else
        {
            MC_CHECK(!f || f->gone, "a connection whose handshake failed is left open");
            if(!old) unusable(s, "a failed accept");
            else MC_CHECK(s.connected() && !old->gone && file_of(s) == old && s.get_remote_address() == oldaddr, "a failed accept disturbed the client object");
            // the next client is served
            if(!lf->gone)
            {
                rnd::counter = 1;
                while(!lf->backlog.empty()) lf->backlog.pop_front();
                lf->backlog.push_back("10.4.4.4");
                the_peer = nullptr;
                p.reset(new Peer(false, nullptr, nullptr, identity == "rsa" ? MBEDTLS_TLS_RSA_WITH_AES_128_GCM_SHA256 : FAST));
                pp = p.get(); the_peer = pp;
                cfg.on_idle = [pp](File &x) { pp->f = &x; pp->step(); };
                st = l->accept(s);
                MC_CHECK(st == Status::Success, "after a failed accept the next client is refused: " + sname(st));
                usable(s, *p, file_of(s));
                MC_CHECK(s.get_remote_address() == "10.4.4.4", "the peer's address is recorded as " + s.get_remote_address());
            }
        }
        cfg.on_idle = nullptr;
        the_peer = nullptr;
    }
    l.reset();
    p.reset(); q.reset();
    check_all_closed("after everything was destroyed");
}

// loading certificates reports the truth
static void loading()
{
    std::string good = slurp(cert_dir() + "ca_a.pem"), two = slurp(cert_dir() + "both.pem");
    struct { std::string text; bool ok; } in[] = {{good, true}, {two, true}, {"", false}, {"nonsense", false}, {good.substr(0, good.size() / 2), false}, {slurp(cert_dir() + "good.key"), false}};
    int i = mc::choose(6, "text"); bool memory = mc::choose(2, "from memory");
    std::string path = mc::scratch() + "/certs.pem";
    { std::ofstream o(path); o << in[i].text; }
    fr::SSLContext c;
    bool ok = memory ? c.load_ca_certs_from_memory(in[i].text) : c.load_ca_certs_from_file(path);
    MC_CHECK(ok == in[i].ok, std::string("loading certificates from ") + (memory ? "memory" : "a file") + (ok ? " succeeds" : " fails") + " for text " + N(i));
    MC_CHECK(!c.load_ca_certs_from_file(path + ".missing"), "loading certificates from a missing file succeeds");
    mc::outcome((uint64_t) (i * 2 + ok));
    bool th = false;
    try { fr::SSLListener l(context("", false), path, cert_dir() + "good.key"); } catch(const std::runtime_error &) { th = true; }
    MC_CHECK(th == !in[i].ok, "a listener is made from a bad certificate, or refused a good one");
    th = false;
    try { fr::SSLListener l(context("", false), cert_dir() + "good.pem", path); } catch(const std::runtime_error &) { th = true; }
    MC_CHECK(th == (i != 5), "a listener is made from a bad key, or refused a good one");
}

// certificates of which some are damaged: loading them succeeds only if all could be read
static void bundles()
{
    std::string a = slurp(cert_dir() + "ca_a.pem"), b = slurp(cert_dir() + "ca_b.pem"), bad = a;
    size_t body = bad.find('\n') + 1;
    for(size_t i = 0; i < 8; ++i) bad[body + i] = 'A';               // no certificate inside
    int n = 1 + mc::choose(mc::by_tier(3, 4), "certificates"); std::string text; int readable = 0, damaged = 0;
    for(int i = 0; i < n; ++i)
        switch(mc::choose(4, "certificate"))
        {
            case 0: text += a; ++readable; break;
            case 1: text += b; ++readable; break;
            case 2: text += bad; ++damaged; break;
            case 3: text += "# a remark\n"; break;
        }
    bool memory = mc::choose(2, "from memory");
    std::string path = mc::scratch() + "/bundle.pem";
    { std::ofstream o(path); o << text; }
    fr::SSLContext c;
    bool ok = memory ? c.load_ca_certs_from_memory(text) : c.load_ca_certs_from_file(path);
    MC_CHECK(ok == (readable > 0 && damaged == 0), "loading " + N(readable) + " good and " + N(damaged) + " damaged certificates from " + (memory ? "memory" : "a file") + (ok ? " succeeds" : " fails"));
    mc::outcome((uint64_t) (readable * 16 + damaged * 2 + ok));
}

void mc_register()
{
    mc::add("bundles", 0, bundles);
    for(auto &v : servers)
        for(auto &st : stores)
            for(int memory = 0; memory < 2; ++memory)
            {
                mc::add(std::string("table/") + v.name + "/" + st + (memory ? "/memory" : "/file"), 0, [&v, &st, memory] { table(v, st, memory, false); });
                if(memory && (st == "ca_a" || (st == "" && mc::thorough()))) mc::add(std::string("table/") + v.name + "/" + st + "/reused", 0, [&v, &st] { table(v, st, true, true); }, 4, 2);
            }
    static const char *kinds[] = {"transport", "altered", "cut-off", "layer", "system-calls", "garbage"};
    for(int kind = 0; kind < 5; ++kind)
        for(int before = 0; before < 3; ++before)
            for(auto &v : servers)
                for(int ver : {Default, Off})
                {
                    std::string n = v.name;
                    bool main = n == "good" || n == "byb";
                    if(!main && before) continue;
                    if(!main && !(n == "other" || n == "self" || n == "wrongkey" || n == "chain") && !mc::thorough()) continue;
                    int b = main && !before ? 2 : 1;
                    mc::add(std::string("interrupted/") + kinds[kind] + "/" + n + "/" + vname[ver] + "/before" + N(before), kind == 0 || kind == 4 ? b + (mc::thorough() ? (b == 2) : 0) : mc::by_tier(1, 2), [&v, ver, kind, before] { interrupted(v, ver, kind, before); }, 6, 2);
                }
    for(int kind = 0; kind < 6; ++kind)
        for(int before = 0; before < 3; ++before)
            for(const char *id : {"good", "chain", "rsa"})
                mc::add(std::string("serving/") + kinds[kind] + "/" + id + "/before" + N(before), kind == 5 ? 0 : !before && std::string(id) == "rsa" ? mc::by_tier(2, 3) : 1, [kind, before, id] { serving(kind, before, id); }, 6, 2);
    mc::add("loading", 0, loading);
}
