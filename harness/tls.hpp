// The other end of a TLS connection: a plain mbedtls endpoint that lives in memory, on the other side of a simulated descriptor.
#pragma once
#include "util.hpp"
#include "frnetlib/SSLSocket.h"
#include "frnetlib/SSLListener.h"
#include <fstream>
#include <sstream>
#include <ctime>

inline std::string cert_dir() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/certs/"; }
inline std::string slurp(const std::string &p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }

// Everything random comes from here, so that an execution can be repeated; it starts anew with every connection attempt.
namespace rnd { extern uint64_t counter; }
#ifdef TLS_DEFINE
// mbedtls is not instrumented, so what it is handed is checked here
#include <sanitizer/asan_interface.h>
extern "C" int __real_mbedtls_net_send(void *, const unsigned char *, size_t);
extern "C" int __real_mbedtls_net_recv(void *, unsigned char *, size_t);
static void live_context(void *c, const char *what) { if(!c || __asan_region_is_poisoned(c, sizeof(mbedtls_net_context))) mc::fail(std::string(what) + " with a connection that has been freed"); }
extern "C" int __wrap_mbedtls_net_send(void *c, const unsigned char *b, size_t n) { live_context(c, "the TLS layer sends"); return __real_mbedtls_net_send(c, b, n); }
extern "C" int __wrap_mbedtls_net_recv(void *c, unsigned char *b, size_t n) { live_context(c, "the TLS layer receives"); return __real_mbedtls_net_recv(c, b, n); }
namespace rnd { uint64_t counter = 0; }
extern "C" int __wrap_mbedtls_ctr_drbg_random(void *, unsigned char *o, size_t n)
{
    for(size_t i = 0; i < n; ++i) { uint64_t x = mc::mix(++rnd::counter, 77); o[i] = (unsigned char) (x >> 24); if(!o[i]) o[i] = 1; }
    return 0;
}
// and it is always the same day
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *t) { if(!mc::in_body) return __real_time(t); time_t v = 1780000000; if(t) *t = v; return v; }
#endif

struct Peer
{
    mbedtls_ssl_context ssl;
    mbedtls_ssl_config conf;
    simk::File *f = nullptr;
    bool server;
    size_t seen = 0;                   // bytes of f->tx taken
    bool done = false, dead = false;   // handshake complete / failed
    bool closed = false;               // the library has closed properly
    int error = 0;
    std::string plain;
    unsigned records = 0;
    std::function<void(std::string &)> mangle;   // what is put on the wire
    static int rng(void *, unsigned char *o, size_t n)
    {
        static uint64_t c; c = rnd::counter ^ 0x5555; rnd::counter += 1;
        for(size_t i = 0; i < n; ++i) { o[i] = (unsigned char) (mc::mix(++c, 99) >> 24); if(!o[i]) o[i] = 1; }
        return 0;
    }
    static int bio_send(void *c, const unsigned char *b, size_t n)
    {
        Peer &p = *(Peer *) c;
        if(p.f->broken || p.f->shut_wr || p.f->gone) return MBEDTLS_ERR_NET_CONN_RESET;
        std::string s((const char *) b, n);
        if(p.mangle) p.mangle(s);
        p.f->rx += s;
        return (int) n;
    }
    static int bio_recv(void *c, unsigned char *b, size_t n)
    {
        Peer &p = *(Peer *) c;
        size_t k = std::min(n, p.f->tx.size() - p.seen);
        if(!k) return p.f->gone ? 0 : MBEDTLS_ERR_SSL_WANT_READ;
        memcpy(b, p.f->tx.data() + p.seen, k); p.seen += k;
        return (int) k;
    }
    Peer(bool server_, mbedtls_x509_crt *crt, mbedtls_pk_context *key, int suite = 0) : server(server_)
    {
        mbedtls_ssl_init(&ssl); mbedtls_ssl_config_init(&conf);
        mbedtls_ssl_config_defaults(&conf, server ? MBEDTLS_SSL_IS_SERVER : MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
        mbedtls_ssl_conf_rng(&conf, rng, nullptr);
        mbedtls_ssl_conf_authmode(&conf, MBEDTLS_SSL_VERIFY_NONE);
        if(crt) mbedtls_ssl_conf_own_cert(&conf, crt, key);
        static int suites[2]; suites[0] = suite; suites[1] = 0;
        if(suite) mbedtls_ssl_conf_ciphersuites(&conf, suites);
        if(mbedtls_ssl_setup(&ssl, &conf)) mc::fail("harness: peer setup");
        mbedtls_ssl_set_bio(&ssl, this, bio_send, bio_recv, nullptr);
    }
    Peer(const Peer &) = delete;
    ~Peer() { mbedtls_ssl_free(&ssl); mbedtls_ssl_config_free(&conf); }
    void step()
    {
        if(dead) return;
        if(!done)
        {
            int r = mbedtls_ssl_handshake(&ssl);
            if(r == 0) done = true;
            else if(r != MBEDTLS_ERR_SSL_WANT_READ && r != MBEDTLS_ERR_SSL_WANT_WRITE) { dead = true; error = r; f->eof = true; return; }
        }
        if(done) drain();
    }
    void drain()
    {
        char b[20000];
        while(!dead && !closed)
        {
            int r = mbedtls_ssl_read(&ssl, (unsigned char *) b, sizeof b);
            if(r > 0) { plain.append(b, (size_t) r); continue; }
            if(r == MBEDTLS_ERR_SSL_WANT_READ || r == MBEDTLS_ERR_SSL_WANT_WRITE) return;
            if(r == 0 || r == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY) { closed = true; return; }
            dead = true; error = r;
        }
    }
    void send(const std::string &s, size_t record = 16384)
    {
        size_t o = 0;
        while(o < s.size())
        {
            int r = mbedtls_ssl_write(&ssl, (const unsigned char *) s.data() + o, std::min(record, s.size() - o));
            if(r <= 0) mc::fail("harness: the peer cannot send");
            o += (size_t) r;
        }
    }
    void notify() { mbedtls_ssl_close_notify(&ssl); }
};

struct Identity
{
    mbedtls_x509_crt crt; mbedtls_pk_context key;
    explicit Identity(const std::string &name)
    {
        mbedtls_x509_crt_init(&crt); mbedtls_pk_init(&key);
        int a = mbedtls_x509_crt_parse_file(&crt, (cert_dir() + name + ".pem").c_str()), b = mbedtls_pk_parse_keyfile(&key, (cert_dir() + name + ".key").c_str(), nullptr);
        if(a || b) throw std::runtime_error("harness: cannot load " + name + ": " + std::to_string(a) + " " + std::to_string(b));
    }
    static Identity &get(const std::string &name)
    {
        static std::map<std::string, std::unique_ptr<Identity>> m;
        auto &p = m[name]; if(!p) p.reset(new Identity(name)); return *p;
    }
};
