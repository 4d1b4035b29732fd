// The kind of sockets a harness is about: plain ones, or (-DTLS) TLS ones over a TLS layer that passes everything on as it is.
#pragma once
#include "util.hpp"
#include "frnetlib/TcpListener.h"
#include "frnetlib/WebSocket.h"
#ifndef TLS
using Sock = fr::TcpSocket;
using Lst = fr::TcpListener;
using WS = fr::WebSocket<fr::TcpSocket>;
static unsigned handshakes_failed = 0;
#else
#include "frnetlib/SSLSocket.h"
#include "frnetlib/SSLListener.h"
static unsigned handshakes_failed = 0;
static std::shared_ptr<fr::SSLContext> tls_context() { static auto c = std::make_shared<fr::SSLContext>(); return c; }
struct Sock : fr::SSLSocket { Sock() : fr::SSLSocket(tls_context()) {} };
struct WS : fr::WebSocket<fr::SSLSocket> { WS() : fr::WebSocket<fr::SSLSocket>(tls_context()) {} };
struct Lst : fr::SSLListener { Lst() : fr::SSLListener(tls_context(), "certificate", "key") {} };
// mbedtls is not instrumented, so what it is handed is checked here
#include <sanitizer/asan_interface.h>
extern "C" int __real_mbedtls_net_send(void *, const unsigned char *, size_t);
extern "C" int __real_mbedtls_net_recv(void *, unsigned char *, size_t);
static void live_context(void *c, const char *what) { if(!c || __asan_region_is_poisoned(c, sizeof(mbedtls_net_context))) mc::fail(std::string(what) + " with a connection that has been freed"); }
extern "C" int __wrap_mbedtls_net_send(void *c, const unsigned char *b, size_t n) { live_context(c, "the TLS layer sends"); return __real_mbedtls_net_send(c, b, n); }
extern "C" int __wrap_mbedtls_net_recv(void *c, unsigned char *b, size_t n) { live_context(c, "the TLS layer receives"); return __real_mbedtls_net_recv(c, b, n); }
// the layer
extern "C" int __wrap_mbedtls_x509_crt_parse_file(mbedtls_x509_crt *, const char *) { return 0; }
extern "C" int __wrap_mbedtls_pk_parse_keyfile(mbedtls_pk_context *, const char *, const char *) { return 0; }
extern "C" int __wrap_mbedtls_ssl_conf_own_cert(mbedtls_ssl_config *, mbedtls_x509_crt *, mbedtls_pk_context *) { return 0; }
static int tls_fault(const char *name, int e)
{
    if(!simk::cfg.faults || !mc::deviate(2, name)) return 0;
    ++simk::faults_hit; ++handshakes_failed; MC_NOTE(std::string(name) + " -> fails"); return e;
}
extern "C" int __real_mbedtls_ssl_setup(mbedtls_ssl_context *, const mbedtls_ssl_config *);
extern "C" int __wrap_mbedtls_ssl_setup(mbedtls_ssl_context *s, const mbedtls_ssl_config *c)
{
    if(int e = tls_fault("mbedtls_ssl_setup", MBEDTLS_ERR_SSL_ALLOC_FAILED)) return e;
    s->conf = c;                   // without its buffers
#ifdef TLS_BUFFERS
    s->in_buf = (unsigned char *) malloc(100);
#endif
    return 0;
}
extern "C" int __wrap_mbedtls_ssl_set_hostname(mbedtls_ssl_context *, const char *) { return tls_fault("mbedtls_ssl_set_hostname", MBEDTLS_ERR_SSL_ALLOC_FAILED); }
extern "C" void __wrap_mbedtls_ssl_free(mbedtls_ssl_context *s)
{
    if(!s) return;
#ifdef TLS_BUFFERS
    free(s->in_buf);
#endif
    memset(s, 0, sizeof *s);
}
extern "C" int __wrap_mbedtls_ssl_handshake(mbedtls_ssl_context *) { return tls_fault("mbedtls_ssl_handshake", MBEDTLS_ERR_SSL_FATAL_ALERT_MESSAGE); }
extern "C" uint32_t __wrap_mbedtls_ssl_get_verify_result(const mbedtls_ssl_context *) { return 0; }
extern "C" size_t __wrap_mbedtls_ssl_get_bytes_avail(const mbedtls_ssl_context *) { return 0; }
extern "C" int __wrap_mbedtls_ssl_check_pending(const mbedtls_ssl_context *) { return 0; }
extern "C" int __wrap_mbedtls_ssl_close_notify(mbedtls_ssl_context *) { return 0; }
extern "C" int __wrap_mbedtls_ssl_write(mbedtls_ssl_context *s, const unsigned char *b, size_t n) { return !s || !s->f_send ? MBEDTLS_ERR_SSL_BAD_INPUT_DATA : s->f_send(s->p_bio, b, n); }
extern "C" int __wrap_mbedtls_ssl_read(mbedtls_ssl_context *s, unsigned char *b, size_t n) { return !s || !s->f_recv ? MBEDTLS_ERR_SSL_BAD_INPUT_DATA : s->f_recv(s->p_bio, b, n); }
inline void attach(fr::SSLSocket &s, const simk::FileP &f)
{
    auto c = std::make_unique<mbedtls_ssl_context>();
    mbedtls_ssl_init(c.get());
    s.set_ssl_context(std::move(c));
    auto *n = new mbedtls_net_context; n->fd = f->fd;
    s.set_descriptor(n);
}
#endif
