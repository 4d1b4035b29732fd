TLS_STUBS = tuple("mbedtls_" + n for n in ("x509_crt_parse_file pk_parse_keyfile ssl_conf_own_cert ssl_setup ssl_set_hostname ssl_free ssl_handshake "
                                             "ssl_get_verify_result ssl_get_bytes_avail ssl_check_pending ssl_close_notify ssl_write ssl_read net_send net_recv").split())
# C24: the instrumentation of ThreadSanitizer with a runtime of our own (lib/tsched.cpp)
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
TS_WRAPS = ("malloc free calloc realloc memcpy memmove memset memcmp pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock "
            "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once strtok gmtime localtime asctime ctime inet_ntoa "
            "gethostbyname setlocale setenv lrand48 __cxa_allocate_exception recv recvfrom recvmsg read readv send sendto sendmsg write writev "
            "accept accept4 epoll_wait epoll_pwait poll ppoll select pselect connect socket bind listen close shutdown setsockopt epoll_ctl "
            "epoll_create1 getaddrinfo getnameinfo nanosleep usleep").split()

CHECKS = {
    # not a property: binds lib/simk.cpp to the kernel of this machine
    "KERNEL": dict(harness="kernel.cpp"),
    "C01": dict(harness="c01_send.cpp"),
    "C02": dict(harness="c02_receive.cpp"),
    "C03": [dict(part="tcp", harness="c03_packets.cpp"), dict(part="tls", harness="c03_packets.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C04": dict(harness="c04_roundtrip.cpp", simk=False),
    "C05": dict(harness="c05_hostile.cpp", simk=False),
    "C06": dict(harness="c06_tape.cpp"),
    "C07": dict(harness="c07_request.cpp"),
    "C08": dict(harness="c08_response.cpp"),
    "C09": [dict(part="small-limits", harness="c09_total.cpp", limits=["-DMAX_HTTP_HEADER_SIZE=96", "-DMAX_HTTP_BODY_SIZE=48"]),
            dict(part="default-limits", harness="c09_total.cpp")],
    "C10": dict(harness="c10_construct.cpp"),
    "C11": dict(harness="c11_construct.cpp"),
    "C12": [dict(part="tcp", harness="c12_http_socket.cpp"), dict(part="tls", harness="c12_http_socket.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C13": [dict(part="tcp", harness="c13_ws_send.cpp"), dict(part="tls", harness="c13_ws_send.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C14": [dict(part="tcp", harness="c14_ws_receive.cpp"), dict(part="tls", harness="c14_ws_receive.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C17": [dict(part="tcp", harness="c17_ledger.cpp"), dict(part="tls", harness="c17_ledger.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C18": [dict(part="tcp", harness="c18_truth.cpp"), dict(part="tls", harness="c18_truth.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C19": [dict(part="tcp", harness="c19_modes.cpp"), dict(part="tls", harness="c19_modes.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C15": [dict(part="tcp", harness="c15_handshake.cpp"), dict(part="tls", harness="c15_handshake.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C16": [dict(part="tcp", harness="c16_session.cpp"), dict(part="tls", harness="c16_session.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS)],
    "C20": dict(harness="c20_selector.cpp", simk=False, extra_wraps=("epoll_wait", "epoll_pwait", "epoll_ctl")),
    "C21": dict(harness="c21_url.cpp", simk=False),
    "C22": dict(harness="c22_urlcode.cpp", simk=False),
    "C23": [dict(part="lengths", harness="c23_digests.cpp", simk=False),
            dict(part="huge", harness="c23_digests.cpp", simk=False, san=[], opt=["-O2"], harness_flags=["-DHUGE_ONLY"])],
    "C24": dict(harness="c24_threads.cpp", simk=False, san=[], lib_flags=TSAN, harness_flags=TSAN, rt_src=["lib/tsched.cpp"], extra_wraps=TS_WRAPS),
    "C25": dict(harness="c25_tls.cpp", extra_wraps=("mbedtls_net_send", "mbedtls_net_recv", "mbedtls_ctr_drbg_random", "time", "mbedtls_ssl_handshake", "mbedtls_ssl_setup", "mbedtls_ssl_set_hostname")),
    "C26": [dict(part="layer", harness="c26_tls.cpp", extra_wraps=("mbedtls_net_send", "mbedtls_net_recv", "mbedtls_ctr_drbg_random", "time", "mbedtls_ssl_free", "mbedtls_ssl_handshake", "mbedtls_ssl_get_verify_result",
                 "mbedtls_ssl_get_bytes_avail", "mbedtls_ssl_check_pending", "mbedtls_ssl_close_notify", "mbedtls_ssl_read", "mbedtls_ssl_write")),
            dict(part="mbedtls", harness="c26_tls.cpp", harness_flags=["-DREAL"], extra_wraps=("mbedtls_net_send", "mbedtls_net_recv", "mbedtls_ctr_drbg_random", "time", "mbedtls_ssl_read", "mbedtls_ssl_write"))],
    "C27": dict(harness="c27_stores.cpp"),
    "C28": [dict(part="tcp", harness="c28_unconnected.cpp"), dict(part="tls", harness="c28_unconnected.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS),
            dict(part="mbedtls", harness="c28_unconnected.cpp", harness_flags=["-DREAL"], extra_wraps=("mbedtls_net_send", "mbedtls_net_recv", "mbedtls_ctr_drbg_random", "time"))],
    "C29": dict(harness="c29_values.cpp"),
    "C30": [dict(part="tcp", harness="c30_memory.cpp"), dict(part="tls", harness="c30_memory.cpp", harness_flags=["-DTLS"], extra_wraps=TLS_STUBS),
            dict(part="mbedtls", harness="c30_memory.cpp", harness_flags=["-DREAL"], extra_wraps=("mbedtls_net_send", "mbedtls_net_recv", "mbedtls_ctr_drbg_random", "time"))],
}
