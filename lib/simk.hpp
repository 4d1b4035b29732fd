// Simulated socket kernel, linked in front of libc with -Wl,--wrap.  Only active between begin() and end();
// every socket the library makes while it is active is a simulated one.
#pragma once
#include "mc.hpp"
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace simk
{
    enum St { Fresh, Bound, Listening, Connecting, Connected, Failed };
    // How a connection attempt to one address goes.
    enum Plan { OkAtOnce, OkLater, RefusedAtOnce, RefusedLater, NeverAnswers, UnreachableAtOnce };

    struct File
    {
        int fd = -1;
        unsigned id = 0;
        bool foreign = false;          // not obtained by the library: it must never touch it
        bool gone = false;             // closed
        int unowned = 0;
        St st = Fresh;
        int family = 2;
        bool nonblock = false, nodelay = false;
        long long rcv_us = 0, snd_us = 0;      // SO_RCVTIMEO / SO_SNDTIMEO in force
        std::string addr;              // address connected to / bound to / accepted from
        Plan plan = OkAtOnce;
        bool cork = false;
        bool abortive = false; size_t told = 0;    // SO_LINGER of 0: closing discards what the peer may not have yet (all sent after its last word)
        std::string held;                   // sent with MSG_MORE or under TCP_CORK, not on the wire yet
        void release() { tx += held; if(peer) peer->rx += held; held.clear(); }
        int so_error = 0;
        bool untold = false;           // a nonblocking attempt that succeeded: the next connect() says so once
        long long remaining_us = 0;    // a pending connection attempt is decided after this time
        unsigned stormed = 0;          // interrupted or refused so often since the last transfer
        // stream
        std::string rx; size_t rxpos = 0;
        bool eof = false;
        int rxerr = 0;                 // delivered once after the data
        std::string tx;                // bytes accepted from the library
        bool broken = false;           // peer gone: sending fails with EPIPE
        bool shut_rd = false, shut_wr = false;
        bool dead = false;             // reset
        bool closed() const { return dead || (eof && shut_wr); }  // TCP: both directions have ended
        std::shared_ptr<File> peer;    // other end, when both are simulated
        unsigned recv_calls = 0, send_calls = 0;
        unsigned rx_agains = 0, rx_intrs = 0, rx_fails = 0, tx_agains = 0, tx_intrs = 0, tx_fails = 0; // answers given
        void reset(int e) { rxerr = e; eof = broken = dead = true; }   // the peer resets the connection
        // transfers beyond what fits into memory: a stream read from / compared with memory mapped many times over
        const char *giant_rx = nullptr, *giant_tx = nullptr;
        uint64_t giant_rx_left = 0, giant_rx_done = 0, giant_tx_done = 0;
        std::string consumed() const { return rx.substr(0, rxpos); }
        std::deque<std::string> backlog;   // listener: printable addresses of waiting clients
        int backlog_family = 2;
    };
    using FileP = std::shared_ptr<File>;

    struct Cfg
    {
        // answers to recv
        bool rx_free = false;          // the size of every read is a free choice 1..min(len,avail)
        bool rx_short = false;         // deviations: 1 byte, half, all but one
        bool rx_eintr = false, rx_again = false, rx_eof = false;
        std::vector<int> rx_errs;
        // answers to send
        bool tx_free = false, tx_short = false, tx_eintr = false, tx_again = false, tx_zero = false;
        std::vector<int> tx_errs;
        // control faults (every control call may fail, one deviation each)
        bool faults = false;
        bool f_socket = true, f_fcntl = true, f_connect = true, f_poll = true, f_sockopt = true, f_bind = true, f_listen = true, f_accept = true, f_gai = true, f_names = true;
        // only these sets of options fail when f_sockopt (empty: all)
        std::vector<std::string> addrs;    // what getaddrinfo resolves to (v6 if it contains ':')
        std::function<Plan(const std::string &)> plan;
        int once_error = ECONNREFUSED, later_error = ECONNREFUSED; // of RefusedAtOnce / RefusedLater
        long long later_us = 0;        // OkLater / RefusedLater are decided this long after the attempt
        std::function<void(File &)> on_idle;   // a read finds no data: the peer may act
        // storms: every transfer is interrupted / finds nothing (non-blocking only) this many times before it happens
        unsigned intr_storm = 0, again_storm = 0;
        size_t rx_max = 0, tx_max = 0;         // no transfer moves more than this (0: no limit)
        long long signal_us = 0;               // waits are interrupted by a signal every so often
        unsigned max_calls = 200000;           // system calls of one execution; more is a livelock
        std::function<void(File &)> on_tx;     // bytes were accepted
        int first_fd = 300;
        bool low_fd_zero = false;      // the first descriptor handed out is 0
    };
    extern Cfg cfg;

    void begin();                      // reset and activate
    void end();                        // deactivate
    struct Session { Session() { begin(); } ~Session() { end(); } };

    // every session begun while one of these lives has this storm; a retry limit in the code under test shows up here
    struct Storm
    {
        enum { KINDS = 8 };
        explicit Storm(int kind);      // 0: none
        ~Storm();
    };
    bool storming();
    inline int patience(int n) { return storming() ? 100000000 : n; }   // how often a harness retries

    FileP open_connected(const std::string &addr = "10.0.0.9", bool foreign = false);  // as if obtained by the library from the OS
    FileP open_foreign();
    std::pair<FileP, FileP> open_pair();
    FileP get(int fd);                 // open file or null
    const std::vector<FileP> &all();   // every file ever made, in order
    std::vector<FileP> open_files();   // still open, not foreign
    void check_all_closed(const std::string &when);
    extern std::vector<std::string> connect_log;   // addresses tried, in order
    extern std::vector<std::string> resolve_log;   // "host|port"
    extern long long clock_us;         // simulated time spent waiting
    extern unsigned calls;
    extern unsigned faults_hit;        // control faults injected in this execution
    extern unsigned interrupts;        // of these, waits interrupted by a signal
    extern unsigned names_failed;      // failed name lookups
    uint64_t state_hash();
    bool eagain_is_timeout(const File &f);
}
