// C12: HTTP messages over a connection.
#include "sockets.hpp"
#include "http_ref.hpp"
using namespace simk;

struct Item { std::shared_ptr<fr::Http> msg; std::string text; bool request; };
static std::string g_host = "10.0.0.9";

static fr::HttpRequest request(int k)
{
    fr::HttpRequest r;
    r.set_uri("/u" + N(k));
    if(k == 1) { r.set_type(fr::Http::RequestType::Post); r.post("pa") = "1"; r.post("pb") = "2"; }
    else if(k == 2) { r.set_type(fr::Http::RequestType::Put); r.set_body(std::string("\0\r\n\r\nbody\n\n", 11)); r.get("q") = "x"; }
    else if(k == 3) { r.set_type(fr::Http::RequestType::Patch); r.set_body(pattern(9000, 7)); r.header("Long") = std::string(5000, 'h'); }
    else if(k == 4) { r.set_type(fr::Http::RequestType::Delete); r.set_body(pattern(4096 * 2, 8)); }
    else if(k == 5) { r.header("Pad") = std::string(3994, 'p'); }
    return r;
}
static fr::HttpResponse response(int k)
{
    fr::HttpResponse r;
    if(k == 1) r.set_status(fr::Http::RequestStatus::NoContent);
    else if(k == 2) { r.set_body(std::string("\0\r\n\r\nbody\n\n", 11)); r.set_status(fr::Http::RequestStatus::NotFound); }
    else if(k == 3) { r.set_body(pattern(9000, 7)); r.header("Long") = std::string(5000, 'h'); }
    else if(k == 4) { r.set_body(pattern(4096 * 2, 8)); }
    else if(k == 5) { r.header("Pad") = std::string(3994, 'p'); }
    return r;
}
static const char *const CHUNKED = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nab\r\n\r\n0a\r\n0123456789\r\n0\r\n\r\n";

// what a received message must be equal to
static void equal(fr::HttpRequest &g, fr::HttpRequest w, int k)
{
    MC_CHECK(g.get_type() == (w.get_type() == fr::Http::RequestType::Unknown ? fr::Http::RequestType::Get : w.get_type()) && g.get_uri() == w.get_uri() && g.get_version() == w.get_version(), "request line differs");
    if(k == 1) MC_CHECK(g.post_exists("pa") && g.post("pa") == "1" && g.post_exists("pb") && g.post("pb") == "2", "POST arguments differ");
    else MC_CHECK(g.get_body() == w.get_body(), "body differs: " + N((long long) g.get_body().size()) + " bytes");
    if(k == 2) MC_CHECK(g.get_exists("q") && g.get("q") == "x", "query argument differs");
    if(k == 3) MC_CHECK(g.header("long") == std::string(5000, 'h'), "header differs");
}
static void equal(fr::HttpResponse &g, fr::HttpResponse w, int k)
{
    MC_CHECK(g.get_status() == w.get_status() && g.get_version() == w.get_version(), "status line differs");
    MC_CHECK(g.get_body() == w.get_body(), "body differs: " + N((long long) g.get_body().size()) + " bytes");
    if(k == 3) MC_CHECK(g.header("long") == std::string(5000, 'h'), "header differs");
}
template<typename H> static H make(int k);
template<> fr::HttpRequest make(int k) { return request(k); }
template<> fr::HttpResponse make(int k) { return response(k); }

// ---- sending
template<typename H> static void sending(std::vector<int> ks, bool blocking)
{
    Session sess;
    cfg.tx_short = cfg.tx_eintr = cfg.tx_again = true; cfg.tx_errs = {ECONNRESET};
    Sock s;
    if(blocking) s.set_send_timeout(10);
    auto f = open_connected(); attach(s, f);
    s.set_remote_address("peer:80");
    if(!blocking) s.set_blocking(false);
    std::string wire;
    for(int k : ks)
    {
        H m = make<H>(k);
        int before = mc::budget_left();
        unsigned again0 = f->tx_agains;
        Status st = s.send(m);
        MC_NOTE("send -> " + sname(st));
        std::string e = wire + m.construct(s.get_remote_address());
        if(st == Status::Success) { MC_CHECK(f->tx == e, "Success, but the wire does not hold exactly the message (" + N((long long) f->tx.size()) + " of " + N((long long) e.size()) + " bytes): " + mc::printable(f->tx.substr(wire.size()), 100)); wire = e; }
        else
        {
            MC_CHECK(before > mc::budget_left(), "send fails with " + sname(st) + " although nothing went wrong");
            MC_CHECK(f->broken || (st == Status::Timeout && blocking && f->tx_agains > again0), "send returns " + sname(st));
            MC_CHECK(e.compare(0, f->tx.size(), f->tx) == 0, "the wire does not hold a prefix of the message");
            return;
        }
        mc::outcome(f->tx.size());
    }
}
// ---- receiving; k == 9: a chunked response
template<typename H> static void receiving(int k, int mode, size_t cut, bool freesz, bool live)
{
    Session sess;
    cfg.rx_free = freesz; cfg.rx_short = cfg.rx_eintr = cfg.rx_again = true; cfg.rx_eof = !live; cfg.rx_errs = {ECONNRESET};
    bool blocking = mode != 0;
    Sock s;
    if(mode == 2) s.set_receive_timeout(10);
    auto f = open_connected(); attach(s, f);
    if(!blocking) s.set_blocking(false);
    H want = make<H>(k == 9 ? 0 : k);
    std::string text = k == 9 ? CHUNKED : want.construct(g_host);
    if(k == 9) want.set_body(std::string("ab\r\n0123456789"));
    f->rx = text.substr(0, text.size() - cut);
    f->eof = !live;                     // live: the peer keeps the connection open after the message
    H h;
    for(int tries = 0; ; ++tries)
    {
        unsigned again0 = f->rx_agains;
        Status st = s.receive(h);
        MC_NOTE("receive -> " + sname(st) + ", consumed " + N((long long) f->rxpos));
        mc::outcome(mc::mix((uint64_t) st, f->rxpos));
        if(st == Status::Success)
        {
            MC_CHECK(f->rxpos == text.size(), "Success after " + N((long long) f->rxpos) + " of " + N((long long) text.size()) + " bytes");
            equal(h, want, k);
            return;
        }
        if(st == Status::WouldBlock || st == Status::Timeout)
        {
            MC_CHECK((st == Status::WouldBlock) == !blocking, sname(st) + " in the wrong mode");
            MC_CHECK(f->rxpos == 0, sname(st) + " after consuming " + N((long long) f->rxpos) + " bytes of the message");
            MC_CHECK(f->rx_agains > again0, sname(st) + " although data was available");
            MC_CHECK(tries < 10, "harness: endless retries");
            continue;
        }
        MC_CHECK((mode == 2 && f->rx_agains > again0 && f->rxpos > 0) || f->rx.size() < text.size(), "receive fails with " + sname(st) + " although the message was there");
        return;
    }
}
// ---- bodies of megabytes: however the library cuts them, they arrive whole
template<typename H> static void megabytes(size_t n, bool nonblocking, size_t pad = 1)
{
    Session sess;
    cfg.rx_short = cfg.tx_short = cfg.rx_eintr = cfg.tx_eintr = true; cfg.tx_again = nonblocking;
    auto pr = open_pair();
    Sock a, b;
    attach(a, pr.first); attach(b, pr.second);
    if(nonblocking) { a.set_blocking(false); b.set_blocking(false); }
    std::string body(n, '\0'); for(size_t i = 0; i < n; ++i) body[i] = (char) (i * 31 + (i >> 12));
    H m; m.set_body(body);
    m.header("X-Pad") = std::string(pad, 'p');
    std::string e = m.construct(a.get_remote_address());
    MC_CHECK(a.send(m) == Status::Success, "sending " + N((long long) n) + " bytes fails");
    MC_CHECK(pr.first->tx == e, "Success, but the wire does not hold exactly the message (" + N((long long) pr.first->tx.size()) + " of " + N((long long) e.size()) + " bytes)");
    H g; Status st; int tries = 0;
    while((st = b.receive(g)) == Status::WouldBlock && ++tries < patience(20));
    MC_CHECK(st == Status::Success, "receiving " + N((long long) n) + " bytes: " + sname(st));
    MC_CHECK(g.get_body() == body, "body differs: " + N((long long) g.get_body().size()) + " bytes");
    MC_CHECK(pr.second->rxpos == pr.second->rx.size(), "bytes left over");
    mc::outcome(mc::mix(n, pr.second->recv_calls));
}
// ---- nothing more arrives after any number of bytes: never taken for a receive that hasn't begun
template<typename H> static void stalled(size_t body, size_t have, bool ends)
{
    Session sess;
    Sock s;
    s.set_receive_timeout(10);
    auto f = open_connected(); attach(s, f);
    H m; m.set_body(std::string(body, 'b'));
    std::string text = m.construct(g_host);
    if(have >= text.size()) have = text.size() - 1;
    f->rx = text.substr(0, have);
    f->eof = ends;
    H h;
    Status st = s.receive(h);
    MC_CHECK(f->rxpos == have, "receive returns " + sname(st) + " after " + N((long long) f->rxpos) + " of the " + N((long long) have) + " bytes that have arrived");
    MC_CHECK(st != Status::Success, "Success, but only " + N((long long) have) + " of " + N((long long) text.size()) + " bytes have arrived");
    MC_CHECK(have == 0 || (st != Status::WouldBlock && st != Status::Timeout), sname(st) + " after consuming " + N((long long) have) + " bytes of the message");
    mc::outcome(mc::mix(have, (uint64_t) st));
}
// ---- request and response over one connection, several times
static void both(std::vector<int> ks, bool nonblocking)
{
    Session sess;
    cfg.rx_short = cfg.tx_short = true; cfg.rx_eintr = cfg.tx_eintr = true; cfg.rx_again = cfg.tx_again = nonblocking;
    auto pr = open_pair();
    Sock a, b;
    attach(a, pr.first); attach(b, pr.second);
    if(nonblocking) { a.set_blocking(false); b.set_blocking(false); }
    for(int k : ks)
    {
        fr::HttpRequest rq = request(k);
        MC_CHECK(a.send(rq) == Status::Success, "sending the request fails");
        fr::HttpRequest got; Status st; int n = 0;
        while((st = b.receive(got)) == Status::WouldBlock && ++n < patience(20));
        MC_CHECK(st == Status::Success, "receiving the request: " + sname(st));
        equal(got, rq, k);
        fr::HttpResponse rs = response(k);
        MC_CHECK(b.send(rs) == Status::Success, "sending the response fails");
        fr::HttpResponse got2; n = 0;
        while((st = a.receive(got2)) == Status::WouldBlock && ++n < patience(20));
        MC_CHECK(st == Status::Success, "receiving the response: " + sname(st));
        equal(got2, rs, k);
        MC_CHECK(pr.first->rxpos == pr.first->rx.size() && pr.second->rxpos == pr.second->rx.size(), "bytes left over");
        mc::outcome(pr.second->recv_calls);
    }
}
template<typename H> static void reg(const std::string &t)
{
    mc::add(t + "/stalled/every", 0, [=] { size_t n = (size_t) mc::choose(mc::by_tier(6000, 20000), "bytes arrived"); stalled<H>(30000, n, mc::choose(2, "the peer closes")); }, 8, 1);
    mc::add(t + "/stalled/large", 0, [=] {
        size_t n = (size_t) 1 << (8 + mc::choose(14, "bytes arrived, a power of 2"));
        n = n * (size_t) (1 + mc::choose(3, "times")) + (size_t) mc::choose(7, "and") - 3;
        stalled<H>(n + 70000 < 9000000 ? n + 70000 : n, n, mc::choose(2, "the peer closes"));
    }, 8, 1);
    for(int blocking = 0; blocking < 2; ++blocking)
        for(auto &ks : std::vector<std::vector<int>>{{0}, {1}, {2}, {3}, {4}, {0, 2, 1}, {3, 0}})
        {
            std::string n; for(auto x : ks) n += "-" + N(x);
            mc::add(t + "/send/" + (blocking ? "blocking" : "nonblocking") + n, mc::by_tier(3, 4), [=] { sending<H>(ks, blocking); }, 2);
        }
    for(int mode = 0; mode < 3; ++mode)
    {
        std::vector<int> ks = {0, 1, 2, 3, 4, 5};
        if(t == "response") ks.push_back(9);
        for(int k : ks)
        {
            std::string b = t + "/receive/mode" + N(mode) + "/" + N(k);
            for(int live = 0; live < 2; ++live)
                if(!(live && mode == 1 && false))
                    mc::add(b + (live ? "/live" : ""), mc::by_tier(3, 4), [=] { receiving<H>(k, mode, 0, false, live); }, 6);
            if(k < 3 || k == 9)
            {
                mc::add(b + "/cuts", 1, [=] { size_t len = k == 9 ? strlen(CHUNKED) : make<H>(k).construct(g_host).size(); receiving<H>(k, mode, 1 + (size_t) mc::choose((int) len, "cut"), false, false); }, 4, 1);
                mc::add(b + "/byte-by-byte", 0, [=] {
                    // every read gives one byte less than a choice made once
                    Session sess;
                    Sock s; auto f = open_connected(); attach(s, f);
                    std::string text = k == 9 ? CHUNKED : make<H>(k).construct(g_host);
                    H want = make<H>(k == 9 ? 0 : k); if(k == 9) want.set_body("ab\r\n0123456789");
                    int step = mc::choose((int) text.size(), "step") + 1;
                    size_t given = 0;
                    cfg.on_idle = [&](File &fl) { if(given < text.size()) { size_t n = std::min((size_t) step, text.size() - given); fl.rx += text.substr(given, n); given += n; } };
                    H h; Status st = s.receive(h);
                    MC_CHECK(st == Status::Success, "receive in pieces of " + N(step) + ": " + sname(st));
                    MC_CHECK(f->rxpos == text.size(), "Success after " + N((long long) f->rxpos) + " of " + N((long long) text.size()) + " bytes");
                    equal(h, want, k);
                    mc::outcome(f->recv_calls);
                });
            }
        }
    }
}
void mc_register()
{
    reg<fr::HttpRequest>("request");
    reg<fr::HttpResponse>("response");
    for(int nb = 0; nb < 2; ++nb)
        for(size_t n : {size_t(65535), size_t(65536), size_t(1048576), size_t(3000000)})
        {
            mc::add("request/megabytes/" + N(nb) + "/" + N((long long) n), n < 100000, [=] { megabytes<fr::HttpRequest>(n, nb); });
            mc::add("response/megabytes/" + N(nb) + "/" + N((long long) n), n < 100000, [=] { megabytes<fr::HttpResponse>(n, nb); });
        }
    for(int nb = 0; nb < 2; ++nb)
    {
        mc::add("request/every-size/" + N(nb), 0, [=] { megabytes<fr::HttpRequest>((size_t) mc::choose(9000, "size"), nb); }, 8, 1);
        mc::add("response/every-size/" + N(nb), 0, [=] { megabytes<fr::HttpResponse>((size_t) mc::choose(9000, "size"), nb); }, 8, 1);
        mc::add("request/every-header/" + N(nb), 0, [=] { size_t n = (size_t) mc::choose(9000, "header size") + 1; megabytes<fr::HttpRequest>((size_t) mc::choose(2, "body") * 5, nb, n); }, 8, 1);
        mc::add("response/every-header/" + N(nb), 0, [=] { size_t n = (size_t) mc::choose(9000, "header size") + 1; megabytes<fr::HttpResponse>((size_t) mc::choose(2, "body") * 5, nb, n); }, 8, 1);
        mc::add("both/storm/" + N(nb), 0, [=] { Storm st(mc::choose(Storm::KINDS, "storm")); both(mc::choose(2, "messages") ? std::vector<int>{2, 3} : std::vector<int>{0, 1}, nb); }, 8, 2);
        mc::add("both/many/" + N(nb), 0, [=] { std::vector<int> ks; for(int i = 0; i < mc::by_tier(600, 6000); ++i) ks.push_back(i % 7 == 6 ? 0 : i % 3); both(ks, nb); });
    }
    for(int nb = 0; nb < 2; ++nb)
        for(auto &ks : std::vector<std::vector<int>>{{0, 1}, {2, 3}, {1, 4, 2}})
        {
            std::string n; for(auto x : ks) n += "-" + N(x);
            mc::add("both/" + N(nb) + n, mc::by_tier(2, 3), [=] { both(ks, nb); }, 8);
        }
}
