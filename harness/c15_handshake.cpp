// C15: a WebSocket opens only after a genuine handshake, losing no data.
#include "ws_ref.hpp"
#include "crypto_ref.hpp"
#include "http_ref.hpp"
#include "sockets.hpp"
#include <set>
using namespace simk;

struct Req { bool complete = false; std::string method, path, version; Fields fields; std::string rest; };
static Req read_request(const std::string &t)
{
    Req r;
    size_t e = t.find("\r\n\r\n");
    if(e == std::string::npos) return r;
    r.complete = true; r.rest = t.substr(e + 4);
    size_t p = t.find("\r\n");
    std::string line = t.substr(0, p);
    size_t a = line.find(' '), b = line.rfind(' ');
    r.method = line.substr(0, a); r.path = line.substr(a + 1, b - a - 1); r.version = line.substr(b + 1);
    for(p += 2; p < e + 2;)
    {
        size_t n = t.find("\r\n", p); std::string l = t.substr(p, n - p); size_t c = l.find(':');
        MC_CHECK(c != std::string::npos, "malformed header line: " + mc::printable(l));
        std::string v = l.substr(c + 1); size_t s = v.find_first_not_of(' ');
        r.fields.push_back({lower(l.substr(0, c)), s == std::string::npos ? "" : v.substr(s)});
        p = n + 2;
    }
    return r;
}
static std::string get_field(const Req &r, const std::string &n)
{
    std::string v; int k = 0;
    for(auto &f : r.fields) if(f.first == n) { v = f.second; ++k; }
    MC_CHECK(k <= 1, "header " + n + " is there " + N(k) + " times");
    return v;
}
static void genuine_request(const Req &r, const std::string &path, const std::string &protocols)
{
    MC_CHECK(r.method == "GET" && r.version == "HTTP/1.1" && r.path == path, "the upgrade request asks '" + r.method + " " + r.path + " " + r.version + "'");
    MC_CHECK(lower(get_field(r, "upgrade")) == "websocket" && lower(get_field(r, "connection")).find("upgrade") != std::string::npos, "the request does not ask for an upgrade");
    MC_CHECK(get_field(r, "sec-websocket-version") == "13", "the request has the wrong version");
    std::string key = get_field(r, "sec-websocket-key");
    MC_CHECK(!key.empty(), "the request has no key");
    MC_CHECK(key.size() == 24 && key.substr(22) == "==" && key.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") == 22, "the key '" + mc::printable(key) + "' is not 16 bytes in Base64");
    MC_CHECK(get_field(r, "sec-websocket-protocol") == protocols, "the protocols asked for are '" + get_field(r, "sec-websocket-protocol") + "'");
    MC_CHECK(!get_field(r, "host").empty(), "the request has no host");
    MC_CHECK(r.rest.empty(), "bytes follow the upgrade request");
}

// ---------------------------------------------------------------- client
enum Reply { Genuine, LowerNames, UpperNames, Extra, Version10Line, S200, S400, S404, S426, S301, S500, S102, S111, NoAccept, EmptyAccept, WrongKey, LowerAccept, ShortAccept, LongAccept, KeyItself, OtherGuid, Garbage, WsFrame, REPLIES };
static std::string reply_text(int k, const std::string &key, bool &ok)
{
    ok = k <= Extra;
    std::string acc = ref::accept(key);
    auto mk = [](const std::string &line, const Fields &f) { std::string o = line + "\r\n"; for(auto &x : f) o += x.first + ": " + x.second + "\r\n"; return o + "\r\n"; };
    Fields f{{"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Accept", acc}};
    std::string line = "HTTP/1.1 101 Switching Protocols";
    switch(k)
    {
        case LowerNames: for(auto &x : f) x.first = lower(x.first); break;
        case UpperNames: for(auto &x : f) x.first = upper(x.first); break;
        case Extra: f.insert(f.begin(), {"Server", "nginx: HTTP/1.1 200 OK"}); f.push_back({"Date", "now"}); f.push_back({"Content-Length", "5"}); line = "HTTP/1.1 101 "; break;
        case Version10Line: line = "HTTP/1.1 100 Continue"; break;
        case S200: line = "HTTP/1.1 200 OK"; f.push_back({"Content-Length", "0"}); break;
        case S400: line = "HTTP/1.1 400 Bad Request"; f.push_back({"Content-Length", "0"}); break;
        case S404: line = "HTTP/1.1 404 Not Found"; f.push_back({"Content-Length", "0"}); break;
        case S426: line = "HTTP/1.1 426 Upgrade Required"; f.push_back({"Content-Length", "0"}); break;
        case S301: line = "HTTP/1.1 301 Moved"; f.push_back({"Location", "/"}); f.push_back({"Content-Length", "0"}); break;
        case S500: line = "HTTP/1.1 500 Oops"; f.push_back({"Content-Length", "3"}); return mk(line, f) + "abc";
        case S102: line = "HTTP/1.1 102 Processing"; break;
        case S111: line = "HTTP/1.1 201 101"; f.push_back({"Content-Length", "0"}); break;
        case NoAccept: f.pop_back(); break;
        case EmptyAccept: f[2].second = ""; break;
        case WrongKey: f[2].second = ref::accept(key + "x"); break;
        case LowerAccept: f[2].second = lower(acc) == acc ? upper(acc) : lower(acc); break;
        case ShortAccept: f[2].second = acc.substr(0, 27); break;
        case LongAccept: f[2].second = acc + "A"; break;
        case KeyItself: f[2].second = key; break;
        case OtherGuid: f[2].second = ref::base64(ref::sha1(key)); break;
        case Garbage: return "SSH-2.0-OpenSSH_9.6\r\n\r\n";
        case WsFrame: return ws::write("hello", 1, 1, false);
    }
    return mk(line, f);
}
static const std::vector<std::pair<std::string, int>> &frames_after(int which)
{
    static const std::vector<std::vector<std::pair<std::string, int>>> v{{}, {{"hi", 1}}, {{"", 9}, {"abc", 1}, {pattern(130, 4), 2}}, {{std::string("\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"), 1}, {"x", 2}}, {{pattern(5000, 3), 2}, {"", 8}}};
    return v[(size_t) which];
}

// Every connection has a key of its own: `n` connections by one or several objects, answered or not
static void fresh_keys(int n)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    std::vector<std::string> keys;
    WS a, b;
    for(int i = 0; i < n; ++i)
    {
        WS &s = mc::choose(2, "object") ? b : a;
        int how = mc::choose(3, "server");     // answers, refuses the upgrade, goes away
        std::string key;
        cfg.on_idle = [&](File &x)
        {
            Req r = read_request(x.tx);
            if(!r.complete || !key.empty()) { x.eof = true; return; }
            genuine_request(r, "/", "");
            key = get_field(r, "sec-websocket-key");
            bool ok;
            if(how < 2) x.rx += reply_text(how == 0 ? Genuine : S404, key, ok);
            x.eof = how > 0;
        };
        Status st = s.connect("host", "80", std::chrono::seconds(1));
        MC_CHECK((st == Status::Success) == (how == 0), "connect returns " + sname(st));
        for(auto &k : keys) MC_CHECK(k != key, "two connections use the same key");
        keys.push_back(key);
        mc::outcome(mc::mix((uint64_t) st, (uint64_t) i));
    }
}

// how: 0 whole, 1 byte by byte, 2 cut at every position (two pieces), 3 with faults
static void client(int reply, int after, int how, int before, int variant, bool truncated)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    WS s;
    std::string pending; size_t cut = 0; bool ok = false, answered = false, served = false; int piece = 0;
    size_t keep = 0;
    std::string path = variant == 0 ? "/" : variant == 1 ? "/chat?room=1" : variant == 2 ? "/x" : "/a/b%20c/d.php?x=1&y=2";
    std::vector<std::string> protos; if(variant == 1) protos = {"chat"}; if(variant == 2) protos = {"a", "b", "c"};
    // as many as a client could want to ask for, some of them alike but for case, or one within another, or named twice
    if(variant == 3) protos = {"v12.stomp", "chat", "Chat", "superchat", "v11.stomp", "mqtt", "chat", "x-1"};
    std::string asked; for(auto &p : protos) asked += (asked.empty() ? "" : ", ") + p;
    FileP f;
    cfg.on_idle = [&](File &x)
    {
        if(!answered)
        {
            Req r = read_request(x.tx);
            if(!r.complete) return;
            genuine_request(r, path, asked);
            answered = true;
            pending = reply_text(reply, get_field(r, "sec-websocket-key"), ok);
            if(truncated) { keep = (size_t) mc::choose((int) pending.size(), "truncated reply"); pending.resize(keep); }
            else for(auto &p : frames_after(after)) pending += ws::write(p.first, p.second, 1, false);
            if(how == 2) cut = (size_t) mc::choose((int) std::min<size_t>(pending.size(), 400), "cut") + 1;
        }
        if(pending.empty()) { x.eof = true; return; }
        size_t n = how == 1 ? 1 : how == 2 && piece == 0 ? std::min(cut, pending.size()) : pending.size();
        ++piece;
        x.rx += pending.substr(0, n); pending.erase(0, n);
        (void) served;
    };
    if(before == 1) { auto old = open_connected(); old->eof = true; try { attach(s, old); } catch(const std::exception &) { } }
    if(how == 3) { cfg.rx_short = cfg.rx_eintr = cfg.rx_eof = cfg.tx_short = cfg.tx_eintr = true; cfg.rx_errs = {ECONNRESET}; cfg.tx_errs = {ECONNRESET}; }
    int budget = mc::budget_left();
    Status st = variant == 0 ? s.connect("host", "80", std::chrono::seconds(1)) : s.connect("host", "80", path, protos, std::chrono::seconds(1));
    MC_NOTE("connect -> " + sname(st));
    mc::outcome(mc::mix((uint64_t) st, (uint64_t) reply * 100 + (uint64_t) after));
    bool disturbed = budget > mc::budget_left();
    if(st == Status::Success)
    {
        MC_CHECK(ok && !truncated, "connect returns Success although the server's answer is not genuine");
        MC_CHECK(s.connected(), "connected() is false after Success");
        for(auto &p : frames_after(after))
        {
            fr::ClientWebFrame fr_;
            int b2 = mc::budget_left();
            Status q = s.receive(fr_);
            MC_NOTE("receive -> " + sname(q));
            if(b2 > mc::budget_left() && q != Status::Success) return;
            MC_CHECK(q == Status::Success, "a frame sent right after the handshake is not received: " + sname(q));
            MC_CHECK(fr_.get_payload() == p.first && ws::number(fr_.get_opcode()) == p.second, "the frame sent right after the handshake is received as '" + mc::printable(fr_.get_payload(), 40) + "'");
        }
        auto g = get(s.get_socket_descriptor());
        MC_CHECK(g && g->rxpos == g->rx.size() && pending.empty(), "surplus bytes after the last frame");
    }
    else
    {
        MC_CHECK(!ok || disturbed || truncated, "connect fails with " + sname(st) + " although the handshake was genuine");
        MC_CHECK(!s.connected(), "connected() is true after connect returned " + sname(st));
        for(auto &x : open_files()) mc::fail("descriptor " + N(x->fd) + " is left open after connect failed");
    }
}

// ---------------------------------------------------------------- server
enum Ask { AGenuine, ALower, AUpper, AExtra, APath, AKey1, AKey2, AUpgradeCase, APost, AHead, ANoUpgrade, AH2c, AUpgradeEmpty, ANoKey, AGarbage, AFrame, ATls, APlainGet, ASKS, ANear = ASKS, ACase, AMethod, AKeys };
static std::string ask_text(int k, bool &ok, std::string &key)
{
    ok = k <= AUpgradeCase || k == ACase || k == AKeys;
    key = k == AKey1 ? "AAAAAAAAAAAAAAAAAAAAAA==" : k == AKey2 ? "/+z" : "dGhlIHNhbXBsZSBub25jZQ==";
    Fields f{{"Host", "server.example.com"}, {"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Key", key}, {"Sec-WebSocket-Version", "13"}};
    std::string line = "GET /chat HTTP/1.1";
    switch(k)
    {
        case ALower: for(auto &x : f) x.first = lower(x.first); break;
        case AUpper: for(auto &x : f) x.first = upper(x.first); break;
        case AExtra: f.insert(f.begin() + 1, {"Origin", "http://example.com"}); f.push_back({"Cookie", "a=b; Upgrade: h2c"}); f[3].second = "keep-alive, Upgrade"; break;
        case APath: line = "GET /a/b?x=HTTP&y=2 HTTP/1.1"; break;
        case AUpgradeCase: f[1].second = "WebSocket"; break;
        case APost: line = "POST /chat HTTP/1.1"; f.push_back({"Content-Length", "0"}); break;
        case AHead: line = "HEAD /chat HTTP/1.1"; break;
        case ANoUpgrade: f.erase(f.begin() + 1); break;
        case AH2c: f[1].second = "h2c"; break;
        case AUpgradeEmpty: f[1].second = ""; break;
        case ANoKey: f.erase(f.begin() + 3); break;
        case AGarbage: return "EHLO example.com\r\n\r\n";
        case AFrame: return ws::write("hello", 1, 1, true);
        case ATls: return std::string("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) + std::string(300, 'q');
        case ANear:     // every word that differs from it in one letter, lacks one, has one more, or has it inside
        {
            std::string w = "websocket"; int at = mc::choose((int) w.size() + 1, "place");
            static const char ALPHA[] = "aw0_-W.";
            char c = ALPHA[mc::choose(7, "letter")];
            switch(mc::choose(5, "near word"))
            {
                case 0: w.insert((size_t) at, 1, c); break;
                case 1: if(at == 9 || lower(std::string(1, c))[0] == w[(size_t) at]) mc::abandon(); w[(size_t) at] = c; break;
                case 2: if(at == 9) mc::abandon(); w.erase((size_t) at, 1); break;
                case 3: w = std::string((size_t) at + 1, c) + w; break;
                case 4: w += std::string((size_t) at + 1, c); break;
            }
            f[1].second = w;
            break;
        }
        case ACase:
        {
            int bits = mc::choose(512, "letters in upper case");
            for(int i = 0; i < 9; ++i) if(bits >> i & 1) f[1].second[(size_t) i] = (char) toupper(f[1].second[(size_t) i]);
            break;
        }
        case AMethod:
        {
            static const char *const M[] = {"POST", "PUT", "DELETE", "HEAD", "TRACE", "OPTIONS", "CONNECT", "PATCH", "get", "GETX", "GE"};
            line = std::string(M[mc::choose(11, "method")]) + " /chat HTTP/1.1";
            if(mc::choose(2, "with a length")) f.push_back({"Content-Length", "0"});
            break;
        }
        case AKeys:     // whatever the key, the answer belongs to it
        {
            size_t n = 1 + (size_t) mc::choose(mc::by_tier(70, 300), "length of the key");
            std::string raw = pattern(n, 13 + (unsigned) mc::choose(3, "key"));
            key = mc::choose(2, "padded") ? ref::base64(raw) : ref::base64(raw).substr(0, n);
            while(!key.empty() && key.back() == '=' && key.size() == 1) key = "a";
            f[3].second = key;
            break;
        }
        case APlainGet: f = {{"Host", "server.example.com"}}; break;
    }
    std::string o = line + "\r\n"; for(auto &x : f) o += x.first + ": " + x.second + "\r\n";
    return o + "\r\n";
}
static void server(int ask, int after, int how, int before, bool truncated)
{
    Session sess;
    Lst l;
    MC_CHECK(l.listen("80") == Status::Success, "listen fails");
    auto lf = get(l.get_socket_descriptor());
    lf->backlog.push_back("10.4.4.4");
    WS s;
    if(before == 1) { auto old = open_connected(); old->eof = true; try { attach(s, old); } catch(const std::exception &) { } }
    bool ok; std::string key, text = ask_text(ask, ok, key);
    if(truncated) text.resize((size_t) mc::choose((int) text.size(), "truncated request"));
    else if(how != 4) for(auto &p : frames_after(after)) text += ws::write(p.first, p.second, 1, true);
    std::string late;
    if(how == 4) for(auto &p : frames_after(after)) late += ws::write(p.first, p.second, 1, true);
    size_t cut = how == 2 ? (size_t) mc::choose((int) std::min<size_t>(text.size(), 400), "cut") + 1 : 0;
    int piece = 0;
    cfg.on_idle = [&](File &x)
    {
        if(text.empty() && !late.empty() && x.tx.find("\r\n\r\n") != std::string::npos) { x.rx += late; late.clear(); return; }
        if(text.empty()) { x.eof = true; return; }
        size_t n = how == 1 ? 1 : how == 2 && piece == 0 ? std::min(cut, text.size()) : text.size();
        ++piece;
        x.rx += text.substr(0, n); text.erase(0, n);
    };
    if(how == 3) { cfg.rx_short = cfg.rx_eintr = cfg.rx_eof = cfg.tx_short = cfg.tx_eintr = true; cfg.rx_errs = {ECONNRESET}; cfg.tx_errs = {EPIPE}; }
    int budget = mc::budget_left();
    Status st; bool threw = false;
    try { st = l.accept(s); }
    catch(const std::runtime_error &e) { threw = true; st = Status::HandshakeFailed; MC_NOTE(std::string("accept throws ") + e.what()); }
    bool disturbed = budget > mc::budget_left();
    mc::outcome(mc::mix((uint64_t) st, (uint64_t) ask * 100 + (uint64_t) after));
    MC_NOTE("accept -> " + sname(st));
    if(st == Status::Success)
    {
        MC_CHECK(ok && !truncated, "accept returns Success although the client did not ask for an upgrade");
        MC_CHECK(s.connected(), "connected() is false after Success");
        auto g = get(s.get_socket_descriptor());
        MC_CHECK(g && g->addr == "10.4.4.4", "not attached to the accepted connection");
        Req r = read_request(g->tx);
        MC_CHECK(r.complete, "accept returns Success, but the answer is not on the wire completely");
        MC_CHECK(r.method.substr(0, 8) == "HTTP/1.1" && g->tx.substr(8, 4) == " 101", "the answer is '" + mc::printable(g->tx, 20) + "'");
        MC_CHECK(get_field(r, "sec-websocket-accept") == ref::accept(key), "the accept value is '" + get_field(r, "sec-websocket-accept") + "' instead of '" + ref::accept(key) + "'");
        MC_CHECK(lower(get_field(r, "upgrade")) == "websocket" && lower(get_field(r, "connection")) == "upgrade", "the answer does not confirm the upgrade");
        MC_CHECK(r.rest.empty(), "bytes follow the answer");
        for(auto &p : frames_after(after))
        {
            fr::ServerWebFrame fr_;
            int b2 = mc::budget_left();
            Status q = s.receive(fr_);
            MC_NOTE("receive -> " + sname(q));
            if(b2 > mc::budget_left() && q != Status::Success) return;
            MC_CHECK(q == Status::Success, "a frame sent right after the handshake is not received: " + sname(q));
            MC_CHECK(fr_.get_payload() == p.first && ws::number(fr_.get_opcode()) == p.second, "the frame sent right after the handshake is received as '" + mc::printable(fr_.get_payload(), 40) + "'");
        }
    }
    else
    {
        MC_CHECK(!ok || disturbed || truncated, std::string("accept fails") + (threw ? " (throws)" : "") + " although the client asked for an upgrade");
        MC_CHECK(!s.connected(), "connected() is true after a failed handshake");
        for(auto &x : open_files()) if(x->st != Listening) mc::fail("descriptor " + N(x->fd) + " is left open after a failed handshake");
    }
}

// an answer with the accept value of the object's previous connection, and one in which a single character differs
static void stale(int how)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    WS s;
    std::string first;
    int pos = how ? mc::choose(28, "position") : 0, change = how ? mc::choose(3, "change") : 0;
    for(int i = 0; i < (how ? 1 : 2); ++i)
    {
        std::string key;
        cfg.on_idle = [&](File &x)
        {
            Req r = read_request(x.tx);
            if(!r.complete || !key.empty()) { x.eof = true; return; }
            key = get_field(r, "sec-websocket-key");
            std::string acc = ref::accept(key);
            if(how) { char &c = acc[(size_t) pos]; c = change == 0 ? (char) (c ^ 0x20) : change == 1 ? (char) (c ^ 1) : ' '; }
            else if(i) acc = ref::accept(first);
            x.rx += "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + "\r\n\r\n";
        };
        Status st = s.connect("host", "80", std::chrono::seconds(1));
        MC_NOTE("connect -> " + sname(st));
        if(!how && !i) { MC_CHECK(st == Status::Success, "connect: " + sname(st)); first = key; if(mc::choose(2, "disconnect")) s.disconnect(); continue; }
        if(change == 2 && pos == 0) return;
        MC_CHECK(st != Status::Success && !s.connected(), "connect returns Success for an accept value which is not that of the key sent");
        mc::outcome((uint64_t) st);
    }
}
// the server derives the value from whatever key the client sends, and reads requests of any size; so does the client with answers
static void any_key(size_t len, size_t pad, size_t pieces)
{
    Session sess;
    Lst l;
    MC_CHECK(l.listen("80") == Status::Success, "listen fails");
    get(l.get_socket_descriptor())->backlog.push_back("10.4.4.4");
    WS s;
    std::string key; for(size_t i = 0; i < len; ++i) key += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[(i * 11 + len) % 64];
    std::string payload = pattern(5000, 9);
    std::string text = "GET /chat HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\n" + (pad ? "Cookie: " + std::string(pad, 'c') + "\r\n" : std::string()) + "Connection: Upgrade\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n" + ws::write("hi", 1, 1, true) + ws::write(payload, 2, 1, true);
    size_t given = 0;
    cfg.on_idle = [&](File &x) { if(given == text.size()) { x.eof = true; return; } size_t n = pieces ? std::min(pieces, text.size() - given) : text.size(); x.rx += text.substr(given, n); given += n; };
    Status st = l.accept(s);
    MC_CHECK(st == Status::Success, "accept fails with " + sname(st) + " although the client asked for an upgrade");
    Req r = read_request(get(s.get_socket_descriptor())->tx);
    MC_CHECK(r.complete && get_field(r, "sec-websocket-accept") == ref::accept(key), "the accept value for key '" + key + "' is '" + get_field(r, "sec-websocket-accept") + "'");
    fr::ServerWebFrame fr_;
    MC_CHECK(s.receive(fr_) == Status::Success && fr_.get_payload() == "hi", "the first frame after the handshake is lost");
    MC_CHECK(s.receive(fr_) == Status::Success && fr_.get_payload() == payload, "the second frame after the handshake is lost");
    mc::outcome(len + pad);
}
static void long_answer(size_t pad, size_t pieces)
{
    Session sess;
    cfg.addrs = {"10.0.0.1"};
    WS s;
    std::string text, payload = pattern(5000, 9); size_t given = 0;
    cfg.on_idle = [&](File &x)
    {
        if(text.empty()) { Req r = read_request(x.tx); if(!r.complete) return; text = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nSet-Cookie: " + std::string(pad, 'c') + "\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + ref::accept(get_field(r, "sec-websocket-key")) + "\r\n\r\n" + ws::write("hi", 1, 1, false) + ws::write(payload, 2, 1, false); }
        if(given == text.size()) { x.eof = true; return; }
        size_t n = pieces ? std::min(pieces, text.size() - given) : text.size(); x.rx += text.substr(given, n); given += n;
    };
    Status st = s.connect("host", "80", std::chrono::seconds(1));
    MC_CHECK(st == Status::Success, "connect fails with " + sname(st) + " although the handshake was genuine");
    fr::ClientWebFrame fr_;
    MC_CHECK(s.receive(fr_) == Status::Success && fr_.get_payload() == "hi", "the first frame after the handshake is lost");
    MC_CHECK(s.receive(fr_) == Status::Success && fr_.get_payload() == payload, "the second frame after the handshake is lost");
    mc::outcome(pad);
}

void mc_register()
{
    mc::add("stale", 0, [] { stale(0); });
    mc::add("one-character", 0, [] { stale(1); });
    for(size_t pieces : {size_t(0), size_t(4096), size_t(1000), size_t(7)})
    {
        mc::add("any-key/" + N((long long) pieces), 0, [=] { any_key((size_t) mc::choose(300, "key length") + 1, 0, pieces); }, 4, 1);
        mc::add("long-request/" + N((long long) pieces), 0, [=] { any_key(24, (size_t) mc::choose(600, "header size") + 3700, pieces); }, 4, 1);
        mc::add("long-answer/" + N((long long) pieces), 0, [=] { long_answer((size_t) mc::choose(600, "header size") + 3700, pieces); }, 4, 1);
        mc::add("longer/" + N((long long) pieces), 0, [=] { size_t n = (size_t) (mc::choose(5, "header size") + 1) * 9000; if(mc::choose(2, "side")) any_key(24, n, pieces); else long_answer(n, pieces); }, 4, 1);
    }
    mc::add("storm", 0, [] {
        Storm st(mc::choose(Storm::KINDS, "storm"));
        int a = mc::choose(3, "frames"), before = mc::choose(2, "before");
        if(mc::choose(2, "side")) client(Genuine, a, 0, before, 0, false); else server(AGenuine, a, 0, before, false);
    }, 8, 2);
    mc::add("many-keys", 0, [] {
        Session sess; cfg.max_calls = 10000000; cfg.addrs = {"10.0.0.1"}; WS s; std::set<std::string> keys; std::string key;
        cfg.on_idle = [&](File &x) { Req r = read_request(x.tx); if(!r.complete || !key.empty()) { x.eof = true; return; } key = get_field(r, "sec-websocket-key"); bool ok; x.rx += reply_text(Genuine, key, ok); };
        for(int i = 0; i < mc::by_tier(2000, 20000); ++i)
        {
            key.clear();
            Status st = s.connect("host", "80", std::chrono::seconds(1));
            MC_CHECK(st == Status::Success, "connection " + N(i) + ": " + sname(st));
            MC_CHECK(keys.insert(key).second, "connection " + N(i) + " uses a key that was used before");
            s.disconnect();
        }
        mc::outcome(keys.size());
    });
    mc::add("keys", 0, [] { fresh_keys(mc::by_tier(4, 6)); }, 4, 1);
    for(int before = 0; before < 2; ++before)
    {
        std::string b = before ? "reused/" : "fresh/";
        for(int r = 0; r < REPLIES; ++r)
        {
            for(int v = 0; v < 4; ++v) mc::add(b + "client/reply" + N(r) + "/whole" + N(v), 0, [=] { client(r, 0, 0, before, v, false); });
            mc::add(b + "client/reply" + N(r) + "/cut", 0, [=] { client(r, 0, 2, before, 0, false); });
            mc::add(b + "client/reply" + N(r) + "/bytes", 0, [=] { client(r, 0, 1, before, 0, false); });
            mc::add(b + "client/reply" + N(r) + "/truncated", 0, [=] { client(r, 0, 0, before, 0, true); });
        }
        for(int r : {(int) Genuine, (int) LowerNames, (int) Extra})
            for(int a = 0; a < 5; ++a)
            {
                for(int how = 0; how < 3; ++how) mc::add(b + "client/frames" + N(r) + "-" + N(a) + "/how" + N(how), 0, [=] { client(r, a, how, before, 0, false); });
                if(!before || mc::thorough()) mc::add(b + "client/frames" + N(r) + "-" + N(a) + "/faults", a < 4 ? 1 : 0, [=] { client(r, a, 3, before, 0, false); }, 4);
            }
        mc::add(b + "client/faults", mc::by_tier(1, 2), [=] { client(Genuine, 1, 3, before, 1, false); }, 8);
        mc::add(b + "client/faults-wrong", mc::by_tier(1, 2), [=] { client(WrongKey, 0, 3, before, 0, false); }, 8);
        for(int a = 0; a < ASKS; ++a)
        {
            mc::add(b + "server/ask" + N(a) + "/whole", 0, [=] { server(a, 0, 0, before, false); });
            mc::add(b + "server/ask" + N(a) + "/cut", 0, [=] { server(a, 0, 2, before, false); });
            mc::add(b + "server/ask" + N(a) + "/bytes", 0, [=] { server(a, 0, 1, before, false); });
            mc::add(b + "server/ask" + N(a) + "/truncated", 0, [=] { server(a, 0, 0, before, true); });
        }
        for(int q : {(int) AGenuine, (int) AExtra})
            for(int a = 0; a < 5; ++a)
            {
                for(int how : {0, 1, 2, 4}) mc::add(b + "server/frames" + N(q) + "-" + N(a) + "/how" + N(how), 0, [=] { server(q, a, how, before, false); });
                mc::add(b + "server/frames" + N(q) + "-" + N(a) + "/faults", a < 4 ? 1 : 0, [=] { server(q, a, 3, before, false); }, 4);
            }
        for(int a : {(int) ANear, (int) ACase, (int) AMethod, (int) AKeys}) mc::add(b + "server/near" + N(a - ASKS), 0, [=] { server(a, 0, 0, before, false); });
        mc::add(b + "server/faults", mc::by_tier(1, 2), [=] { server(AGenuine, 1, 3, before, false); }, 8);
        mc::add(b + "server/faults-wrong", mc::by_tier(1, 2), [=] { server(ANoUpgrade, 0, 3, before, false); }, 8);
    }
}
