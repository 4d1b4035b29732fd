// C06: a packet behaves like a byte tape with a read position, over every operation sequence.
#include "util.hpp"
#include "packet_types.hpp"
#include <limits>

struct Tape { std::string b; size_t pos = 0; };

static void agree(const fr::Packet &p, const Tape &t, const char *after)
{
    MC_CHECK(p.size() == t.b.size(), std::string("size() is ") + std::to_string(p.size()) + " instead of " + std::to_string(t.b.size()) + " after " + after);
    MC_CHECK(p.get_cursor() == t.pos, std::string("get_cursor() is ") + std::to_string(p.get_cursor()) + " instead of " + std::to_string(t.pos) + " after " + after);
    MC_CHECK(p.get_bytes_remaining() == t.b.size() - t.pos, std::string("get_bytes_remaining() is ") + std::to_string(p.get_bytes_remaining()) + " after " + after);
    // the exact number of remaining bytes is available, one more is not
    bool th = false;
    try { p.assert_bytes_remaining(t.b.size() - t.pos); } catch(const std::out_of_range &) { th = true; }
    MC_CHECK(!th, std::string("the remaining bytes are refused after ") + after);
    try { p.assert_bytes_remaining(t.b.size() - t.pos + 1); } catch(const std::out_of_range &) { th = true; }
    MC_CHECK(th, std::string("a byte beyond the end is accepted after ") + after);
}

enum Kind { RAW, U8, U16, U32, U64, BOOL, F, D, STR, CSTR, VEC, RANGE, EMPTYRAW, X0, X1, X3, XALL, XMORE, XU8, XU16, XU32, XU64, XSTR, XVEC, XBOOL, XI16, XI32, XI64, XF, XD, XE8, XE16, XSV, XVS, XMAP, XUMAP, XPAIR, XOBJ, XREF, SET, SEEK, CLEAR, RESERVE, COPY, ASSIGN, MOVE, SEND };
struct Op { Kind k; long long v; const char *name; };

// an extraction that needs exactly n bytes starting at the cursor, or throws
template<typename T> static void take(fr::Packet &p, Tape &t, const char *name)
{
    T out{};
    size_t pos = t.pos;
    bool ok = true;
    std::conditional_t<std::is_same<T, std::string_view>::value, std::string, T> want{};
    try { want = Ref<T>::dec(t.b, pos); } catch(const RefOut &) { ok = false; }
    bool th = false;
    try { p >> out; } catch(const std::out_of_range &) { th = true; }
    MC_CHECK(th == !ok, std::string(name) + (th ? " refused although it fits" : " accepted beyond the end"));
    if(ok) { MC_CHECK(same(decltype(want)(out), want), std::string(name) + " gives another value"); t.pos = pos; }
    else if(std::is_arithmetic<T>::value || std::is_enum<T>::value) MC_CHECK(p.get_cursor() == t.pos, std::string("the position moved with a refused ") + name);
    else
    {
        // where a refused extraction of a compound leaves the position is not specified; it must be on the tape, not before
        size_t c = p.get_cursor();
        MC_CHECK(c >= t.pos && c <= t.b.size(), std::string("position off the tape after a refused ") + name);
        t.pos = c;
    }
}

// sends the packet into a recording socket: what is sent is the whole contents, wherever the position is
struct Recorder : fr::TcpSocket
{
    mutable std::string wire;
    Status send_raw(const char *d, size_t n, size_t &sent) override { wire.append(d + sent, n - sent); sent = n; return Status::Success; }
};

static void apply(fr::Packet &p, Tape &t, const Op &o)
{
    switch(o.k)
    {
        case RAW: { std::string s = pattern((size_t) o.v, (unsigned) t.b.size()); p.add_raw(s.data(), s.size()); t.b += s; break; }
        case EMPTYRAW: p.add_raw("x", 0); break;
        case U8: p << (uint8_t) 0xa1; t.b += Ref<uint8_t>::enc(0xa1); break;
        case U16: p << (uint16_t) 0xa1b2; t.b += Ref<uint16_t>::enc(0xa1b2); break;
        case U32: p << (uint32_t) 2; t.b += Ref<uint32_t>::enc(2); break;
        case U64: p << (uint64_t) 0x0000000200000003ull; t.b += Ref<uint64_t>::enc(0x0000000200000003ull); break;
        case BOOL: p << true; t.b += Ref<bool>::enc(true); break;
        case F: p << 1.5f; t.b += Ref<float>::enc(1.5f); break;
        case D: p << 2.5; t.b += Ref<double>::enc(2.5); break;
        case STR: p << std::string("ab"); t.b += Ref<std::string>::enc("ab"); break;
        case CSTR: p << "c"; t.b += Ref<std::string>::enc("c"); break;
        case VEC: { std::vector<uint8_t> v{4, 5}; p << v; t.b += Ref<std::vector<uint8_t>>::enc(v); break; }
        case RANGE: { std::vector<uint8_t> v{6}; p.add_range(v.begin(), v.end()); t.b += Ref<std::vector<uint8_t>>::enc(v); break; }
        case X0: case X1: case X3: case XALL: case XMORE:
        {
            size_t n = o.k == X0 ? 0 : o.k == X1 ? 1 : o.k == X3 ? 3 : o.k == XALL ? t.b.size() - t.pos : t.b.size() - t.pos + 1;
            std::string buf(n + 1, '#');
            bool th = false;
            try { p.extract_raw(&buf[0], n); } catch(const std::out_of_range &) { th = true; }
            bool ok = n <= t.b.size() - t.pos;
            MC_CHECK(th == !ok, std::string("extract_raw of ") + std::to_string(n) + (th ? " refused although it fits" : " accepted beyond the end"));
            MC_CHECK(buf[n] == '#', "extract_raw writes beyond the destination");
            if(ok) { MC_CHECK(buf.substr(0, n) == t.b.substr(t.pos, n), "extract_raw gives other bytes"); t.pos += n; }
            break;
        }
        case XU8: take<uint8_t>(p, t, "uint8"); break;
        case XU16: take<uint16_t>(p, t, "uint16"); break;
        case XU32: take<uint32_t>(p, t, "uint32"); break;
        case XU64: take<uint64_t>(p, t, "uint64"); break;
        case XSTR: take<std::string>(p, t, "string"); break;
        case XVEC: take<std::vector<uint8_t>>(p, t, "vector"); break;
        case XBOOL: take<bool>(p, t, "bool"); break;
        case XI16: take<int16_t>(p, t, "int16"); break;
        case XI32: take<int32_t>(p, t, "int32"); break;
        case XI64: take<int64_t>(p, t, "int64"); break;
        case XF: take<float>(p, t, "float"); break;
        case XD: take<double>(p, t, "double"); break;
        case XE8: take<E8>(p, t, "8-bit enumeration"); break;
        case XE16: take<E16>(p, t, "16-bit enumeration"); break;
        case XSV: take<std::string_view>(p, t, "string_view"); break;
        case XVS: take<std::vector<std::string>>(p, t, "vector of strings"); break;
        case XMAP: take<std::map<uint8_t, uint16_t>>(p, t, "map"); break;
        case XUMAP: take<std::unordered_map<uint16_t, std::string>>(p, t, "unordered_map"); break;
        case XPAIR: take<std::pair<uint8_t, std::string>>(p, t, "pair"); break;
        case XOBJ: take<Point>(p, t, "Packetable"); break;
        case XREF: { std::vector<bool> vb(2); bool ok = t.pos < t.b.size(), th = false; auto r = vb[1]; try { p >> r; } catch(const std::out_of_range &) { th = true; } MC_CHECK(th == !ok, "vector<bool> element"); if(ok) { MC_CHECK(vb[1] == (t.b[t.pos] != 0) && !vb[0], "vector<bool> element value"); ++t.pos; } break; }
        case SET: { size_t v = (size_t) o.v; p.set_cursor(v); t.pos = v < t.b.size() ? v : t.b.size(); break; }
        case SEEK:
        {
            p.seek_cursor((ssize_t) o.v);
            if(o.v < 0) { unsigned long long d = 0ull - (unsigned long long) o.v; t.pos = d < t.pos ? t.pos - (size_t) d : 0; }
            else { size_t room = t.b.size() - t.pos; t.pos += (unsigned long long) o.v < room ? (size_t) o.v : room; }
            break;
        }
        case CLEAR: p.clear(); t = Tape(); break;
        case RESERVE: p.reserve((size_t) o.v); break;
        case COPY: { fr::Packet q(static_cast<const fr::Packet &>(p)); agree(q, t, "copying"); q << (uint8_t) 9; agree(p, t, "changing a copy"); break; }
        case ASSIGN: { fr::Packet q; q << (uint32_t) 77; q.set_cursor(2); q = p; agree(q, t, "assigning"); p.clear(); p = q; break; }
        case MOVE: { fr::Packet q(std::move(p)); agree(q, t, "moving"); p = std::move(q); break; }
        case SEND:
        {
            Recorder r;
            MC_CHECK(p.send(&r) == Status::Success, "send");
            MC_CHECK(r.wire == be((uint32_t) t.b.size(), 4) + t.b, "what is sent differs from the packet's contents: " + mc::printable(r.wire));
            break;
        }
    }
    agree(p, t, o.name);
}
static void whole(fr::Packet &p, Tape &t)
{
    p.set_cursor();
    MC_CHECK(p.get_cursor() == 0, "set_cursor() does not go to the beginning");
    std::string s(t.b.size() + 1, '#');
    p.extract_raw(&s[0], t.b.size());
    MC_CHECK(s.substr(0, t.b.size()) == t.b, "the packet's contents differ: " + mc::printable(s) + " instead of " + mc::printable(t.b));
}

static void sequence(const std::vector<Op> &al, int depth, const std::string &initial)
{
    fr::Packet p; Tape t;
    if(!initial.empty()) { p.add_raw(initial.data(), initial.size()); t.b = initial; }
    agree(p, t, "construction");
    mc::set_state_fn([&] { return mc::mix(mc::hash(t.b), t.pos); });
    for(int i = 0; i < depth; ++i)
    {
        const Op &o = al[(size_t) mc::choose((int) al.size(), "operation")];
        MC_NOTE(std::string("operation ") + o.name + " on a tape of " + std::to_string(t.b.size()) + " bytes at " + std::to_string(t.pos));
        apply(p, t, o);
        if(o.k == MOVE || o.k == ASSIGN) { size_t keep = t.pos; whole(p, t); p.set_cursor(keep); }
    }
    whole(p, t);
    mc::set_state_fn(nullptr);
    mc::outcome(mc::mix(mc::hash(t.b), t.pos));
}

void mc_register()
{
    const long long MX = std::numeric_limits<long long>::max(), MN = std::numeric_limits<long long>::min();
    static std::vector<Op> all = {
        {RAW, 1, "add_raw(1)"}, {RAW, 3, "add_raw(3)"}, {EMPTYRAW, 0, "add_raw(0)"}, {U8, 0, "<< uint8"}, {U16, 0, "<< uint16"}, {U32, 0, "<< uint32"}, {U64, 0, "<< uint64"}, {BOOL, 0, "<< bool"},
        {F, 0, "<< float"}, {D, 0, "<< double"}, {STR, 0, "<< string"}, {CSTR, 0, "<< char*"}, {VEC, 0, "<< vector"}, {RANGE, 0, "add_range"},
        {X0, 0, "extract_raw(0)"}, {X1, 0, "extract_raw(1)"}, {X3, 0, "extract_raw(3)"}, {XALL, 0, "extract_raw(remaining)"}, {XMORE, 0, "extract_raw(remaining+1)"},
        {XU8, 0, ">> uint8"}, {XU16, 0, ">> uint16"}, {XU32, 0, ">> uint32"}, {XU64, 0, ">> uint64"}, {XSTR, 0, ">> string"}, {XVEC, 0, ">> vector"}, {XBOOL, 0, ">> bool"},
        {XI16, 0, ">> int16"}, {XI32, 0, ">> int32"}, {XI64, 0, ">> int64"}, {XF, 0, ">> float"}, {XD, 0, ">> double"}, {XE8, 0, ">> 8-bit enumeration"}, {XE16, 0, ">> 16-bit enumeration"}, {XSV, 0, ">> string_view"},
        {XVS, 0, ">> vector of strings"}, {XMAP, 0, ">> map"}, {XUMAP, 0, ">> unordered_map"}, {XPAIR, 0, ">> pair"}, {XOBJ, 0, ">> Packetable"}, {XREF, 0, ">> vector<bool> element"},
        {SET, 0, "set_cursor(0)"}, {SET, 1, "set_cursor(1)"}, {SET, 4, "set_cursor(4)"}, {SET, 100, "set_cursor(100)"}, {SET, -1, "set_cursor(SIZE_MAX)"}, {SET, -3, "set_cursor(SIZE_MAX-2)"}, {SET, -4, "set_cursor(SIZE_MAX-3)"}, {SET, -5, "set_cursor(SIZE_MAX-4)"}, {SET, MX, "set_cursor(SSIZE_MAX)"},
        {SEEK, 0, "seek_cursor(0)"}, {SEEK, 1, "seek_cursor(1)"}, {SEEK, -1, "seek_cursor(-1)"}, {SEEK, 3, "seek_cursor(3)"}, {SEEK, -3, "seek_cursor(-3)"}, {SEEK, -4, "seek_cursor(-4)"}, {SEEK, -5, "seek_cursor(-5)"}, {SEEK, 100, "seek_cursor(100)"}, {SEEK, -100, "seek_cursor(-100)"},
        {SEEK, MX, "seek_cursor(SSIZE_MAX)"}, {SEEK, MX - 4, "seek_cursor(SSIZE_MAX-4)"}, {SEEK, MN, "seek_cursor(SSIZE_MIN)"}, {SEEK, MN + 4, "seek_cursor(SSIZE_MIN+4)"}, {SEEK, 1ll << 32, "seek_cursor(2^32)"}, {SEEK, -(1ll << 32), "seek_cursor(-2^32)"},
        {CLEAR, 0, "clear"}, {RESERVE, 0, "reserve(0)"}, {RESERVE, 40, "reserve(40)"}, {COPY, 0, "copy"}, {ASSIGN, 0, "assign"}, {MOVE, 0, "move"}, {SEND, 0, "send"},
    };
    static std::vector<Op> few = {
        {RAW, 3, "add_raw(3)"}, {U16, 0, "<< uint16"}, {STR, 0, "<< string"}, {X1, 0, "extract_raw(1)"}, {XMORE, 0, "extract_raw(remaining+1)"}, {XSTR, 0, ">> string"}, {XU32, 0, ">> uint32"},
        {SET, 1, "set_cursor(1)"}, {SET, -1, "set_cursor(SIZE_MAX)"}, {SEEK, 1, "seek_cursor(1)"}, {SEEK, -4, "seek_cursor(-4)"}, {SEEK, MX, "seek_cursor(SSIZE_MAX)"}, {SEEK, MN, "seek_cursor(SSIZE_MIN)"}, {CLEAR, 0, "clear"}, {SEND, 0, "send"},
    };
    static const std::string inits[] = {"", std::string("\0\0\0\2ab\0\1", 8)};
    for(int i = 0; i < 2; ++i)
    {
        for(int d = 1; d <= mc::by_tier(3, 4); ++d) mc::add("all/" + N(d) + "/start" + N(i), 0, [=] { sequence(all, d, inits[i]); }, d >= 3 ? 16 : 1, 1);
        for(int d = 4; d <= mc::by_tier(5, 6); ++d) mc::add("few/" + N(d) + "/start" + N(i), 0, [=] { sequence(few, d, inits[i]); }, 15, 1);
    }
    // large packets: what changes with the size of the buffer
    static std::vector<Op> large = {
        {RAW, 3, "add_raw(3)"}, {STR, 0, "<< string"}, {X1, 0, "extract_raw(1)"}, {XALL, 0, "extract_raw(remaining)"}, {XMORE, 0, "extract_raw(remaining+1)"}, {XSTR, 0, ">> string"}, {XU32, 0, ">> uint32"},
        {SET, 1, "set_cursor(1)"}, {SET, 4090, "set_cursor(4090)"}, {SET, -1, "set_cursor(SIZE_MAX)"}, {SEEK, 4096, "seek_cursor(4096)"}, {SEEK, -4, "seek_cursor(-4)"}, {SEEK, -70000, "seek_cursor(-70000)"}, {SEEK, MX, "seek_cursor(SSIZE_MAX)"},
        {CLEAR, 0, "clear"}, {RESERVE, 1 << 17, "reserve(131072)"}, {COPY, 0, "copy"}, {ASSIGN, 0, "assign"}, {MOVE, 0, "move"}, {SEND, 0, "send"},
    };
    for(size_t n : {size_t(4000), size_t(5000), size_t(70000)})
    {
        std::string body; for(size_t i = 0; i < n; ++i) body += (char) (i * 7 + i / 251);
        for(int d = 1; d <= mc::by_tier(n > 60000 ? 2 : 3, n > 60000 ? 3 : 4); ++d) mc::add("large/" + N(d) + "/" + N(n), 0, [=] { sequence(large, d, be((uint32_t) n, 4) + body); }, d >= 3 ? 16 : 1, 1);
    }
}
