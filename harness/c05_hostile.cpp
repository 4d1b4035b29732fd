// C05: extracting from arbitrary bytes is refused safely.
#include "util.hpp"
#include "packet_types.hpp"

static const unsigned char ALPHA[] = {0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xff};

template<typename T> struct RefOf { using type = T; };
template<> struct RefOf<std::string_view> { using type = std::string; };
template<typename T> static bool agrees(const T &got, const typename RefOf<T>::type &want) { return same(got, want); }
static bool agrees(const std::string_view &got, const std::string &want) { return got == want; }

static bool has_bad_bool;  // set by the decoder run below when a boolean byte is neither 0 nor 1

// reference decode where T contains booleans: also tells whether an invalid boolean byte is met
template<typename T> static bool decode(const std::string &s, size_t &pos, typename RefOf<T>::type &out)
{
    try { out = Ref<T>::dec(s, pos); return true; } catch(const RefOut &) { return false; }
}

template<typename T> static void attack(const std::string &bytes, size_t start, bool dirty_from_good, const std::string &good)
{
    fr::Packet p;
    p.add_raw(bytes.data(), bytes.size());
    p.set_cursor(start);
    T out{};
    std::string good_store = good;
    fr::Packet gp;
    if(dirty_from_good) { gp.add_raw(good_store.data(), good_store.size()); try { gp >> out; } catch(const std::out_of_range &) {} }
    size_t pos = start;
    typename RefOf<T>::type want{};
    bool ok = decode<T>(bytes, pos, want);
    bool threw = false;
    mc::alloc_reset();
    size_t live0 = mc::alloc.live;
    try { p >> out; }
    catch(const std::out_of_range &) { threw = true; }
    catch(const std::bad_alloc &) { mc::fail("extraction from " + N((long long) bytes.size()) + " bytes exhausts the memory (asked for " + N((long long) mc::alloc.largest) + " bytes)"); }
    catch(const std::exception &e) { mc::fail(std::string("extraction throws something other than std::out_of_range: ") + e.what()); }
    size_t limit = 2048 + 128 * bytes.size();
    size_t peak = mc::alloc.peak > live0 && mc::alloc.peak < ((size_t) 1 << 60) ? mc::alloc.peak - live0 : 0;
    MC_CHECK(mc::alloc.largest <= limit && peak <= limit, "extraction from " + N((long long) bytes.size()) + " bytes allocates " + N((long long) mc::alloc.largest) + " bytes at once, " + N((long long) peak) + " in total");
    bool bad_bool = has_bad_bool;
    if(threw) MC_CHECK(!ok || bad_bool, "out_of_range although the value is completely there");
    else
    {
        MC_CHECK(ok, "extraction succeeds although the packet is too short");
        MC_CHECK(agrees(out, want), "extraction gives a value that is not in the packet");
        MC_CHECK(p.get_cursor() == pos, "the position after the extraction is " + N((long long) p.get_cursor()) + " instead of " + N((long long) pos));
    }
    MC_CHECK(p.size() == bytes.size(), "the packet's size changed");
    MC_CHECK(p.get_cursor() <= p.size() && p.get_bytes_remaining() == p.size() - p.get_cursor(), "position beyond the end after the extraction");
    // still usable
    p.set_cursor(0);
    std::string raw(bytes.size(), 0);
    if(!raw.empty()) p.extract_raw(&raw[0], raw.size());
    MC_CHECK(raw == bytes, "the packet's contents changed");
    p << std::string("more");
    std::string more; p >> more;
    MC_CHECK(more == "more", "the packet is not usable any more");
    mc::outcome(mc::mix(ok, mc::mix(threw, pos)));
}
// the value of a bool must be a proper true or false
static void bools(const std::string &bytes)
{
    fr::Packet p; p.add_raw(bytes.data(), bytes.size());
    struct { bool b; } x; x.b = false;
    bool threw = false;
    try { p >> x.b; } catch(const std::out_of_range &) { threw = true; }
    unsigned char raw; memcpy(&raw, &x.b, 1);
    MC_CHECK(raw <= 1, "a boolean holds the byte " + N(raw) + ", which is neither true nor false");
    if(bytes.empty()) MC_CHECK(threw, "bool extracted from nothing");
    else if(!threw) { MC_CHECK(raw == (bytes[0] != 0), "boolean differs from the packet"); MC_CHECK(p.get_cursor() == 1, "position"); }
    else MC_CHECK((unsigned char) bytes[0] > 1 && p.get_cursor() <= 1, "valid boolean refused");
    fr::Packet v; v << (uint32_t) bytes.size(); v.add_raw(bytes.data(), bytes.size());
    std::vector<bool> vb{true, true};
    try { v >> vb; MC_CHECK(vb.size() == bytes.size(), "vector<bool> size"); for(size_t i = 0; i < vb.size(); ++i) MC_CHECK(vb[i] == (bytes[i] != 0), "vector<bool> element differs from the packet"); }
    catch(const std::out_of_range &) { bool bad = false; for(unsigned char c : bytes) bad |= c > 1; MC_CHECK(bad, "vector<bool> refused"); }
    std::pair<bool, uint8_t> pr{}; fr::Packet q; q.add_raw(bytes.data(), bytes.size());
    try { q >> pr; memcpy(&raw, &pr.first, 1); MC_CHECK(raw <= 1, "invalid boolean inside a pair"); } catch(const std::out_of_range &) {}
}

static std::string bytes_of(int len, const unsigned char *al, int n)
{
    std::string s;
    for(int i = 0; i < len; ++i) s += (char) al[mc::choose(n, "byte")];
    return s;
}

// structured: a valid encoding with one length field / byte replaced, truncated anywhere
template<typename T> static void type(const std::string &name, std::vector<T> samples, bool bools_inside = false)
{
    // every byte string
    for(int len = 0; len <= 5; ++len)
        mc::add(name + "/all-bytes/" + N(len), 0, [=] {
            std::string b = bytes_of(len, ALPHA, len <= 4 || mc::thorough() ? 7 : 3);
            if(bools_inside) for(auto &c : b) if((unsigned char) c > 3) { /* any byte may be a boolean */ }
            has_bad_bool = bools_inside; attack<T>(b, 0, mc::choose(2, "destination used before"), samples.empty() ? "" : Ref<T>::enc(samples.back())); }, len >= 5 ? 4 : 1);
    static const unsigned char Z[] = {0x00, 0x01, 0x02};
    for(int len = 6; len <= mc::by_tier(9, 11); ++len)
        mc::add(name + "/small-bytes/" + N(len), 0, [=] { std::string b = bytes_of(len, Z, len <= 8 ? 3 : 2); has_bad_bool = bools_inside; attack<T>(b, 0, false, ""); }, len >= 9 ? 4 : 1);
    for(size_t i = 0; i < samples.size(); ++i)
    {
        std::string e = Ref<T>::enc(samples[i]);
        mc::add(name + "/mutations/" + N((long long) i), 0, [=] {
            std::string b = e;
            size_t start = (size_t) mc::choose(2, "start") * 3;
            b = std::string(start, '\x01') + b;
            int kind = mc::choose(3, "mutation");
            if(kind == 1 && b.size() > start) b[start + (size_t) mc::choose((int) (b.size() - start), "where")] = (char) (mc::choose(3, "to") * 0x7f + 1);
            if(kind == 2 && b.size() >= start + 4)
            {
                static const uint32_t L[] = {0, 1, 2, 5, 0x7fffffff, 0x80000000u, 0xfffffffbu, 0xfffffffcu, 0xffffffffu, 0x40000000u, 0x01000000u};
                size_t at = start + (size_t) mc::choose((int) (b.size() - start - 3), "length at");
                uint32_t l = L[mc::choose(11, "length")];
                b.replace(at, 4, be(l, 4));
            }
            size_t cut = (size_t) mc::choose((int) (b.size() - start) + 1, "cut");
            b.resize(b.size() - cut);
            has_bad_bool = bools_inside; attack<T>(b, start, false, "");
        }, 2, 3);
    }
}

static void raw_extract()
{
    static const size_t S[] = {0, 1, 2, 3, 4, 5, 1u << 16, (size_t) -1, (size_t) -2, (size_t) -4, (size_t) -5, (size_t) 1 << 63, (size_t) 1 << 32};
    int len = mc::choose(5, "length");
    std::string b = pattern((size_t) len);
    fr::Packet p; p.add_raw(b.data(), b.size());
    size_t cur = (size_t) mc::choose(len + 1, "cursor");
    p.set_cursor(cur);
    size_t n = S[mc::choose(13, "size")];
    bool fits = n <= b.size() - cur;
    bool th = false;
    try { p.assert_bytes_remaining(n); } catch(const std::out_of_range &) { th = true; }
    MC_CHECK(th == !fits, "assert_bytes_remaining(" + std::to_string(n) + ") with " + N((long long) (b.size() - cur)) + " bytes remaining " + (th ? "throws" : "does not throw"));
    if(n < 100)
    {
        std::string o(n + 2, '#'); th = false;
        try { p.extract_raw(&o[0], n); } catch(const std::out_of_range &) { th = true; }
        MC_CHECK(th == !fits, "extract_raw");
        MC_CHECK(o.substr(n) == "##", "extract_raw writes too much");
        if(!th) MC_CHECK(o.substr(0, n) == b.substr(cur, n) && p.get_cursor() == cur + n, "extract_raw differs");
        else MC_CHECK(p.get_cursor() == cur && o == std::string(n + 2, '#'), "a refused extract_raw has an effect");
    }
    else
    {
        char c[8]; th = false;
        try { p.extract_raw(c, n); } catch(const std::out_of_range &) { th = true; }
        MC_CHECK(th, "extract_raw of " + std::to_string(n) + " bytes accepted");
    }
    mc::outcome(mc::mix(n, th));
}

void mc_register()
{
    mc::alloc_refuse = 4u << 20;
    mc::add("raw", 0, raw_extract);
    for(int len = 0; len <= 3; ++len)
        mc::add("bool-bytes/" + N(len), 0, [=] { static const unsigned char A[] = {0, 1, 2, 3, 0x40, 0x80, 0xfe, 0xff}; bools(bytes_of(len, A, 8)); });
    type<uint8_t>("uint8", {7}); type<uint16_t>("uint16", {513}); type<uint32_t>("uint32", {0x01020304}); type<uint64_t>("uint64", {0x0102030405060708ull});
    type<int16_t>("int16", {-2}); type<int32_t>("int32", {-2}); type<int64_t>("int64", {-2});
    type<float>("float", {1.5f}); type<double>("double", {2.5});
    type<ES32>("enum32", {ES32::B}); type<E8>("enum8", {E8::B});
    type<std::string>("string", {"", "ab", "hello"});
    type<std::string_view>("string_view", {});
    type<std::pair<uint8_t, std::string>>("pair", {{1, "x"}});
    type<std::vector<uint8_t>>("vector<u8>", {{1, 2, 3}});
    type<std::vector<uint64_t>>("vector<u64>", {{1, 2}});
    type<std::vector<bool>>("vector<bool>", {{true, false, true}}, true);
    type<std::vector<std::string>>("vector<string>", {{"a", "", "bcd"}});
    type<std::vector<std::vector<uint16_t>>>("vector<vector>", {{{1, 2}, {}, {3}}});
    type<std::map<uint8_t, uint16_t>>("map", {{{1, 2}, {3, 4}}});
    type<std::map<std::string, std::vector<uint8_t>>>("map<string,vector>", {{{"a", {1}}, {"b", {}}}});
    type<std::unordered_map<uint8_t, std::string>>("umap", {{{1, "x"}, {2, ""}}});
    type<std::unordered_map<std::string, uint32_t>>("umap<string>", {{{"x", 1}}});
    type<Point>("Packetable", {Point(1, "n", {1, 2})});
    type<std::vector<Point>>("vector<Packetable>", {{Point(1, "n", {1}), Point()}});
    type<Outer>("Outer", {Outer(Point(1, "p", {}), true, {{"q", Point(2, "r", {3})}})}, true);
}
