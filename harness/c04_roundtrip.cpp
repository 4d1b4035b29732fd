// C04: whatever is packed is unpacked unchanged, in a wire format independent peers agree on.
#include "util.hpp"
#include "packet_types.hpp"
#include <limits>
#include <list>
#include <memory>

struct Item
{
    std::string name, ref;
    bool ordered = true;               // the encoding is determined by the value
    std::function<void(fr::Packet &)> pack;
    std::function<std::string(fr::Packet &)> extract;  // "" or what is wrong; every kind of destination
};
static std::vector<Item> items;        // all values
static std::vector<size_t> reps;       // one or two per type
static std::vector<size_t> mid;

template<typename T> struct always_false : std::false_type {};
template<typename T> static bool is_ordered(const T &) { return true; }
template<typename A, typename B> static bool is_ordered(const std::unordered_map<A, B> &m) { return m.size() < 2; }

template<typename T> static void it(const std::string &type, std::vector<T> values)
{
    for(size_t i = 0; i < values.size(); ++i)
    {
        T v = values[i];
        Item x;
        x.name = type + "#" + N((long long) i);
        x.ref = Ref<T>::enc(v);
        x.ordered = is_ordered(v);
        x.pack = [v](fr::Packet &p) { const T &c = v; p << c; };
        x.extract = [v, values, type](fr::Packet &p) -> std::string
        {
            size_t cur = p.get_cursor();
            size_t end = 0;
            for(int d = -1; d < (int) values.size(); ++d)
            {
                if(d >= 2 && d + 1 < (int) values.size()) continue;
                p.set_cursor(cur);
                T out{};
                if(d >= 0) out = values[d];
                p >> out;
                if(!same(out, v)) return type + (d < 0 ? " into a fresh object" : " into an object already holding a value") + " comes out different";
                if(d >= 0 && p.get_cursor() != end) return type + " consumes a different number of bytes";
                end = p.get_cursor();
            }
            return "";
        };
        if(i == 0 || i + 1 == values.size()) mid.push_back(items.size());
        if(i + 1 == values.size()) reps.push_back(items.size());
        items.push_back(x);
    }
}

static void setup()
{
    it<bool>("bool", {false, true});
    it<uint8_t>("uint8", {0, 1, 127, 128, 255});
    it<uint16_t>("uint16", {0, 1, 255, 256, 0x1234, 0x8000, 0xffff});
    it<uint32_t>("uint32", {0, 1, 0x12345678u, 0x80000000u, 0xffffffffu});
    it<uint64_t>("uint64", {0, 1, 0x0102030405060708ull, 0x8000000000000000ull, ~0ull});
    it<int16_t>("int16", {0, -1, 32767, -32768, 0x0102});
    it<int32_t>("int32", {0, -1, 2147483647, std::numeric_limits<int32_t>::min(), 0x01020304});
    it<int64_t>("int64", {0, -1, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), 0x0102030405060708ll});
    float nanf; uint32_t nf = 0x00a07fc0; memcpy(&nanf, &nf, 4);
    float swnan; uint32_t sf = 0x0100a07f; memcpy(&swnan, &sf, 4);   // byte-swapped it is a signalling NaN
    float paynan; uint32_t pf = 0x7fc0abcd; memcpy(&paynan, &pf, 4);
    float negnan; uint32_t gf = 0xffd55555; memcpy(&negnan, &gf, 4);
    it<float>("float", {paynan, negnan, 0.0f, -0.0f, 1.0f, -1.5f, 3.1415927f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::quiet_NaN(), nanf, swnan, std::numeric_limits<float>::max()});
    double swd; uint64_t sd = 0x010000000000f07full; memcpy(&swd, &sd, 8);
    double dpaynan; uint64_t pd = 0x7ff8000000abcdefull; memcpy(&dpaynan, &pd, 8);
    double dnegnan; uint64_t gd = 0xfff8deadbeef0001ull; memcpy(&dnegnan, &gd, 8);
    it<double>("double", {dpaynan, dnegnan, 0.0, -0.0, 1.0, -1.5, 2.718281828459045, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::quiet_NaN(), swd, std::numeric_limits<double>::lowest()});
    it<E8>("enum8", {E8::A, E8::B, E8::C});
    it<ES8>("senum8", {ES8::M, ES8::Z, ES8::P});
    it<E16>("enum16", {E16::A, E16::B});
    it<ES32>("senum32", {ES32::M, ES32::A, ES32::B});
    it<E32>("enum32", {E32A, E32B});
    it<std::string>("string", {"", "a", std::string("\0x\0", 3), "hello world", std::string(255, 'q'), std::string(256, '\xff'), std::string(65537, 'z'), "bob"});
    it<std::pair<bool, uint16_t>>("pair<bool,u16>", {{true, 7}, {false, 0x1234}});
    it<std::pair<std::string, std::pair<uint64_t, float>>>("pair nested", {{"", {0, 0.f}}, {"k", {9, -2.5f}}});
    it<std::vector<uint8_t>>("vector<u8>", {{}, {1}, {1, 2, 3, 255}});
    it<std::vector<bool>>("vector<bool>", {{}, {true}, {false, true, true, false, true, false, false, true, true}});
    it<std::vector<uint32_t>>("vector<u32>", {{}, {5}, {1, 0xffffffffu, 3, 4, 5, 6, 7}});
    it<std::vector<std::string>>("vector<string>", {{}, {""}, {"a", "", "longer string that is on the heap"}});
    it<std::vector<std::vector<std::string>>>("vector<vector<string>>", {{}, {{}}, {{"x"}, {}, {"y", "z"}}});
    it<std::vector<std::pair<std::string, int16_t>>>("vector<pair>", {{}, {{"a", -1}, {"b", 2}}});
    it<std::vector<E8>>("vector<enum>", {{}, {E8::C, E8::A}});
    it<std::vector<Point>>("vector<Packetable>", {{}, {Point(1, "n", {1, 2}), Point()}});
    it<std::map<std::string, uint32_t>>("map<string,u32>", {{}, {{"a", 1}}, {{"a", 2}, {"b", 3}, {"", 4}}});
    it<std::map<int32_t, std::vector<std::string>>>("map<int,vector>", {{}, {{-1, {"a"}}, {5, {}}}, {{-1, {"b", "c"}}, {6, {"d"}}}});
    it<std::map<std::string, std::map<uint16_t, bool>>>("map<map>", {{}, {{"k", {{1, true}}}}, {{"k", {{2, false}, {1, false}}}, {"l", {}}}});
    it<std::unordered_map<uint32_t, std::string>>("umap<u32,string>", {{}, {{1, "one"}}, {{1, "eins"}, {2, "two"}, {3, ""}}});
    it<std::unordered_map<std::string, std::vector<uint64_t>>>("umap<string,vector>", {{}, {{"k", {1}}}, {{"k", {2, 3}}, {"m", {}}}});
    it<Point>("Packetable", {Point(), Point(513, "name", {7, 8, 9})});
    it<Outer>("Packetable nested", {Outer(), Outer(Point(1, "p", {}), true, {{"q", Point(2, "r", {3})}, {"", Point()}})});
    it<std::vector<std::map<std::string, std::vector<bool>>>>("vector<map<vector<bool>>>", {{}, {{{"a", {true, false}}}, {}}});
    // string view
    for(std::string v : {std::string(), std::string("view"), std::string("v\0w", 3), std::string(300, 'v')})
    {
        Item x; x.name = "string_view " + N((long long) v.size()); x.ref = be(v.size(), 4) + v;
        x.pack = [v](fr::Packet &p) { p << std::string_view(v); };
        x.extract = [v](fr::Packet &p) -> std::string {
            size_t c = p.get_cursor();
            std::string_view o("old"); p >> o; if(o != v) return "string_view differs";
            size_t e = p.get_cursor(); p.set_cursor(c); std::string s; p >> s; if(s != v || p.get_cursor() != e) return "string_view read as string differs"; return ""; };
        reps.push_back(items.size()); mid.push_back(items.size()); items.push_back(x);
    }
    for(const char *v : {"", "literal"})
    {
        Item x; x.name = std::string("literal ") + v; x.ref = be(strlen(v), 4) + v;
        x.pack = [v](fr::Packet &p) { p << v; };
        x.extract = [v](fr::Packet &p) -> std::string { std::string o = "old"; p >> o; return o == v ? "" : "literal differs"; };
        mid.push_back(items.size()); items.push_back(x);
    }
    // iterator ranges
    {
        auto li = std::make_shared<std::list<std::string>>(std::list<std::string>{"l1", "", "l3"});
        Item x; x.name = "range<list<string>>"; x.ref = be(3, 4); for(auto &s : *li) x.ref += be(s.size(), 4) + s;
        x.pack = [li](fr::Packet &p) { p.add_range(li->begin(), li->end()); };
        x.extract = [li](fr::Packet &p) -> std::string { std::vector<std::string> o{"zz", "y", "x", "w"}; p >> o; return o == std::vector<std::string>(li->begin(), li->end()) ? "" : "range differs"; };
        reps.push_back(items.size()); mid.push_back(items.size()); items.push_back(x);
        Item y; y.name = "empty range"; y.ref = be(0, 4);
        y.pack = [](fr::Packet &p) { std::vector<uint16_t> e; p.add_range(e.begin(), e.end()); };
        y.extract = [](fr::Packet &p) -> std::string { std::vector<uint16_t> o{1, 2}; p >> o; return o.empty() ? "" : "empty range differs"; };
        items.push_back(y);
    }
    // raw
    for(std::string v : {std::string(), std::string("r\0w", 3)})
    {
        Item x; x.name = "raw " + N((long long) v.size()); x.ref = v;
        x.pack = [v](fr::Packet &p) { p.add_raw(v.data(), v.size()); };
        x.extract = [v](fr::Packet &p) -> std::string { std::string o(v.size() + 4, '#'); p.extract_raw(&o[0], v.size()); return o == v + "####" ? "" : "raw bytes differ"; };
        reps.push_back(items.size()); mid.push_back(items.size()); items.push_back(x);
    }
}

static void sequence(const std::vector<size_t> &pool, int depth, size_t first, bool shuttle)
{
    fr::Packet p;
    std::string ref; bool ordered = true;
    std::vector<size_t> seq;
    for(int i = 0; i < depth; ++i)
    {
        size_t k = i == 0 ? first : pool[(size_t) mc::choose((int) pool.size(), "value")];
        seq.push_back(k);
        items[k].pack(p);
        MC_NOTE("pack " + items[k].name);
        ref += items[k].ref; ordered = ordered && items[k].ordered;
        MC_CHECK(p.size() == ref.size(), "after packing " + items[k].name + " the packet has " + N((long long) p.size()) + " bytes instead of " + N((long long) ref.size()));
        MC_CHECK(p.get_cursor() == 0, "packing moved the read position");
    }
    if(ordered)
    {
        std::string raw(ref.size(), 0);
        fr::Packet q(p);
        if(!raw.empty()) q.extract_raw(&raw[0], raw.size());
        MC_CHECK(raw == ref, "the encoding of " + items[seq.back()].name + " is '" + mc::printable(raw, 80) + "' instead of '" + mc::printable(ref, 80) + "'");
    }
    fr::Packet copy;
    fr::Packet *src = &p;
    if(shuttle) { copy = p; src = &copy; }
    size_t at = 0;
    for(size_t k : seq)
    {
        std::string w;
        try { w = items[k].extract(*src); } catch(const std::out_of_range &) { w = "out_of_range thrown"; }
        if(!w.empty()) mc::fail("extracting " + items[k].name + ": " + w);
        at += items[k].ref.size();
        MC_CHECK(src->get_cursor() == at, "extracting " + items[k].name + " leaves the position at " + N((long long) src->get_cursor()) + " instead of " + N((long long) at));
    }
    MC_CHECK(src->get_bytes_remaining() == 0, "bytes left over");
    mc::outcome(mc::hash(ref));
}

// variadic construction and add()
static void variadic()
{
    std::map<std::string, uint32_t> m{{"a", 1}};
    std::vector<std::string> v{"x", "yy"};
    fr::Packet a{(uint8_t) 1, std::string("bob"), 3.5f, m, true, v, (uint64_t) 9, std::make_pair((uint16_t) 4, std::string("p")), ES32::A};
    fr::Packet b; b.add((uint8_t) 1, std::string("bob"), 3.5f, m, true, v, (uint64_t) 9, std::make_pair((uint16_t) 4, std::string("p")), ES32::A);
    fr::Packet c; c << (uint8_t) 1 << std::string("bob") << 3.5f << m << true << v << (uint64_t) 9 << std::make_pair((uint16_t) 4, std::string("p")) << ES32::A;
    std::string ref = Ref<uint8_t>::enc(1) + Ref<std::string>::enc("bob") + Ref<float>::enc(3.5f) + Ref<std::map<std::string, uint32_t>>::enc(m) + Ref<bool>::enc(true) + Ref<std::vector<std::string>>::enc(v)
        + Ref<uint64_t>::enc(9) + Ref<uint16_t>::enc(4) + Ref<std::string>::enc("p") + Ref<ES32>::enc(ES32::A);
    for(fr::Packet *p : {&a, &b, &c})
    {
        std::string raw(p->size(), 0);
        p->extract_raw(&raw[0], raw.size());
        MC_CHECK(raw == ref, "construction forms disagree");
    }
    mc::outcome(1);
}

// containers, strings and raw bytes of any size
template<typename T> static void sized(const T &v, const T &old, const char *what)
{
    fr::Packet p;
    p << (uint16_t) 0x0102 << v << std::string("after");
    std::string ref = Ref<uint16_t>::enc(0x0102) + Ref<T>::enc(v) + Ref<std::string>::enc("after");
    MC_CHECK(p.size() == ref.size(), std::string(what) + ": the packet has " + N((long long) p.size()) + " bytes instead of " + N((long long) ref.size()));
    if(is_ordered(v))
    {
        fr::Packet q(p);
        std::string raw(ref.size(), 0);
        q.extract_raw(&raw[0], raw.size());
        if(raw != ref) { size_t i = 0; while(raw[i] == ref[i]) ++i; mc::fail(std::string(what) + ": the encoding differs at byte " + N((long long) i)); }
    }
    for(int used = 0; used < 2; ++used)
    {
        fr::Packet q(p);
        uint16_t a = 0; std::string z;
        T out{};
        if(used) out = old;
        q >> a >> out >> z;
        MC_CHECK(a == 0x0102 && z == "after", std::string(what) + ": the neighbours come out different");
        if(!(out == v)) mc::fail(std::string(what) + (used ? " into an object already holding something" : "") + " comes out different");
        MC_CHECK(q.get_bytes_remaining() == 0, "bytes left over");
    }
    mc::outcome(mc::hash(ref));
}
static void sizes(int every)
{
    static const int BIG[] = {32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072, 1000000};
    int kind = mc::choose(10, "kind");
    size_t n = (size_t) mc::choose(every + 11, "size"), old = n ? n / 2 : 3;
    if(n > (size_t) every) n = (size_t) BIG[n - (size_t) every - 1];
    if(n > 70000 && kind != 0 && kind != 1 && kind != 9) n = 70000 + n % 11;
    auto str = [](size_t k) { std::string s(k, 0); for(size_t i = 0; i < k; ++i) s[i] = (char) (i * 31 + i / 256); return s; };
    std::string what = N((long long) n) + " elements, kind " + N(kind);
    if(kind == 0) sized<std::string>(str(n), str(old), what.c_str());
    if(kind == 1) { auto s = str(n), o = str(old); sized<std::vector<uint8_t>>({s.begin(), s.end()}, {o.begin(), o.end()}, what.c_str()); }
    if(kind == 2) { std::vector<bool> v(n), o(old, true); for(size_t i = 0; i < n; ++i) v[i] = i % 3 == 0; sized(v, o, what.c_str()); }
    if(kind == 3) { std::vector<uint64_t> v(n), o(n + 3, 5); for(size_t i = 0; i < n; ++i) v[i] = i * 0x0101010101ull; sized(v, o, what.c_str()); }
    if(kind == 4) { std::vector<std::string> v(n), o(old, "old"); for(size_t i = 0; i < n; ++i) v[i] = str(i % 20); sized(v, o, what.c_str()); }
    if(kind == 5) { std::map<uint32_t, std::string> v, o; for(size_t i = 0; i < n; ++i) v[(uint32_t) (i * 7919)] = str(i % 9); o[7919] = "old"; o[1] = "old"; sized(v, o, what.c_str()); }
    if(kind == 6) { std::unordered_map<uint32_t, uint16_t> v, o; for(size_t i = 0; i < n; ++i) v[(uint32_t) (i * 7919)] = (uint16_t) i; o[7919] = 9; o[1] = 9; sized(v, o, what.c_str()); }
    if(kind == 7) { std::vector<Point> v, o(old); for(size_t i = 0; i < n; ++i) v.push_back(Point((uint16_t) i, "p", {1})); sized(v, o, what.c_str()); }
    if(kind == 8)
    {
        std::list<uint16_t> l; for(size_t i = 0; i < n; ++i) l.push_back((uint16_t) (i * 3));
        fr::Packet p; p << true; p.add_range(l.begin(), l.end()); p << false;
        std::vector<uint16_t> out(old, 7); bool a = false, z = true;
        p >> a >> out >> z;
        MC_CHECK(a && !z && out == std::vector<uint16_t>(l.begin(), l.end()), "a range of " + what + " comes out different");
        mc::outcome(n);
    }
    if(kind == 9)
    {
        std::string s = str(n), out(n + 3, '#');
        fr::Packet p; p << true; p.add_raw(s.data(), s.size()); p << std::string_view(s) << s.c_str() << false;
        bool a = false, z = true; std::string_view w; std::string c;
        p >> a; p.extract_raw(&out[0], n); p >> w >> c >> z;
        MC_CHECK(a && !z && out == s + "###" && w == s && c == s.c_str(), "raw bytes, view or literal of " + what + " come out different");
        mc::outcome(n);
    }
}

void mc_register()
{
    mc::add("sizes", 0, [] { sizes(mc::by_tier(300, 3000)); }, 40, 2);
    setup();
    mc::add("variadic", 0, variadic);
    for(size_t i = 0; i < items.size(); ++i)
        mc::add("pairs/" + items[i].name, 0, [=] {
            std::vector<size_t> all; for(size_t k = 0; k < items.size(); ++k) if(items[k].ref.size() < 60000 || k == i) all.push_back(k);
            sequence(all, 2, i, mc::choose(2, "through a copy")); });
    for(size_t i : mid)
        if(items[i].ref.size() < 60000)
            mc::add("triples/" + items[i].name, 0, [=] { sequence(mc::thorough() ? mid : reps, 3, i, false); });
    if(mc::thorough())
        for(size_t i : reps) mc::add("quads/" + items[i].name, 0, [=] { sequence(reps, 4, i, false); });
}
