// Reference encoder / decoder of packet values, written from the documentation (big endian, 32 bit lengths).
#pragma once
#include "frnetlib/Packet.h"
#include "frnetlib/Packetable.h"
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

struct RefOut : std::out_of_range { RefOut() : std::out_of_range("ref") {} };

inline std::string be(uint64_t v, int n) { std::string s; for(int i = n - 1; i >= 0; --i) s += (char) (v >> (8 * i)); return s; }

enum class E8 : uint8_t { A = 0, B = 1, C = 255 };
enum class ES8 : int8_t { M = -1, Z = 0, P = 127 };
enum class E16 : uint16_t { A = 0, B = 0xfffe };
enum class ES32 : int32_t { M = -2147483647 - 1, A = -2, B = 77 };
enum E32 : uint32_t { E32A = 0, E32B = 0x80000001u };

struct Point : fr::Packetable
{
    uint16_t x = 0; std::string name; std::vector<uint32_t> v;
    Point() = default;
    Point(uint16_t x_, std::string n, std::vector<uint32_t> v_) : x(x_), name(std::move(n)), v(std::move(v_)) {}
    void pack(fr::Packet &o) const override { o << x << name << v; }
    void unpack(fr::Packet &i) override { i >> x >> name >> v; }
    bool operator==(const Point &o) const { return x == o.x && name == o.name && v == o.v; }
};
struct Outer : fr::Packetable
{
    Point a; bool flag = false; std::map<std::string, Point> m;
    Outer() = default;
    Outer(Point p, bool f, std::map<std::string, Point> mm) : a(std::move(p)), flag(f), m(std::move(mm)) {}
    void pack(fr::Packet &o) const override { o << a << flag << m; }
    void unpack(fr::Packet &i) override { i >> a >> flag >> m; }
    bool operator==(const Outer &o) const { return a == o.a && flag == o.flag && m == o.m; }
};

template<typename T, typename = void> struct Ref;   // enc(value) -> bytes, dec(bytes, pos) -> value (throws RefOut)
inline uint64_t take(const std::string &s, size_t &p, int n)
{
    if(s.size() - p < (size_t) n) throw RefOut();
    uint64_t v = 0; for(int i = 0; i < n; ++i) v = v << 8 | (unsigned char) s[p + i];
    p += n; return v;
}
template<typename T> struct Ref<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
{
    static std::string enc(T v) { return be((uint64_t) v, sizeof(T)); }
    static T dec(const std::string &s, size_t &p) { return (T) take(s, p, sizeof(T)); }
};
template<> struct Ref<bool> { static std::string enc(bool b) { return std::string(1, b ? 1 : 0); } static bool dec(const std::string &s, size_t &p) { return take(s, p, 1) != 0; } };
template<typename T> struct Ref<T, std::enable_if_t<std::is_enum<T>::value>>
{
    static std::string enc(T v) { return be((uint32_t) v, 4); }
    static T dec(const std::string &s, size_t &p) { return (T) (uint32_t) take(s, p, 4); }
};
template<> struct Ref<float> { static std::string enc(float v) { uint32_t u; memcpy(&u, &v, 4); return be(u, 4); } static float dec(const std::string &s, size_t &p) { uint32_t u = (uint32_t) take(s, p, 4); float f; memcpy(&f, &u, 4); return f; } };
template<> struct Ref<double> { static std::string enc(double v) { uint64_t u; memcpy(&u, &v, 8); return be(u, 8); } static double dec(const std::string &s, size_t &p) { uint64_t u = take(s, p, 8); double f; memcpy(&f, &u, 8); return f; } };
template<> struct Ref<std::string>
{
    static std::string enc(const std::string &v) { return be(v.size(), 4) + v; }
    static std::string dec(const std::string &s, size_t &p) { uint64_t n = take(s, p, 4); if(s.size() - p < n) throw RefOut(); std::string r = s.substr(p, n); p += n; return r; }
};
template<> struct Ref<std::string_view>
{
    static std::string enc(std::string_view v) { return be(v.size(), 4) + std::string(v); }
    static std::string dec(const std::string &s, size_t &p) { return Ref<std::string>::dec(s, p); }
};
template<typename A, typename B> struct Ref<std::pair<A, B>>
{
    static std::string enc(const std::pair<A, B> &v) { return Ref<std::remove_const_t<A>>::enc(v.first) + Ref<B>::enc(v.second); }
    static std::pair<A, B> dec(const std::string &s, size_t &p) { A a = Ref<A>::dec(s, p); B b = Ref<B>::dec(s, p); return {std::move(a), std::move(b)}; }
};
template<typename T> struct Ref<std::vector<T>>
{
    static std::string enc(const std::vector<T> &v) { std::string r = be(v.size(), 4); for(const auto &x : v) r += Ref<T>::enc(x); return r; }
    static std::vector<T> dec(const std::string &s, size_t &p) { uint64_t n = take(s, p, 4); std::vector<T> r; for(uint64_t i = 0; i < n; ++i) r.push_back(Ref<T>::dec(s, p)); return r; }
};
template<typename A, typename B> struct Ref<std::map<A, B>>
{
    static std::string enc(const std::map<A, B> &m) { std::string r = be(m.size(), 4); for(const auto &x : m) r += Ref<A>::enc(x.first) + Ref<B>::enc(x.second); return r; }
    static std::map<A, B> dec(const std::string &s, size_t &p) { uint64_t n = take(s, p, 4); std::map<A, B> r; for(uint64_t i = 0; i < n; ++i) { A a = Ref<A>::dec(s, p); B b = Ref<B>::dec(s, p); r.emplace(std::move(a), std::move(b)); } return r; }
};
template<typename A, typename B> struct Ref<std::unordered_map<A, B>>
{
    static std::string enc(const std::unordered_map<A, B> &m) { std::string r = be(m.size(), 4); for(const auto &x : m) r += Ref<A>::enc(x.first) + Ref<B>::enc(x.second); return r; }
    static std::unordered_map<A, B> dec(const std::string &s, size_t &p) { uint64_t n = take(s, p, 4); std::unordered_map<A, B> r; for(uint64_t i = 0; i < n; ++i) { A a = Ref<A>::dec(s, p); B b = Ref<B>::dec(s, p); r.emplace(std::move(a), std::move(b)); } return r; }
};
template<> struct Ref<Point>
{
    static std::string enc(const Point &v) { return Ref<uint16_t>::enc(v.x) + Ref<std::string>::enc(v.name) + Ref<std::vector<uint32_t>>::enc(v.v); }
    static Point dec(const std::string &s, size_t &p) { Point r; r.x = Ref<uint16_t>::dec(s, p); r.name = Ref<std::string>::dec(s, p); r.v = Ref<std::vector<uint32_t>>::dec(s, p); return r; }
};
template<> struct Ref<Outer>
{
    static std::string enc(const Outer &v) { return Ref<Point>::enc(v.a) + Ref<bool>::enc(v.flag) + Ref<std::map<std::string, Point>>::enc(v.m); }
    static Outer dec(const std::string &s, size_t &p) { Outer r; r.a = Ref<Point>::dec(s, p); r.flag = Ref<bool>::dec(s, p); r.m = Ref<std::map<std::string, Point>>::dec(s, p); return r; }
};
template<typename T> bool same(const T &a, const T &b) { return a == b; }
template<> inline bool same<float>(const float &a, const float &b) { return memcmp(&a, &b, 4) == 0; }
template<> inline bool same<double>(const double &a, const double &b) { return memcmp(&a, &b, 8) == 0; }
