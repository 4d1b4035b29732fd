// An independent RFC 6455 frame codec.
#pragma once
#include "util.hpp"
#include "frnetlib/WebFrame.h"
#include <memory>

namespace ws
{
    // the number of an opcode: RFC 6455's for those which have a name
    inline int number(fr::WebFrame::Opcode o)
    {
        using O = fr::WebFrame::Opcode;
        static const std::pair<O, int> named[] = {{O::Continuation, 0}, {O::Text, 1}, {O::Binary, 2}, {O::Disconnect, 8}, {O::Ping, 9}, {O::Pong, 10}};
        for(auto &n : named) if(n.first == o) return n.second;
        return (int) o;
    }
    struct Frame { int fin = 1, rsv = 0, opcode = 1; bool masked = false; std::string key, payload; size_t header = 0; bool shortest = true; uint64_t length = 0; };

    // Reads one frame at `pos`; returns false if it is incomplete.
    inline bool read(const std::string &b, size_t &pos, Frame &f)
    {
        auto at = [&](size_t i) { return (uint64_t) (unsigned char) b[i]; };
        size_t p = pos;
        if(b.size() - p < 2) return false;
        f = Frame();
        f.fin = (int) (at(p) >> 7); f.rsv = (int) (at(p) >> 4) & 7; f.opcode = (int) at(p) & 15;
        f.masked = at(p + 1) >> 7; f.length = at(p + 1) & 127;
        p += 2;
        int ext = f.length == 126 ? 2 : f.length == 127 ? 8 : 0;
        if(ext)
        {
            if(b.size() - p < (size_t) ext) return false;
            f.length = 0;
            for(int i = 0; i < ext; ++i) f.length = f.length << 8 | at(p + (size_t) i);
            f.shortest = ext == 2 ? f.length > 125 : f.length > 65535;
            p += (size_t) ext;
        }
        if(f.masked) { if(b.size() - p < 4) return false; f.key = b.substr(p, 4); p += 4; }
        f.header = p - pos;
        if(b.size() - p < f.length) return false;
        f.payload = b.substr(p, f.length);
        if(f.masked) for(size_t i = 0; i < f.payload.size(); ++i) f.payload[i] = (char) (f.payload[i] ^ f.key[i & 3]);
        pos = p + f.length;
        return true;
    }
    inline std::string write(const std::string &payload, int opcode, int fin, bool masked, const std::string &key = "\x37\xfa\x21\x3d", const uint64_t *claim = nullptr)
    {
        uint64_t n = claim ? *claim : payload.size();
        std::string o;
        o += (char) (fin << 7 | opcode);
        int m = masked ? 128 : 0;
        auto be = [&](int k) { for(int i = k - 1; i >= 0; --i) o += (char) (n >> (8 * i)); };
        if(n < 126) o += (char) (m | (int) n);
        else if(n < 65536) { o += (char) (m | 126); be(2); }
        else { o += (char) (m | 127); be(8); }
        if(masked) o += key;
        for(size_t i = 0; i < payload.size(); ++i) o += masked ? (char) (payload[i] ^ key[i % 4]) : payload[i];
        return o;
    }
    inline std::unique_ptr<fr::WebFrame> frame(bool client)
    {
        if(client) return std::unique_ptr<fr::WebFrame>(new fr::ClientWebFrame());
        return std::unique_ptr<fr::WebFrame>(new fr::ServerWebFrame());
    }
    inline std::string show(const Frame &f) { return "fin " + N(f.fin) + " opcode " + N(f.opcode) + (f.masked ? " masked" : " unmasked") + " '" + mc::printable(f.payload, 40) + "' (" + N((long long) f.payload.size()) + " bytes)"; }
}
