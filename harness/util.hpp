// Shared helpers of the harnesses.
#pragma once
#include "mc.hpp"
#include "simk.hpp"
#include "frnetlib/Socket.h"
#include "frnetlib/TcpSocket.h"
#include <cerrno>
#include <csignal>

using Status = fr::Socket::Status;
inline std::string sname(Status s)
{
    static const char *n[] = {"Unknown", "Success", "ListenFailed", "BindFailed", "Disconnected", "Error", "WouldBlock", "ConnectionFailed", "HandshakeFailed",
        "VerificationFailed", "MaxPacketSizeExceeded", "NotEnoughData", "ParseError", "HttpHeaderTooBig", "HttpBodyTooBig", "AddressLookupFailure", "SendError",
        "ReceiveError", "AcceptError", "SSLError", "NoRouteToHost", "Timeout"};
    int i = (int) s;
    return i >= 0 && i < 22 ? n[i] : "status " + std::to_string(i);
}
// a byte pattern without short periods
inline std::string pattern(size_t n, unsigned salt = 0)
{
    std::string s(n, 0);
    unsigned x = 12345 + salt * 7919;
    for(size_t i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s[i] = (char) (x >> 16); }
    return s;
}
// TcpSocket attached to a simulated, connected descriptor
inline void attach(fr::Socket &s, const simk::FileP &f)
{
    int32_t fd = f->fd;
    s.set_descriptor(&fd);
}
inline std::string N(long long v) { return std::to_string(v); }
