// C11: a response assembled through the API parses back to the same response.
#include "http_strict.hpp"
static const int STATUS[] = {100, 101, 200, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 422, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 510, 511, 598, 599};
static const Fields HDRS = {{"X-One", "v"}, {"EMPTY", ""}, {"Date", "Mon, 25 Sep 2017 13:51:56 GMT"}, {"Content-Type", "application/json"}, {"CONNECTION", "close"}, {"Location", "http://h/?a:b"}, {"u8", "caf\xc3\xa9\t!"}, {"Set-Cookie", "a=b; Path=/"}, {"Status", "HTTP/1.0 404"}};
static const std::vector<std::string> BODIES = {"", "hello", std::string("\0\xff\r\n\r\n\n\nHTTP/1.1 200 OK\r\n\r\n", 27), "\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", std::string(300, 'z'), "\n"};

static void upto(const Fields &from, int max, Fields &out, const char *what)
{
    size_t i = 0;
    for(int k = 0; k < max; ++k)
    {
        int c = mc::choose((int) (from.size() - i) + 1, what);
        if(c == 0) return;
        i += (size_t) c;
        out.push_back(from[i - 1]);
        if(i == from.size()) return;
    }
}
static bool bodyless(int s) { return s / 100 == 1 || s == 204 || s == 304; }
struct Want { int status = 200; bool set_status = true; Fields headers; std::string body; bool v10 = false, own_length = false; };

static void check(const Want &w, int spelling, bool all_cuts)
{
    fr::HttpResponse r;
    auto sp = [&](const std::string &s) { return spelling == 0 ? s : spelling == 1 ? upper(s) : lower(s); };
    if(w.set_status) r.set_status((fr::Http::RequestStatus) w.status);
    for(auto &a : w.headers) { if(spelling) r.header(a.first) = "overwritten"; r.header(sp(a.first)) = a.second; }
    if(spelling) r.set_body("something else that is replaced");
    r.set_body(w.body);
    if(w.v10) r.set_version(fr::Http::RequestVersion::V1); else if(spelling == 1) r.set_version(fr::Http::RequestVersion::V1_1);
    if(w.own_length) r.header("Content-Length") = std::to_string(w.body.size());
    std::string t = r.construct("peer.example");
    MC_CHECK(r.construct("peer.example") == t, "constructing twice gives different texts");
    Strict s = strict(t, false, w.status);
    std::string ver = w.v10 ? "HTTP/1.0 " : "HTTP/1.1 ";
    MC_CHECK(s.line.compare(0, 9, ver) == 0, "version " + mc::printable(s.line));
    MC_CHECK(s.line.substr(9, 3) == std::to_string(w.status) && (s.line.size() == 12 || s.line[12] == ' '), "status line " + mc::printable(s.line));
    bool conn = false, type = false;
    for(auto &h : w.headers)
    {
        const std::string *v = field(s, h.first);
        MC_CHECK(v && *v == h.second, "header " + h.first + " was " + (v ? "changed to " + mc::printable(*v) : "dropped"));
    }
    conn = field(s, "connection"); type = field(s, "content-type");
    MC_CHECK(conn && type, "a mandatory header is missing: " + mc::printable(t));
    for(auto &f : s.fields)
    {
        bool known = f.first == "content-type" || f.first == "connection" || f.first == "content-length";
        for(auto &h : w.headers) known |= lower(h.first) == f.first;
        MC_CHECK(known, "unexpected header " + mc::printable(f.first));
    }
    if(bodyless(w.status)) MC_CHECK(!field(s, "content-length"), "a content-length in a response that has no body, and nobody asked for it");
    MC_CHECK(s.body == w.body, "the body in the text differs");
    Msg m;
    m.text = t; m.status = w.status; m.v10 = w.v10; m.headers = w.headers; m.body = w.body;
    reparse<fr::HttpResponse>(m, all_cuts);
}

// what the names of the statuses stand for (RFC 9110 and the registry)
static void names()
{
    using S = fr::Http::RequestStatus;
    static const std::pair<S, int> all[] = {{S::Continue, 100}, {S::SwitchingProtocols, 101}, {S::Ok, 200}, {S::Created, 201}, {S::Accepted, 202}, {S::NonAuthorativeInformation, 203}, {S::NoContent, 204}, {S::ResetContent, 205}, {S::PartialContent, 206}, {S::IMUsed, 226}, {S::MultipleChoices, 300}, {S::MovedPermanently, 301}, {S::Found, 302}, {S::SeeOther, 303}, {S::NotModified, 304}, {S::UseProxy, 305}, {S::TemporaryRedirect, 307}, {S::PermanentRedirect, 308}, {S::BadRequest, 400}, {S::Unauthorised, 401}, {S::PaymentRequired, 402}, {S::Forbidden, 403}, {S::NotFound, 404}, {S::MethodNotAllowed, 405}, {S::NotAcceptable, 406}, {S::ProxyAuthenticationRequired, 407}, {S::RequestTimeout, 408}, {S::Conflict, 409}, {S::Gone, 410}, {S::LengthRequired, 411}, {S::PreconditionFailed, 412}, {S::RequestEntityTooLarge, 413}, {S::RequestURITooLong, 414}, {S::UnsupportedMediaType, 415}, {S::RequestedRangeNotSatisfiable, 416}, {S::ExpectationFailed, 417}, {S::ImATeapot, 418}, {S::UnprocessableEntity, 422}, {S::UpgradeRequired, 426}, {S::PreconditionRequired, 428}, {S::TooManyRequests, 429}, {S::RequestHeaderFieldTooLarge, 431}, {S::UnvailableForLegalReasons, 451}, {S::InternalServerError, 500}, {S::NotImplemented, 501}, {S::BadGateway, 502}, {S::ServiceUnavailable, 503}, {S::GatewayTimeout, 504}, {S::HTTPVersionNotSupported, 505}, {S::VariantAlsoNegotiates, 506}, {S::NotExtended, 510}, {S::NetworkAuthenticationRequired, 511}, {S::NetworkReadTimeoutError, 598}, {S::NetworkConnectTimeoutError, 599}};
    auto &one = all[mc::choose((int) (sizeof all / sizeof *all), "status")];
    bool v10 = mc::choose(2, "version");
    fr::HttpResponse r; r.set_status(one.first); if(v10) r.set_version(fr::Http::RequestVersion::V1);
    std::string t = r.construct("h"), number = std::to_string(one.second);
    MC_CHECK(t.compare(0, 12, (v10 ? "HTTP/1.0 " : "HTTP/1.1 ") + number) == 0, "status " + number + " is written as " + mc::printable(t.substr(0, 12)));
    std::string in = "HTTP/1.1 " + number + " Reason\r\nContent-Length: 0\r\n\r\n";
    fr::HttpResponse q; Status st = q.parse(in.data(), in.size());
    MC_CHECK(st == Status::Success && q.get_status() == one.first, "a response with status " + number + " does not have the status of that name");
    mc::outcome((uint64_t) one.second);
}

void mc_register()
{
    mc::add("names", 0, names);
    mc::add("status", 0, [] {
        Want w;
        int c = mc::choose(55, "status");
        if(c == 54) w.set_status = false; else w.status = STATUS[c];
        w.v10 = mc::choose(2, "version");
        w.body = bodyless(w.status) ? "" : BODIES[(size_t) mc::choose((int) BODIES.size(), "body")];
        upto(HDRS, mc::by_tier(1, 2), w.headers, "header");
        w.own_length = bodyless(w.status) ? false : mc::choose(2, "own content-length");
        check(w, mc::choose(2, "spelling"), w.headers.empty() || w.status == 200);
    }, 55, 1);
    mc::add("headers", 0, [] {
        Want w;
        static const int ST[] = {200, 404, 204, 101};
        w.status = ST[mc::choose(4, "status")];
        w.body = bodyless(w.status) ? "" : BODIES[(size_t) mc::choose(3, "body")];
        upto(HDRS, mc::by_tier(4, 6), w.headers, "header");
        if(!bodyless(w.status)) w.own_length = mc::choose(2, "own content-length");
        check(w, mc::choose(3, "spelling"), w.headers.size() <= 2);
    }, 40, 2);
    mc::add("every-size", 0, [] {
        Want w;
        int dim = mc::choose(3, "dimension");
        size_t n = (size_t) mc::choose(mc::by_tier(1200, 3000), "size") + 1;
        if(dim == 0) { w.body = pattern(n - 1, 5); w.own_length = mc::choose(2, "own content-length"); }
        if(dim == 1) w.headers = {{"zz1", "1"}, {plain(n), "v"}, {"zz2", "2"}};
        if(dim == 2) w.headers = {{"zz1", "1"}, {"Name", plain(n)}, {"zz2", "2"}};
        check(w, mc::choose(2, "spelling"), false);
    }, 30, 2);
    mc::add("every-count", 0, [] {
        Want w;
        int n = mc::choose(mc::by_tier(120, 400) + 22, "how many");
        n = n < 22 ? COUNTS[n] : n - 22;
        for(int i = 0; i < n; ++i) w.headers.push_back({"k" + std::to_string(i), std::to_string(i * 7)});
        check(w, mc::choose(2, "spelling"), false);
    }, 16, 1);
    mc::add("large", 0, [] {
        static const size_t S[] = {4096, 9999, 10000, 10001, 16384, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 1048576};
        Want w;
        w.body = pattern(S[mc::choose(13, "body size")], 3);
        check(w, mc::choose(2, "spelling"), false);
    }, 13, 1);
}
