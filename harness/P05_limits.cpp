// Size limits and malformed input: exactly the over-long / ill-formed messages are refused, with the matching error.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;
typedef http::parser P;

struct Verdict { boost::tribool r; boost::system::error_code ec; size_t at; };

static Verdict feed(P& p, http::message& g, const std::string& t, const std::vector<size_t>& cut) {
    Verdict v; v.r = boost::indeterminate; size_t pos = 0; v.at = 0;
    for (size_t e : cut) {
        std::unique_ptr<char[]> frag(new char[e - pos]); memcpy(frag.get(), t.data() + pos, e - pos);
        p.set_read_buffer(frag.get(), e - pos); pos = e;
        v.r = p.parse(g, v.ec); v.at = e - p.bytes_available();
        if (!boost::indeterminate(v.r)) break;
        PBT_CHECK(!v.ec, "error code set without failure");
    }
    return v;
}
static std::unique_ptr<http::message> make(bool req) { return std::unique_ptr<http::message>(req ? (http::message*)new http::request : (http::message*)new http::response("GET")); }

static std::vector<size_t> big_cuts(pbt::Src& s, size_t n) {
    std::vector<size_t> c; size_t p = 0; size_t mode = s.choose(3);
    while (p < n) { size_t k = mode == 0 ? n : mode == 1 ? 1 + s.choose(n) : 4096 + s.choose(60000); p = std::min(n, p + k); c.push_back(p); }
    return c;
}

static void limits(pbt::Src& s, pbt::Case& c) {
    struct L { const char *name; size_t max; int err; bool req; };
    static const L ls[] = {
        {"method", 1024, P::ERROR_METHOD_SIZE, true}, {"resource", 256 * 1024, P::ERROR_URI_SIZE, true}, {"query", 1024 * 1024, P::ERROR_QUERY_SIZE, true},
        {"header name", 1024, P::ERROR_HEADER_NAME_SIZE, true}, {"header value", 1024 * 1024, P::ERROR_HEADER_VALUE_SIZE, true},
        {"status message", 1024, P::ERROR_STATUS_CHAR, false}, {"response header name", 1024, P::ERROR_HEADER_NAME_SIZE, false}, {"response header value", 1024 * 1024, P::ERROR_HEADER_VALUE_SIZE, false},
        {"footer name", 1024, P::ERROR_HEADER_NAME_SIZE, true}, {"footer value", 1024 * 1024, P::ERROR_HEADER_VALUE_SIZE, true},
    };
    size_t w = s.weighted({6, 1, 1, 6, 1, 6, 6, 1, 6, 1}); const L& l = ls[w];
    size_t n = s.chance(3, 4) ? l.max - 2 + s.choose(5) : s.chance(1, 2) ? 1 + s.choose(l.max) : l.max + 1 + s.choose(2000);
    std::string x = s.blob(n, "abcdefgh"); std::string t; bool nospace = s.flip();
    switch (w) {
        case 0: t = x + " / HTTP/1.1\r\n\r\n"; break;
        case 1: t = "GET " + x + " HTTP/1.1\r\n\r\n"; break;
        case 2: t = "GET /?" + x + " HTTP/1.1\r\n\r\n"; break;
        case 3: t = "GET / HTTP/1.1\r\nA: b\r\n" + x + ": v\r\n\r\n"; break;
        case 4: t = "GET / HTTP/1.1\r\nX:" + std::string(nospace ? "" : " ") + x + "\r\n\r\n"; break;
        case 5: t = "HTTP/1.1 204 " + x + "\r\n\r\n"; break;
        case 6: t = "HTTP/1.1 204 OK\r\n" + x + ": v\r\n\r\n"; break;
        case 7: t = "HTTP/1.1 204 OK\r\nX:" + std::string(nospace ? "" : " ") + x + "\r\n\r\n"; break;
        case 8: t = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nz\r\n0\r\n" + x + ": v\r\n\r\n"; break;
        default: t = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nz\r\n0\r\nX: " + x + "\r\n\r\n"; break;
    }
    std::ostringstream d; d << l.name << " of " << n << " bytes (limit " << l.max << ")"; c.note(d.str()); c.key(d.str()); c.label(l.name); c.label(n <= l.max ? "within" : "beyond");
    c.nontrivial(n + 3 >= l.max);
    P p(l.req); auto g = make(l.req);
    Verdict v = feed(p, *g, t, big_cuts(s, t.size()));
    if (n <= l.max) { PBT_CHECK(v.r == true, "rejected within the limit: " << hg::tri(v.r) << " " << v.ec.message()); }
    else { PBT_CHECK(v.r == false, "accepted beyond the limit: " << hg::tri(v.r)); PBT_EQ(v.ec.value(), l.err, "error value (" << v.ec.message() << ")"); }
}

static char bad_from(pbt::Src& s, const std::string& set) { return set[s.choose(set.size())]; }
static std::string controls(const std::string& except) { std::string r; for (int i = 0; i < 32; ++i) if (except.find((char)i) == std::string::npos) r += (char)i; r += '\x7f'; return r; }

static void malformed(pbt::Src& s, pbt::Case& c) {
    static const std::string specials = "()<>@,;:\\\"/[]?={}\t", high = "\x80\xff\xc3";
    std::string t; int err = 0; bool req = true; std::string what;
    std::string pre; size_t nh = s.choose(3); for (size_t i = 0; i < nh; ++i) pre += "X-" + hg::token(s, 5) + ": " + hg::header_value(s) + "\r\n";
    auto hurt = [&](std::string base, char b) { size_t p = s.choose(base.size() + 1); base.insert(p, 1, b); return base; };
    switch (s.choose(15)) {
        case 0: { what = "method character"; err = P::ERROR_METHOD_CHAR; t = "G" + hurt("ET", bad_from(s, controls("") + specials + high)) + " / HTTP/1.1\r\n\r\n"; break; }
        case 1: { what = "first method character"; err = P::ERROR_METHOD_CHAR; t = std::string(1, bad_from(s, controls("\r\n") + specials + high)) + "GET / HTTP/1.1\r\n\r\n"; break; }
        case 2: { what = "resource character"; err = P::ERROR_URI_CHAR; t = "GET /" + hurt("abc", bad_from(s, controls("\r\n"))) + " HTTP/1.1\r\n\r\n"; break; }
        case 3: { what = "query character"; err = P::ERROR_QUERY_CHAR; t = "GET /?" + hurt("a=b", bad_from(s, controls("\r\n"))) + " HTTP/1.1\r\n\r\n"; break; }
        case 4: { what = "protocol name"; err = P::ERROR_VERSION_CHAR; std::string v = "HTTP/"; size_t p = s.choose(5); char b; do { b = (char)s.byte(); } while (b == v[p] || (p == 0 && (b == '\r' || b == '\n'))); v[p] = b; req = s.flip(); t = req ? "GET / " + v + "1.1\r\n\r\n" : v + "1.1 200 OK\r\n\r\n"; break; }
        case 5: { what = "version number"; err = P::ERROR_VERSION_CHAR; char b; do { b = (char)s.byte(); } while (isdigit((unsigned char)b) || b == '.' || b == ' ' || b == '\r' || b == '\n'); req = s.flip(); std::string v = s.pick({std::string(1, b) + ".1", "1" + std::string(1, b) + "1", "1." + std::string(1, b), "1.1" + std::string(1, b)}); t = req ? "GET / HTTP/" + v + "\r\n\r\n" : "HTTP/" + v + " 200 OK\r\n\r\n"; break; }
        case 6: { req = false; what = "empty version"; err = P::ERROR_VERSION_EMPTY; t = s.flip() ? "\r\n\r\n" : "\n\n"; break; }
        case 7: { req = false; what = "empty status"; err = P::ERROR_STATUS_EMPTY; t = std::string("HTTP/1.1") + (s.flip() ? "\r\n" : "\n") + "X: y\r\n\r\n"; break; }
        case 8: { req = false; what = "status character"; err = P::ERROR_STATUS_CHAR; char b; do { b = (char)s.byte(); } while (isdigit((unsigned char)b) || b == ' ' || b == '\r' || b == '\n'); t = "HTTP/1.1 " + s.pick({std::string(1, b) + "00", "2" + std::string(1, b) + "0", "200" + std::string(1, b)}) + " OK\r\n\r\n"; break; }
        case 9: { req = false; what = "reason character"; err = P::ERROR_STATUS_CHAR; t = "HTTP/1.1 200 " + hurt("OK", bad_from(s, controls("\r\n"))) + "\r\n\r\n"; break; }
        case 10: { req = s.flip(); what = "header name character"; err = P::ERROR_HEADER_CHAR; std::string set = controls("\r\n\t") + "()<>@,;\\\"/[]?={}" + high; bool first = s.flip(); if (!first) set += " \t\r\n"; std::string n = first ? std::string(1, bad_from(s, set)) + "bc" : "a" + hurt("bc", bad_from(s, set)); t = (req ? std::string("GET / HTTP/1.1\r\n") : std::string("HTTP/1.1 200 OK\r\n")) + pre + n + ": v\r\n\r\n"; break; }
        case 11: { req = s.flip(); what = "header value character"; err = P::ERROR_HEADER_CHAR; std::string v = hurt("abc", bad_from(s, controls("\r\n\t"))); t = (req ? std::string("GET / HTTP/1.1\r\n") : std::string("HTTP/1.1 200 OK\r\n")) + pre + "X:" + (s.flip() ? " " : "") + v + "\r\n\r\n"; break; }
        case 12: { req = s.flip(); what = "content length"; err = P::ERROR_INVALID_CONTENT_LENGTH; static const char *L[] = {"-1", "abc", "5x", "x5", "1 2", "+5", "0x10", "", " ", "1.5", "18446744073709551616", "18446744073709551615", "-0", "99999999999999999999999999", "5,5", "\xb2", "--5"}; std::string v = s.pick(L); what += " " + v; t = (req ? std::string("POST / HTTP/1.1\r\n") : std::string("HTTP/1.1 200 OK\r\n")) + pre + "Content-Length: " + v + "\r\n\r\nhello"; break; }
        case 13: { what = "chunk size character"; err = P::ERROR_CHUNK_CHAR; char b; do { b = (char)s.byte(); } while (isxdigit((unsigned char)b) || strchr(" \t\r\n;", b)); std::string sz = s.pick({std::string(1, b), "5" + std::string(1, b), "5 " + std::string(1, b), "5\r" + std::string(1, b)}); t = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n" + pre + "\r\n"; if (s.flip()) t += "3\r\nabc\r\n"; t += sz + "\r\nhello\r\n0\r\n\r\n"; break; }
        default: { what = "chunk end"; err = P::ERROR_CHUNK_CHAR; size_t n = s.range(1, 30); std::string data = s.blob(n, "abc"); char h[8]; snprintf(h, 8, "%zx", n); std::string end = s.pick({std::string("x"), std::string("\n"), std::string("\rx"), std::string("\r\r")}); t = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + std::string(h) + "\r\n" + data + end + "0\r\n\r\n"; break; }
    }
    c.note(what + ": " + pbt::show(t, 300)); c.key(t); c.label(what.substr(0, 22)); c.nontrivial();
    P p(req); auto g = make(req); Verdict v = feed(p, *g, t, hg::cuts(s, t.size()));
    PBT_CHECK(v.r == false, "malformed " << what << " not refused: " << hg::tri(v.r));
    PBT_EQ(v.ec.value(), err, "error value for " << what << " (" << v.ec.message() << ")");
    PBT_CHECK(&v.ec.category() == &P::get_error_category(), "wrong error category");
    PBT_CHECK(!g->is_valid(), "refused message marked valid");
    PBT_EQ((int)g->get_status(), (int)http::message::STATUS_TRUNCATED, "status of a refused message");
}

// numbers on the request/status line are reported as they are or refused, never as another number
static void numbers(pbt::Src& s, pbt::Case& c) {
    auto num = [&]() -> uint64_t { switch (s.choose(4)) { case 0: return s.choose(1000); case 1: return s.choose(70000); case 2: return 65530 + s.choose(800); default: return s.choose(100000000); } };
    uint64_t a = s.chance(1, 2) ? 1 : num(), b = s.chance(1, 2) ? 1 : num(), st = s.chance(1, 3) ? 200 : num(); bool req = s.flip(); if (req && a == 0) a = 1;
    std::string v = "HTTP/" + std::to_string(a) + "." + std::to_string(b);
    std::string t = req ? "GET / " + v + "\r\n\r\n" : v + " " + std::to_string(st) + " OK\r\nContent-Length: 0\r\n\r\n";
    c.note(pbt::show(t)); c.key(t); c.nontrivial(a > 9 || b > 9 || st > 999);
    P p(req); auto g = make(req); Verdict r = feed(p, *g, t, hg::cuts(s, t.size()));
    c.label(hg::tri(r.r));
    if (r.r == true) {
        PBT_EQ((uint64_t)g->get_version_major(), a, "major version"); PBT_EQ((uint64_t)g->get_version_minor(), b, "minor version");
        if (!req) PBT_EQ((uint64_t)dynamic_cast<http::response&>(*g).get_status_code(), st, "status code");
    } else PBT_CHECK(r.r == false && r.ec, "neither accepted nor refused");
    if (a < 1000 && b < 1000 && (req || st < 1000)) PBT_CHECK(r.r == true, "plausible numbers refused: " << r.ec.message());
}

// HTTP/0.9 simple requests
static void simple_requests(pbt::Src& s, pbt::Case& c) {
    std::string res = "/" + s.of("abc/%2", s.len(20)), q = s.flip() ? "?" + s.of("ab=&", s.len(10)) : "", sp = s.flip() ? " " : "";
    std::string t = "GET " + res + q + sp + "\r\n"; c.note(pbt::show(t)); c.key(t); c.nontrivial(); c.label(sp.empty() ? "no space" : "space");
    P p(true); http::request g; Verdict r = feed(p, g, t, hg::cuts(s, t.size()));
    PBT_CHECK(r.r == true, "simple request not accepted: " << hg::tri(r.r) << " " << r.ec.message());
    PBT_EQ(g.get_resource(), res, "resource"); PBT_EQ(g.get_query_string(), q.empty() ? q : q.substr(1), "query");
    PBT_EQ((int)g.get_version_major(), 0, "version"); PBT_EQ((int)g.get_version_minor(), 0, "version");
    PBT_EQ(r.at, t.size(), "bytes consumed"); PBT_CHECK(g.is_valid() && g.get_content_length() == 0, "valid, no content");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.property = "P05"; cfg.level = "exploration";
    cfg.rule = "one element sized at/around its limit in an otherwise valid message; one ill-formed character, number or separator planted in an otherwise valid message; random version/status numbers; HTTP/0.9 requests; all under random cuts. Non-trivial: element within 3 bytes of its limit or beyond, a planted fault, or a multi-digit number";
    cfg.quick_scale = 2;
    cfg.subs = {
        {"limits", limits, 6000, 150000, 20, 3, 2, 0},
        {"malformed", malformed, 250000, 6000000, 10, 3, 2, 0},
        {"numbers", numbers, 150000, 3000000, 10, 3, 2, 0},
        {"simple_requests", simple_requests, 50000, 1000000, 10, 3, 2, 0},
    };
    return pbt::main(argc, argv, cfg);
}
