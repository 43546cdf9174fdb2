// URI splitting and X-Forwarded-For.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;

struct FP : http::parser { static bool fwd(const std::string& h, std::string& ip) { return http::parser::parse_forwarded_for(h, ip); } };

static void uri(pbt::Src& s, pbt::Case& c) {
    std::string scheme = s.pick({std::string("http"), std::string("https"), std::string("HTTP"), std::string("HTTPS"), std::string("ftp"), std::string("x-y.z+1"), std::string()});
    bool has_scheme = !scheme.empty();
    std::string host = s.chance(1, 10) ? std::string() : s.of("abc.-019", 1 + s.choose(20));
    std::string port_text; bool has_port = s.flip(), port_ok = true; unsigned port = 0;
    if (has_port) switch (s.choose(4)) {
        case 0: port = s.choose(65536); port_text = std::to_string(port); break;
        case 1: { uint64_t v = s.pick({(uint64_t)0, (uint64_t)1, (uint64_t)80, (uint64_t)65535, (uint64_t)65536, (uint64_t)65616, (uint64_t)131152, (uint64_t)2147483648ULL, (uint64_t)4294967296ULL, (uint64_t)4294967376ULL, (uint64_t)18446744073709551615ULL}); port_text = std::to_string(v); port_ok = v < 65536; port = v; break; }
        case 2: port_text = s.pick({std::string("-1"), std::string("+80"), std::string("8o"), std::string(""), std::string(" 80"), std::string("80 "), std::string("-65456"), std::string("0x50"), std::string("8:0"), std::string("99999999999999999999999")}); port_ok = false; break;
        default: port = s.choose(10000); { char b[16]; snprintf(b, 16, "%05u", port); port_text = b; } break;
    } else port = hg::lower(scheme) == "http" ? 80 : hg::lower(scheme) == "https" ? 443 : 0;
    bool has_path = s.chance(4, 5), has_query = has_path && s.flip(); std::string path = "/", query;
    if (has_path) { size_t n = s.len(40); for (size_t i = 0; i < n; ++i) { unsigned ch = s.chance(3, 4) ? "ab/.:@%"[s.choose(7)] : s.range(33, 255); if (ch == '?') ch = 'q'; path += (char)ch; } if (s.chance(1, 8)) path += "http://x/y"; }
    if (has_query) { query = s.of("ab=&?/:%", s.len(30)); if (s.chance(1, 4)) query += "u=http://h:9/p?q"; }
    std::string u = (has_scheme ? scheme + "://" : "") + host + (has_port ? ":" + port_text : "") + (has_path ? path : "") + (has_query ? "?" + query : "");
    if (!has_scheme && has_port && port_text.empty() && path.compare(0, 2, "//") == 0) throw pbt::Discard();   // reads as a scheme
    c.note(pbt::show(u)); c.key(u); c.nontrivial(has_path || has_port); bool want = !host.empty() && port_ok; c.label(want ? "valid" : host.empty() ? "no host" : "bad port");
    // the outputs hold left-overs of earlier calls
    std::string p = "junk", h = "junk", pa = "junk", q = "junk"; boost::uint16_t po = 4711;
    bool got = http::parser::parse_uri(u, p, h, po, pa, q);
    PBT_EQ(got, want, "acceptance of " << pbt::show(u));
    if (got) { PBT_EQ(p, scheme, "scheme"); PBT_EQ(h, host, "host"); PBT_EQ(po, port, "port"); PBT_EQ(pa, path, "path"); PBT_EQ(q, query, "query"); }
}

static bool is_private(const int *o) { return o[0] == 10 || o[0] == 127 || (o[0] == 192 && o[1] == 168) || (o[0] == 172 && o[1] >= 16 && o[1] <= 31); }
static void forwarded(pbt::Src& s, pbt::Case& c) {
    size_t n = s.choose(6); std::string h, want; bool found = false;
    for (size_t i = 0; i < n; ++i) {
        if (i) h += s.pick({std::string(", "), std::string(","), std::string(" "), std::string(" , ")});
        if (s.chance(1, 5)) { h += s.pick({std::string("unknown"), std::string("::1"), std::string("fe80:1:2"), std::string("a.b.c.d"), std::string("1.2.3"), std::string("-"), std::string("10.0.0")}); continue; }
        int o[4]; for (int k = 0; k < 4; ++k) o[k] = (int)s.choose(256);
        switch (s.choose(8)) { case 0: o[0] = 10; break; case 1: o[0] = 127; break; case 2: o[0] = 192; o[1] = s.pick({167, 168, 169}); break; case 3: o[0] = 172; o[1] = s.range(14, 33); break; case 4: o[0] = s.pick({1, 9, 11, 100, 110, 101, 126, 128, 12, 191, 193, 171, 173}); o[1] = s.pick({0, 16, 168, 20}); break; default: break; }
        char b[32]; snprintf(b, 32, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]); h += b;
        if (!is_private(o)) { c.label("public"); if (!found) { found = true; want = b; } } else c.label("private");
    }
    c.note(h); c.key(h); c.nontrivial(n > 1); std::string ip; bool got = FP::fwd(h, ip);
    PBT_EQ(got, found, "found, header " << h); if (found) PBT_EQ(ip, want, "header " << h);
}
int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P22"; cfg.level = "exploration";
    cfg.rule = "URI with a path or port (forwarded: more than one element); distinct by text";
    cfg.assumptions = {"a query string needs a path before it", "hosts are names or IPv4 addresses", "schemes are spelled all lower or all upper case"};
    cfg.quick_scale = 6;
    cfg.subs = {{"uri", uri, 400000, 6000000, 20, 3, 3, 0}, {"forwarded", forwarded, 100000, 1500000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
