// HTTP date strings against independent calendar arithmetic, also from several threads at once.
// BUILD: hot
#include "httpgen.hpp"
#include <thread>
#include <atomic>
using namespace pion;

static std::string ref(int64_t t) {
    static const char *W[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}; static const char *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    int64_t days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400), sec = t - days * 86400; int wd = (int)(((days % 7) + 7) % 7);
    int64_t y = 1970, d = days; auto leap = [](int64_t yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
    while (d < 0) { --y; d += leap(y) ? 366 : 365; } while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; ++y; }
    static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0; while (d >= L[m] + (m == 1 && leap(y) ? 1 : 0)) { d -= L[m] + (m == 1 && leap(y) ? 1 : 0); ++m; }
    char b[64]; snprintf(b, 64, "%s, %02d %s %04d %02d:%02d:%02d GMT", W[wd], (int)d + 1, M[m], (int)y, (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60)); return b;
}
static int64_t instant(pbt::Src& s, pbt::Case& c) {
    const int64_t LO = -30610224000LL, HI = 253402300799LL;   // years 1000 to 9999
    switch (s.choose(4)) {
        case 0: c.label("any"); return s.range(LO, HI);
        case 1: { c.label("day boundary"); int64_t d = s.range(LO / 86400 + 1, HI / 86400 - 1); return d * 86400 + s.range(-1, 1); }
        case 2: { c.label("leap day"); int64_t y = s.range(1970, 2400); int64_t d = (y - 1970) * 365 + (y - 1969) / 4 - (y - 1901) / 100 + (y - 1601) / 400; return d * 86400 + s.range(57, 61) * 86400 + s.choose(86400); }
        default: c.label("recent"); return s.range(0, 4102444800LL);
    }
}
static void one(pbt::Src& s, pbt::Case& c) { int64_t t = instant(s, c); c.note(std::to_string(t)); c.key(std::to_string(t)); c.nontrivial(t != 0); PBT_EQ(http::types::get_date_string(t), ref(t), "t=" << t); if (t >= 0) { http::response r; r.set_last_modified(t); PBT_EQ(r.get_header("Last-Modified"), ref(t), "Last-Modified"); } }
static void threads(pbt::Src& s, pbt::Case& c) {
    size_t n = 2 + s.choose(5); std::vector<std::vector<int64_t> > ts(n); std::string k; for (auto& v : ts) for (int i = 0; i < 200; ++i) { v.push_back(instant(s, c)); } k = std::to_string(ts[0][0]) + "," + std::to_string(ts[1][0]); c.note(std::to_string(n) + " threads " + k); c.key(k); c.nontrivial();
    std::atomic<int> go(0); std::vector<std::string> bad(n); std::vector<std::thread> th;
    for (size_t i = 0; i < n; ++i) th.push_back(std::thread([&, i] { ++go; while (go < (int)n) ; for (int64_t t : ts[i]) { std::string g = http::types::get_date_string(t); if (g != ref(t) && bad[i].empty()) bad[i] = g + " for " + ref(t); } }));
    for (auto& t : th) t.join(); for (auto& b : bad) PBT_CHECK(b.empty(), "concurrent result " << b);
}
int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P26"; cfg.level = "exploration"; cfg.rule = "instant other than the epoch; distinct by instant";
    cfg.assumptions = {"years 1000 to 9999 (RFC 1123 dates have four-digit years)", "C locale"};
    cfg.quick_scale = 2;
    cfg.subs = {{"one", one, 300000, 5000000, 20, 3, 3, 0}, {"threads", threads, 1500, 20000, 30, 10, 2, 2}};
    return pbt::main(argc, argv, cfg);
}
