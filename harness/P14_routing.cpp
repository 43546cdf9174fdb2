// Routing: histories of adding and removing resources and redirects against a longest-prefix model.
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/http/server.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/request.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <memory>
using namespace pion;

static std::string seg(pbt::Src& s) {
    static const char *S[] = {"foo", "bar", "a", "b", "fo", "foobar", "foo-bar", "foo.", "a!", "0", "", "b~", "\xc3\xa9", "ab"};
    return s.chance(9, 10) ? std::string(s.pick(S)) : s.of("ab-./0~", s.choose(4));
}
static std::string path(pbt::Src& s) {
    if (s.chance(1, 16)) return s.pick({std::string(), std::string("/"), std::string("*"), std::string("a/b"), std::string("//")});
    std::string p; size_t n = 1 + s.choose(4); for (size_t i = 0; i < n; ++i) p += "/" + seg(s); if (s.chance(1, 8)) p += "/"; return p;
}
/// request paths are mostly near the registered ones: equal, below, beside or a sibling with a longer name
static std::string request_path(pbt::Src& s, const std::vector<std::string>& known) {
    if (known.empty() || s.chance(1, 4)) return path(s);
    std::string p = s.pick(known);
    switch (s.choose(7)) {
        case 0: return p; case 1: return p + "/"; case 2: return p + "/" + seg(s); case 3: return p + seg(s); case 4: return p + "/" + seg(s) + "/" + seg(s);
        case 5: { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(0, k) + "/" + seg(s); }
        default: return p.substr(0, s.choose(p.size() + 1));
    }
}
static std::string strip(std::string p) { if (!p.empty() && p[p.size() - 1] == '/') p.resize(p.size() - 1); return p; }
/// longest key that is the resource itself or is followed by '/' in it
static const int *longest(const std::map<std::string, int>& m, const std::string& r, size_t *candidates = NULL) {
    const int *best = NULL; size_t len = 0, n = 0;
    for (auto& e : m) { const std::string& k = e.first; if (r.size() < k.size() || r.compare(0, k.size(), k) != 0) continue; if (r.size() != k.size() && r[k.size()] != '/') continue; ++n; if (!best || k.size() >= len) { best = &e.second; len = k.size(); } }
    if (candidates) *candidates = n; return best;
}

struct Fixture : http::server {
    std::function<void()> act;   // what the next handler does to the server
    int got; std::string seen, original; boost::asio::io_service io; tcp::connection_ptr conn; enum { NOT_FOUND = -1, ERROR = -2, BAD = -3, NONE = -4 };
    Fixture() : http::server(0), got(NONE), conn(new tcp::connection(io)) {
        set_not_found_handler([this](const http::request_ptr& r, const tcp::connection_ptr&) { hit(NOT_FOUND, r); });
        set_bad_request_handler([this](const http::request_ptr& r, const tcp::connection_ptr&) { hit(BAD, r); });
        set_error_handler([this](const http::request_ptr& r, const tcp::connection_ptr&, const std::string&) { hit(ERROR, r); });
    }
    void hit(int id, const http::request_ptr& r) { PBT_CHECK(got == NONE, "request was handled twice"); got = id; seen = r->get_resource(); original = r->get_original_resource(); if (act) { std::function<void()> a; a.swap(act); a(); } }
    void add(const std::string& p, int id) { add_resource(p, [this, id](const http::request_ptr& r, const tcp::connection_ptr&) { hit(id, r); if (id % 7 == 6) { got = NONE; throw std::runtime_error("handler fails"); } }); }
    int request(const std::string& p) { http::request_ptr r(new http::request); r->set_resource(p); r->set_is_valid(true); got = NONE; handle_request(r, conn, boost::system::error_code()); return got; }
    bool has(const std::string& p) { request_handler_t h; return find_request_handler(p, h); }
};

static void http_history(pbt::Src& s, pbt::Case& c) {
    Fixture f; std::map<std::string, int> m; std::map<std::string, std::string> red; std::vector<std::string> known; std::string log; int next = 1; size_t asked = 0, max_cand = 0; bool redirected = false, failing = s.chance(1, 6);
    size_t ops = 3 + s.choose(20);
    for (size_t o = 0; o < ops; ++o) switch (s.weighted({6, 2, 2, 8, 1})) {
        case 0: { std::string p = known.empty() || s.chance(2, 3) ? path(s) : request_path(s, known); if (!failing && next % 7 == 6) ++next; f.add(p, next); m.insert(std::make_pair(strip(p), next)); ++next; known.push_back(strip(p)); log += " +" + p; break; }
        case 1: { std::string p = known.empty() ? path(s) : request_path(s, known); f.remove_resource(p); m.erase(strip(p)); log += " -" + p; break; }
        case 2: {
            if (s.chance(1, 5)) { // a chain
                size_t n = 1 + s.choose(14); std::string a = "/r" + std::to_string(o); red.insert(std::make_pair(a + ".0", a + ".1")); f.add_redirect(a + ".0", a + ".1"); known.push_back(a + ".0");
                for (size_t i = 1; i < n; ++i) { std::string x = a + "." + std::to_string(i), y = i + 1 == n ? strip(request_path(s, known)) : a + "." + std::to_string(i + 1); f.add_redirect(x, y); red.insert(std::make_pair(strip(x), strip(y))); } log += " chain" + std::to_string(n); break; }
            std::string a = request_path(s, known), b = request_path(s, known); f.add_redirect(a, b); red.insert(std::make_pair(strip(a), strip(b))); known.push_back(strip(a)); log += " " + a + "=>" + b; break; }
        case 3: {
            std::string p = request_path(s, known); log += " ?" + p; ++asked; std::string r = strip(p); unsigned hops = 0; bool err = false;
            for (auto i = red.find(r); i != red.end(); i = red.find(r)) { if (++hops > 10) { err = true; break; } r = i->second; }
            size_t cand = 0; const int *w = longest(m, r, &cand); max_cand = std::max(max_cand, cand); redirected = redirected || hops;
            int want = err ? (int)Fixture::ERROR : w ? (*w % 7 == 6 ? (int)Fixture::ERROR : *w) : (int)Fixture::NOT_FOUND;
            std::function<void()> after;   // the handler that runs changes the registrations, perhaps its own
            if (s.chance(1, 4)) {
                std::string a = s.flip() ? r : request_path(s, known), b = request_path(s, known); int id = next; if (!failing && id % 7 == 6) id = ++next; ++next; c.label("handler registers");
                switch (s.choose(3)) {
                    case 0: log += "{+" + a + "}"; f.act = [&f, a, id] { f.add(a, id); }; after = [&m, &known, a, id] { m.insert(std::make_pair(strip(a), id)); known.push_back(strip(a)); }; break;
                    case 1: log += "{-" + a + "}"; f.act = [&f, a] { f.remove_resource(a); }; after = [&m, a] { m.erase(strip(a)); }; break;
                    default: log += "{" + a + "=>" + b + "}"; f.act = [&f, a, b] { f.add_redirect(a, b); }; after = [&red, &known, a, b] { red.insert(std::make_pair(strip(a), strip(b))); known.push_back(strip(a)); };
                }
            }
            int got = f.request(p); bool there = w != NULL; PBT_CHECK(!f.act, "no handler ran for " << p << " after" << log); 
            PBT_EQ(got, want, "handler for " << p << (hops ? " (redirected to " + r + ")" : std::string()) << " after" << log);
            PBT_EQ(f.original, p, "original resource"); if (!err) PBT_EQ(f.seen, hops ? r : p, "resource seen by the handler after" << log);
            if (after) { after(); there = longest(m, r) != NULL; } PBT_EQ(f.has(r), there, "find_request_handler after" << log); break; }
        case 4: if (s.chance(1, 4)) { f.clear(); m.clear(); log += " clear"; } break;
    }
    c.note("history" + log); c.key(log); c.nontrivial(asked >= 2 && m.size() >= 2); if (redirected) c.label("redirected"); if (max_cand > 1) c.label("several candidates"); if (!asked) c.label("no request");
}

/// services of a plugin_server are routed and told their resource the same way
struct Service : http::plugin_service { int id; int *out; std::string *res; Service(int i, int *o, std::string *r) : id(i), out(o), res(r) {} void operator()(const http::request_ptr& r, const tcp::connection_ptr&) { *out = id; *res = get_resource() + "|" + get_relative_resource(r->get_resource()); } };
struct PFixture : http::plugin_server {
    int got; std::string res; boost::asio::io_service io; tcp::connection_ptr conn;
    PFixture() : http::plugin_server(0), got(0), conn(new tcp::connection(io)) { set_not_found_handler([this](const http::request_ptr&, const tcp::connection_ptr&) { got = -1; }); }
    void ask(const std::string& p) { http::request_ptr r(new http::request); r->set_resource(p); r->set_is_valid(true); got = 0; res.clear(); handle_request(r, conn, boost::system::error_code()); }
};
static void services(pbt::Src& s, pbt::Case& c) {
    PFixture f; std::map<std::string, int> m; std::map<int, std::string> where; std::vector<std::string> known; std::string log; int next = 1; size_t n = 1 + s.choose(8), asked = 1 + s.choose(8);
    for (size_t i = 0; i < n; ++i) { std::string p = known.empty() || s.chance(2, 3) ? path(s) : request_path(s, known); if (m.count(strip(p)) || strip(strip(p)) != strip(p)) continue; f.add_service(p, new Service(next, &f.got, &f.res)); m[strip(p)] = next; where[next] = strip(p); ++next; known.push_back(strip(p)); log += " +" + p; }
    for (size_t i = 0; i < asked; ++i) {
        std::string p = request_path(s, known), r = strip(p); log += " ?" + p; const int *w = longest(m, r); f.ask(p); PBT_EQ(f.got, w ? *w : -1, "service for " << p << " after" << log);
        if (w) { std::string base = where[*w]; std::string rel = p.size() <= base.size() ? std::string() : p.size() > base.size() && p[base.size()] == '/' ? p.substr(base.size() + 1) : std::string(); PBT_EQ(f.res, base + "|" + rel, "resource and relative resource for " << p << " after" << log); }
    }
    c.note("services" + log); c.key(log); c.nontrivial(m.size() >= 2);
}

struct Obj { int id; explicit Obj(int i) : id(i) {} };
static void manager(pbt::Src& s, pbt::Case& c) {
    plugin_manager<Obj> pm; std::map<std::string, int> m; std::vector<std::string> known; std::string log; int next = 1; size_t asked = 0, most = 0; size_t ops = 3 + s.choose(20);
    for (size_t o = 0; o < ops; ++o) switch (s.weighted({6, 2, 8, 1, 1})) {
        case 0: { std::string p = known.empty() || s.chance(2, 3) ? path(s) : request_path(s, known); if (m.count(p)) break; pm.add(p, new Obj(next)); m[p] = next++; known.push_back(p); log += " +" + p; break; }
        case 1: { std::string p = known.empty() ? path(s) : s.pick(known); bool ok = true; try { pm.remove(p); } catch (error::plugin_not_found&) { ok = false; } PBT_EQ(ok, m.erase(p) == 1, "remove " << p); log += " -" + p; break; }
        case 2: { std::string p = request_path(s, known); ++asked; log += " ?" + p; size_t cand = 0; const int *w = longest(m, p, &cand); most = std::max(most, cand); Obj *g = pm.find(p); PBT_EQ(g ? g->id : 0, w ? *w : 0, "find " << p << " after" << log);
            Obj *e = pm.get(p); PBT_EQ(e ? e->id : 0, m.count(p) ? m[p] : 0, "get " << p); break; }
        case 3: if (!known.empty()) { std::string p = s.pick(known); if (m.count(p)) { pm.replace(p, new Obj(next)); m[p] = next++; log += " *" + p; } } break;
        case 4: { uint64_t sum = 0; for (auto& e : m) sum += e.second; PBT_EQ(pm.get_statistic([](const Obj *x) { return (boost::uint64_t)x->id; }), sum, "statistic"); PBT_EQ(pm.empty(), m.empty(), "empty"); std::vector<int> seen; pm.run([&](Obj *x) { seen.push_back(x->id); }); PBT_EQ(seen.size(), m.size(), "run"); if (s.chance(1, 6)) { pm.clear(); m.clear(); log += " clear"; } break; }
    }
    c.note("manager" + log); c.key(log); c.nontrivial(asked >= 2 && m.size() >= 2); if (most > 1) c.label("several candidates");
}

/// resources that stay registered are found at all times while others come and go
static void concurrent(pbt::Src& s, pbt::Case& c) {
    struct F2 : http::server { boost::asio::io_service io; tcp::connection_ptr conn; F2() : http::server(0), conn(new tcp::connection(io)) {} using http::server::handle_request; using http::server::find_request_handler; } f; std::vector<std::string> stable; size_t n = 1 + s.choose(5);
    std::map<std::string, int> m; for (size_t i = 0; i < n; ++i) { std::string p = "/s" + std::to_string(i % 3) + (s.flip() ? "/x" : ""); m.insert(std::make_pair(p, (int)i + 1)); } thread_local static int hit; int *dummy = &hit; (void)dummy;
    for (auto& e : m) { int id = e.second; f.add_resource(e.first, [id](const http::request_ptr&, const tcp::connection_ptr&) { hit = id; }); stable.push_back(e.first); }
    for (auto& e : m) f.add_redirect("/to" + e.first, e.first);
    f.set_not_found_handler([](const http::request_ptr&, const tcp::connection_ptr&) { hit = -1; }); f.set_error_handler([](const http::request_ptr&, const tcp::connection_ptr&, const std::string&) { hit = -2; });
    std::atomic<bool> stop(false); std::atomic<int> bad(0), bad_id(0), done(0); std::vector<boost::thread> t; size_t readers = 1 + s.choose(3), writers = 1 + s.choose(2), rounds = 20 + s.choose(200);
    for (size_t r = 0; r < readers; ++r) t.push_back(boost::thread([&, r] { tcp::connection_ptr conn(new tcp::connection(f.io)); for (size_t i = 0; !stop || i < 5; ++i) { const std::string& p = stable[(i + r) % stable.size()]; http::request_ptr q(new http::request((i % 2 ? "/to" : "") + p)); q->set_is_valid(true); hit = 0; f.handle_request(q, conn, boost::system::error_code()); if (hit != m[p]) { bad_id = hit; ++bad; } ++done; } }));
    std::vector<boost::thread> w; for (size_t k = 0; k < writers; ++k) w.push_back(boost::thread([&, k] { for (size_t i = 0; i < rounds; ++i) { std::string p = "/w" + std::to_string(k) + "/" + std::to_string(i % 7); f.add_resource(p, [](const http::request_ptr&, const tcp::connection_ptr&) { hit = -3; }); if (i % 3) f.remove_resource(p); f.add_redirect("/q" + std::to_string(k) + "." + std::to_string(i), "/q"); } }));
    for (auto& x : w) x.join(); stop = true; for (auto& x : t) x.join(); c.note(std::to_string(readers) + " readers, " + std::to_string(writers) + " writers, " + std::to_string(rounds) + " rounds, " + std::to_string(done) + " requests"); c.nontrivial(); PBT_EQ((int)bad, 0, "requests routed to " << bad_id);
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P14"; cfg.level = "exploration";
    cfg.rule = "history with at least two registered resources and two requests; distinct by history";
    cfg.assumptions = {"one trailing slash of a resource or request is insignificant to the HTTP server", "redirects apply to exact resources; more than ten in a row are answered by the error handler"};
    cfg.subs = {{"http_history", http_history, 40000, 1500000, 20, 3, 3, 0}, {"services", services, 20000, 400000, 20, 3, 3, 0}, {"manager", manager, 60000, 3000000, 20, 3, 3, 0}, {"concurrent", concurrent, 400, 8000, 60, 5, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
