// Authentication: histories of user management, restrictions, logins, time and requests against a model of who may pass.
#include "ask.hpp"
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/algorithm.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <set>
using namespace pion;

// the clock seen by pion (boost's second_clock and the session generator use time())
static std::atomic<long> fake_now(1400000000);
extern "C" time_t time(time_t *t) { time_t v = fake_now; if (t) *t = v; return v; }

static std::string seg(pbt::Src& s) { return s.pick({std::string("secret"), std::string("open"), std::string("a"), std::string("b"), std::string("secrets"), std::string("se"), std::string("secret-1"), std::string("secret."), std::string("admin"), std::string("SECRET"), std::string("")}); }
static std::string path(pbt::Src& s) { if (s.chance(1, 14)) return "/"; std::string p; size_t n = 1 + s.choose(3); while (n--) p += "/" + seg(s); if (s.chance(1, 8)) p += "/"; return p; }
static std::string near(pbt::Src& s, const std::vector<std::string>& known) { if (known.empty() || s.chance(1, 4)) return path(s); std::string p = s.pick(known); if (p.empty()) p = "/"; switch (s.choose(6)) { case 0: return p; case 1: return p + "/"; case 2: return p + "/" + seg(s); case 3: return p + seg(s); case 4: { size_t k = p.rfind('/'); return k == std::string::npos || k == 0 ? p : p.substr(0, k); } default: return p + "/" + seg(s) + "/" + seg(s); } }
static std::string strip(std::string p) { if (!p.empty() && p[p.size() - 1] == '/') p.resize(p.size() - 1); return p; }
static bool covered(const std::set<std::string>& l, const std::string& raw) { std::string r = strip(raw); for (auto& k : l) if (r.compare(0, k.size(), k) == 0 && (r.size() == k.size() || r[k.size()] == '/')) return true; return false; }
static std::string user_name(pbt::Src& s) { return s.pick({std::string("ann"), std::string("bob"), std::string("Ann"), std::string("an"), std::string("b@x y"), std::string("u\xc3\xa9")}); }
static std::string pass_word(pbt::Src& s) { return s.pick({std::string("pw"), std::string("pW"), std::string("p:w"), std::string("p w"), std::string("longer-password"), std::string("pw&x=%41+"), std::string("\xff\x80"), std::string("p")}); }
static std::string b64(const std::string& x) { std::string e; algorithm::base64_encode(x, e); return e; }

struct Server : net::Asker<http::server> {
    int reached; bool has_user; std::string as, path_seen;
    Server() : reached(0), has_user(false) { add_resource("", [this](const http::request_ptr& q, const tcp::connection_ptr& cn) { ++reached; has_user = (bool)q->get_user(); as = has_user ? q->get_user()->get_username() : std::string(); path_seen = q->get_resource(); }); }
    net::Answer put(const std::string& t) { reached = 0; has_user = false; as.clear(); return ask(t); }
};
struct Users { std::map<std::string, std::pair<std::string, int> > m; int gen = 0; };   // name -> password, generation

static void change_user(pbt::Src& s, Users& u, http::auth& a, user_manager& um, std::string& log) {
    std::string n = user_name(s), p = pass_word(s); bool have = u.m.count(n) != 0, direct = s.chance(1, 3); std::string via = direct ? "*" : "";
    switch (s.choose(3)) {
        case 0: PBT_EQ(direct ? um.add_user(n, p) : a.add_user(n, p), !have, "add_user"); if (!have) u.m[n] = std::make_pair(p, ++u.gen); log += " +" + n + ":" + p + via; break;
        case 1: PBT_EQ(direct ? um.update_user(n, p) : a.update_user(n, p), have, "update_user"); if (have) u.m[n].first = p; log += " =" + n + ":" + p + via; break;
        default: PBT_EQ(direct ? um.remove_user(n) : a.remove_user(n), have, "remove_user"); u.m.erase(n); log += " -" + n + via; break;
    }
}
struct Rules { std::set<std::string> restricted, permitted; std::vector<std::string> known; bool protects(const Users& u, const std::string& r) const { return !u.m.empty() && covered(restricted, r) && !covered(permitted, r); } };
static void change_rules(pbt::Src& s, Rules& r, http::auth& a, std::string& log) { bool permit = s.chance(1, 3); std::string p = r.known.empty() || s.flip() ? path(s) : near(s, r.known); if (permit) { a.add_permit(p); r.permitted.insert(strip(p)); log += " permit" + p; } else { a.add_restrict(p); r.restricted.insert(strip(p)); log += " restrict" + p; } r.known.push_back(strip(p)); }

/// credentials of any quality, with the user they prove (or none)
static std::string credentials(pbt::Src& s, const Users& u, const std::vector<std::pair<std::string, std::string> >& old, std::string& who, std::string& what) {
    who.clear(); std::string n, p; bool wrap = true; what = "wrong";
    switch (s.choose(10)) {
        case 0: what = "none"; return "";
        case 1: case 2: case 3: case 4: if (!u.m.empty()) { auto it = u.m.begin(); std::advance(it, s.choose(u.m.size())); n = it->first; p = it->second.first; what = "right"; break; } // fall through
        case 5: if (!old.empty()) { auto& o = old[s.choose(old.size())]; n = o.first; p = o.second; what = "used before"; break; } // fall through
        case 6: n = user_name(s); p = pass_word(s); break;
        case 7: if (!u.m.empty()) { auto it = u.m.begin(); std::advance(it, s.choose(u.m.size())); n = it->first; p = it->second.first; switch (s.choose(5)) { case 0: p += "x"; break; case 1: p.resize(p.size() - 1); break; case 2: p = ""; break; case 3: n += "x"; break; default: std::swap(n, p); } break; } // fall through
        case 8: { what = "malformed"; wrap = false; std::string good = u.m.empty() ? std::string("ann:pw") : u.m.begin()->first + ":" + u.m.begin()->second.first;
            switch (s.choose(9)) { case 0: return "Authorization: Basic \r\n"; case 1: return "Authorization: Basic " + b64(s.of("abc", s.choose(5))) + "\r\n"; case 2: return "Authorization: Basic " + good.substr(0, 3) + "!!\r\n"; case 3: return "Authorization: Digest " + b64(good) + "\r\n"; case 4: return "Authorization: " + b64(good) + "\r\n"; case 5: return "Authorization: Basic " + b64(good + ":x") + "\r\n"; case 6: return "X-Authorization: Basic " + b64(good) + "\r\n"; case 7: return "Authorization: Basic " + b64(":" + good) + "\r\n"; default: return "Authorization: Basic " + s.of("ABab01+/=", s.choose(12)) + "=\r\n"; } }
        default: if (!u.m.empty()) { n = u.m.begin()->first; p = u.m.begin()->second.first + std::string(1, '\0'); break; } n = "ann"; p = "pw";
    }
    (void)wrap; auto it = u.m.find(n); if (it != u.m.end() && it->second.first == p) { who = n; what = "right"; } else if (what == "right") what = "wrong";
    return "Authorization: Basic " + b64(n + ":" + p) + "\r\n";
}

static void basic(pbt::Src& s, pbt::Case& c) {
    user_manager_ptr um(new user_manager); Server f; std::string realm = s.pick({std::string("PION"), std::string("my realm")}); boost::shared_ptr<http::basic_auth> a; if (s.flip()) a.reset(new http::basic_auth(um, realm)); else { a.reset(new http::basic_auth(um)); if (realm != "PION" || s.flip()) { realm += s.pick({"", " 2", "/x"}); a->set_option("realm", realm); } bool threw = false; if (s.chance(1, 10)) { try { a->set_option(s.pick({"Realm", "realms", "", "login"}), "x"); } catch (error::bad_arg&) { threw = true; } PBT_CHECK(threw, "an option that does not exist is accepted"); } } f.set_authentication(a);
    Users u; Rules r; std::vector<std::pair<std::string, std::string> > old; std::string log; size_t ops = 4 + s.choose(30), asked = 0, blocked = 0, stale = 0; std::map<std::string, std::string> red;
    if (s.chance(7, 8)) { size_t n = 1 + s.choose(3); while (n--) { std::string x = user_name(s), p = pass_word(s); if (a->add_user(x, p)) { u.m[x] = std::make_pair(p, ++u.gen); log += " +" + x + ":" + p; } } n = 1 + s.choose(2); while (n--) { std::string p = path(s); a->add_restrict(p); r.restricted.insert(strip(p)); r.known.push_back(strip(p)); log += " restrict" + p; } }
    for (size_t o = 0; o < ops; ++o) switch (s.weighted({4, 2, 14, 1, 1})) {
        case 0: change_user(s, u, *a, *um, log); break;
        case 1: change_rules(s, r, *a, log); break;
        case 3: fake_now += s.pick({1, 60, 299, 301, 700, 100000}); log += " time"; break;
        case 4: { std::string from = strip(near(s, r.known)), to = strip(near(s, r.known)); if (from == to || strip(from) != from || red.count(from) || red.count(to) || to.empty() || strip(to) != to) break; bool used = false; for (auto& e : red) if (e.second == from) used = true; if (used) break; f.add_redirect(from, to); red[from] = to; log += " redirect" + from + ">" + to; break; }
        case 2: {
            std::string p = near(s, r.known), target = red.count(strip(p)) ? red[strip(p)] : p, who, what; if (p.empty()) p = "/"; std::string h = credentials(s, u, old, who, what); bool needs = r.protects(u, target); log += " ?" + p + "(" + what + ")"; c.set_note("history" + log); ++asked; if (needs) ++blocked; if (what == "used before") ++stale;
            net::Answer x = f.put(s.pick({std::string("GET "), std::string("POST "), std::string("HEAD ")}) + p + " HTTP/1.1\r\n" + h + "\r\n"); bool pass = !needs || !who.empty(); PBT_EQ(f.reached, pass ? 1 : 0, "request for " << p << " with " << what << " credentials, " << (needs ? "protected" : "not protected") << ", after" << log);
            if (pass) { PBT_CHECK(x.raw.empty(), "an answer was sent although the handler ran"); if (needs) PBT_EQ(f.as, who, "user of the request"); }
            else { PBT_CHECK(x.complete(), "no complete answer: " << x.r.why); PBT_EQ(x.r.odd_reason(), std::string(), "status text " << x.r.reason); PBT_EQ(x.r.status, 401, "status"); PBT_EQ(x.r.header("WWW-Authenticate"), "Basic realm=\"" + realm + "\"", "challenge"); }
            if (!who.empty()) old.push_back(std::make_pair(who, u.m[who].first)); break; }
    }
    c.set_note("history" + log); c.key(log); c.nontrivial(blocked >= 2); if (stale) c.label("credentials used before"); if (!blocked) c.label("nothing protected was requested"); if (!red.empty()) c.label("redirects");
}

struct Session { std::string user; int gen; long used; bool closed; };
static void cookies(pbt::Src& s, pbt::Case& c) {
    user_manager_ptr um(new user_manager); Server f; std::string login = s.pick({std::string("/login"), std::string("/a/in")}), logout = "/logout", redirect = s.chance(1, 3) ? std::string("/open/welcome") : std::string(); boost::shared_ptr<http::cookie_auth> a(new http::cookie_auth(um, "/login", logout, redirect)); if (login != "/login") a->set_option("login", login); if (s.chance(1, 3)) { logout = s.pick({"/out", "/a/out"}); a->set_option("logout", logout); } if (s.chance(1, 3)) { redirect = s.pick({"", "/open/x"}); a->set_option("redirect", redirect); } if (s.chance(1, 10)) { bool threw = false; try { a->set_option(s.pick({"Login", "realm", "", "log"}), "x"); } catch (error::bad_arg&) { threw = true; } PBT_CHECK(threw, "an option that does not exist is accepted"); } f.set_authentication(a);
    Users u; Rules r; std::string log; std::map<std::string, Session> ses; std::vector<std::string> ids; size_t ops = 4 + s.choose(35), blocked = 0, logins = 0, stale = 0, expired = 0;
    if (s.chance(7, 8)) { size_t n = 1 + s.choose(3); while (n--) { std::string x = user_name(s), p = pass_word(s); if (a->add_user(x, p)) { u.m[x] = std::make_pair(p, ++u.gen); log += " +" + x + ":" + p; } } n = 1 + s.choose(2); while (n--) { std::string p = path(s); a->add_restrict(p); r.restricted.insert(strip(p)); r.known.push_back(strip(p)); log += " restrict" + p; } }
    auto challenge = [&](const net::Answer& x) { PBT_CHECK(x.complete(), "no complete answer: " << x.r.why); PBT_EQ(x.r.odd_reason(), std::string(), "status text " << x.r.reason); if (redirect.empty()) PBT_EQ(x.r.status, 401, "status"); else { PBT_EQ(x.r.status, 302, "status"); PBT_EQ(x.r.header("Location"), redirect, "Location"); } PBT_EQ(x.r.header("Set-Cookie"), "", "cookie set without authentication"); };
    for (size_t o = 0; o < ops; ++o) switch (s.weighted({2, 1, 14, 5, 1, 2})) {
        case 0: change_user(s, u, *a, *um, log); break;
        case 1: change_rules(s, r, *a, log); break;
        case 3: { // login
            std::string n, p; if (!u.m.empty() && s.chance(2, 3)) { auto it = u.m.begin(); std::advance(it, s.choose(u.m.size())); n = it->first; p = it->second.first; if (s.chance(1, 4)) p += s.pick({std::string("x"), std::string("%00"), std::string(" ")}); } else { n = user_name(s); p = pass_word(s); }
            bool good = u.m.count(n) && u.m[n].first == p; std::string url = s.chance(1, 3) ? "/back" : ""; log += " login " + n + (good ? " ok" : " bad"); c.set_note("history" + log);
            net::Answer x = f.put("GET " + login + (s.chance(1, 5) ? "/" : "") + "?user=" + algorithm::url_encode(n) + "&pass=" + algorithm::url_encode(p) + (url.empty() ? "" : "&url=" + url) + " HTTP/1.1\r\n\r\n"); PBT_EQ(f.reached, 0, "login request reached the service"); ++logins;
            if (!good) { challenge(x); break; }
            PBT_CHECK(x.complete(), "no answer to the login"); PBT_EQ(x.r.status, url.empty() ? 204 : 302, "status of login"); if (!url.empty()) PBT_EQ(x.r.header("Location"), url, "Location"); std::string ck = x.r.header("Set-Cookie"); PBT_EQ(x.r.count("Set-Cookie"), 1u, "session cookies"); size_t e = ck.find('='), q = ck.find(';'); PBT_EQ(ck.substr(0, e), "pion_session_id", "cookie name"); std::string id = ck.substr(e + 1, q == std::string::npos ? q : q - e - 1); if (id.size() > 1 && id[0] == '"') id = id.substr(1, id.size() - 2); PBT_CHECK(id.size() >= 20, "session id " << id); PBT_CHECK(!ses.count(id), "session id issued twice"); ses[id] = Session{n, u.m[n].second, fake_now, false}; ids.push_back(id); break; }
        case 4: { if (ids.empty()) break; std::string id = s.pick(ids); log += " logout"; c.set_note("history" + log); net::Answer x = f.put("GET " + logout + " HTTP/1.1\r\nCookie: pion_session_id=" + id + "\r\n\r\n"); PBT_EQ(f.reached, 0, "logout reached the service"); PBT_EQ(x.r.status, 204, "status of logout"); ses[id].closed = true; break; }
        case 5: { long d = s.pick({1, 600, 1800, 3000, 3500, 3700, 5000, 7100, 100000}) + (long)s.choose(7); fake_now += d; log += " +" + std::to_string(d) + "s"; break; }
        case 2: {
            std::string p = near(s, r.known), id, what = "none", who; if (p.empty()) p = "/"; if (strip(p) == login || strip(p) == logout) break; Session *se = NULL;
            switch (s.choose(9)) { case 0: break; case 1: id = s.of("ABCabc012+/=", 28); what = "invented"; break; default: if (!ids.empty()) { id = s.pick(ids); what = "session"; se = &ses[id]; if (s.chance(1, 8)) { id[s.choose(id.size())] ^= 1; se = NULL; what = "changed"; if (ses.count(id)) se = &ses[id]; } } }
            bool needs = r.protects(u, p) && !(redirect.size() && p == redirect);
            if (se) { long idle = fake_now - se->used; if (idle >= 3599 && idle <= 3601) break; bool exists = u.m.count(se->user) && u.m[se->user].second == se->gen; if (se->closed) what = "session ended"; else if (!exists) { what = "session of a removed user"; ++stale; } else if (idle > 3600) { what = "session expired"; ++expired; } else who = se->user; }
            log += " ?" + p + "(" + what + ")"; c.set_note("history" + log); if (needs) ++blocked; bool pass = !needs || !who.empty();
            net::Answer x = f.put("GET " + p + " HTTP/1.1\r\n" + (id.empty() ? "" : "Cookie: " + std::string(s.flip() ? "x=y; " : "") + "pion_session_id=" + id + "\r\n") + "\r\n"); PBT_EQ(f.reached, pass ? 1 : 0, "request for " << p << ", " << (needs ? "protected" : "not protected") << ", cookie: " << what << ", after" << log);
            if (pass && needs) PBT_EQ(f.as, who, "user of the request"); if (!pass) challenge(x); if (needs && se) { if (pass) se->used = fake_now; else se->closed = true; } break; }
    }
    c.set_note("history" + log); c.key(log); c.nontrivial(blocked >= 1 && logins >= 1); if (stale) c.label("session of a removed user"); if (expired) c.label("expired session"); if (!ses.empty()) c.label("sessions"); if (!redirect.empty()) c.label("redirect page");
}

/// session ids cannot be known in advance: servers started at the same instant issue different ones
static void unpredictable(pbt::Src& s, pbt::Case& c) {
    size_t n = 2 + s.choose(4); std::set<std::string> seen; c.note(std::to_string(n) + " servers"); c.key(std::to_string(n) + "/" + std::to_string(s.choose(1000))); c.nontrivial(); fake_now = 1400000000 + (long)s.choose(1000);
    for (size_t i = 0; i < n; ++i) { user_manager_ptr um(new user_manager); um->add_user("ann", "pw"); Server f; f.set_authentication(http::auth_ptr(new http::cookie_auth(um))); for (int k = 0; k < 3; ++k) { net::Answer x = f.put("GET /login?user=ann&pass=pw HTTP/1.1\r\n\r\n"); std::string ck = x.r.header("Set-Cookie"); PBT_CHECK(!ck.empty(), "no session"); PBT_CHECK(seen.insert(ck).second, "the session id " << ck << " follows from the start time of the server"); } }
}

static thread_local std::string as; static thread_local int reached;
/// concurrent logins: every session belongs to the user that logged in; concurrent checks never let anybody else pass
static void concurrent(pbt::Src& s, pbt::Case& c) {
    user_manager_ptr um(new user_manager); size_t n = 2 + s.choose(4), rounds = 5 + s.choose(30); bool use_basic = s.chance(1, 3); for (size_t i = 0; i < n; ++i) um->add_user("u" + std::to_string(i), "p" + std::to_string(i));
    struct Plain : http::server { Plain() : http::server(0) {} using http::server::handle_request; } f; f.add_resource("/x", [](const http::request_ptr& q, const tcp::connection_ptr&) { ++reached; as = q->get_user() ? q->get_user()->get_username() : "?"; });
    http::auth_ptr a(use_basic ? (http::auth*)new http::basic_auth(um) : (http::auth*)new http::cookie_auth(um)); a->add_restrict("/x"); f.set_authentication(a); boost::mutex mx; std::string bad; std::set<std::string> ids; std::atomic<bool> stop(false);
    auto fail = [&](const std::string& w) { boost::mutex::scoped_lock l(mx); if (bad.empty()) bad = w; };
    auto put = [&](boost::asio::io_service& io, const std::string& t) { net::Pair p; net::Client cl(p.fd[1]); p.fd[1] = -1; tcp::connection_ptr conn(new tcp::connection(io)); net::adopt(*conn, p.fd[0]); http::request_ptr q(new http::request); std::istringstream in(t); boost::system::error_code ec; q->read(in, ec); reached = 0; as.clear(); f.handle_request(q, conn, boost::system::error_code()); for (;;) { io.reset(); size_t k = io.poll(); if (!k && io.stopped()) break; if (!k) usleep(100); } conn->close(); while (!cl.eof) cl.read_some(10); return cl.in.empty() ? net::Response() : net::parse(cl.in, false, true); };
    std::vector<boost::thread> t; for (size_t i = 0; i < n; ++i) t.push_back(boost::thread([&, i] {
        boost::asio::io_service io; std::string u = "u" + std::to_string(i), p = "p" + std::to_string(i);
        for (size_t k = 0; k < rounds; ++k) {
            std::string h; if (use_basic) h = "Authorization: Basic " + b64(u + ":" + p) + "\r\n";
            else { net::Response x = put(io, "GET /login?user=" + u + "&pass=" + p + " HTTP/1.1\r\n\r\n"); std::string ck = x.header("Set-Cookie"); ck = ck.substr(0, ck.find(';')); if (ck.empty()) { fail("login of " + u + " refused"); return; } { boost::mutex::scoped_lock l(mx); if (!ids.insert(ck).second) { if (bad.empty()) bad = "session id issued twice: " + ck; return; } } h = "Cookie: " + ck + "\r\n"; }
            put(io, "GET /x HTTP/1.1\r\n" + h + "\r\n"); if (reached != 1) { fail("valid credentials of " + u + " refused"); return; } if (as != u) { fail("request of " + u + " runs as " + as); return; }
            put(io, "GET /x HTTP/1.1\r\n" + std::string(use_basic ? "Authorization: Basic " + b64(u + ":q") + "\r\n" : "Cookie: pion_session_id=none\r\n") + "\r\n"); if (reached) { fail("invalid credentials accepted"); return; }
        } }));
    boost::thread churn([&] { for (size_t k = 0; !stop; ++k) { um->add_user("x" + std::to_string(k % 5), "y"); um->remove_user("x" + std::to_string((k + 2) % 5)); a->add_permit("/p" + std::to_string(k % 50)); fake_now += 1; } });
    for (auto& x : t) x.join(); stop = true; churn.join(); c.note(std::to_string(n) + " threads, " + std::to_string(rounds) + " rounds" + (use_basic ? " basic" : " cookie")); c.key(c.m_note); c.nontrivial(); PBT_CHECK(bad.empty(), bad);
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P13"; cfg.level = "exploration";
    cfg.rule = "history with requests to protected resources (and logins); distinct by history";
    cfg.assumptions = {"without any user, or without restrictions, nothing is protected", "paths are compared as requested (not percent-decoded), segment by segment, after the server's own redirects", "a session expires after an hour without use; its last second is not judged", "changing a password leaves the sessions of the user open"};
    cfg.subs = {{"basic", basic, 4000, 400000, 20, 3, 3, 0}, {"cookies", cookies, 4000, 400000, 20, 3, 3, 0}, {"unpredictable", unpredictable, 200, 4000, 20, 3, 3, 0}, {"concurrent", concurrent, 80, 4000, 60, 5, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
