// BUILD: services
// The bundled services behind a real server: every request is reported exactly as the client made it.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/scheduler.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <EchoService.hpp>
#include <CookieService.hpp>
#include <HelloService.hpp>
#include <LogService.hpp>
#include <AllowNothingService.hpp>
#include <memory>
using namespace pion;
typedef std::pair<std::string, std::string> Term; typedef std::vector<Term> Dict;

static const std::string TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
static std::string token(pbt::Src& s, size_t max) { return s.blob(1 + s.choose(max), TOKEN); }
static std::string pct(pbt::Src& s, const std::string& t) { std::string r; char b[4]; for (unsigned char ch : t) { if (isalnum(ch) || strchr("-_.~", ch)) { if (s.chance(1, 30)) { snprintf(b, sizeof b, "%%%02x", ch); r += b; } else r += ch; } else if (ch == ' ' && s.flip()) r += '+'; else { snprintf(b, sizeof b, s.flip() ? "%%%02X" : "%%%02x", ch); r += b; } } return r; }
static std::string any_text(pbt::Src& s) { switch (s.choose(4)) { case 0: return token(s, 12); case 1: return s.blob(s.choose(12), "abc &=;,%+/?\"'<>"); case 2: { std::string t = s.blob(s.choose(12)); for (auto& ch : t) if (!ch || ch == '\r' || ch == '\n') ch = '.'; return t; } default: return ""; } }
/// no blank at either end, no control characters
static std::string header_text(pbt::Src& s) { std::string t = s.blob(s.choose(20), "abcXYZ019 ;,=\"'<>&:()/\xc3\xa9"); size_t a = t.find_first_not_of(' '); if (a == std::string::npos) return ""; t.erase(0, a); t.resize(t.find_last_not_of(' ') + 1); return t; }
static std::string xml(const std::string& t) { std::string r; for (char ch : t) switch (ch) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break; default: r += ch; } return r; }
static std::string b64(const std::string& s) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16, n = 1; if (i + 1 < s.size()) { v |= (unsigned char)s[i + 1] << 8; ++n; } if (i + 2 < s.size()) { v |= (unsigned char)s[i + 2]; ++n; } for (unsigned k = 0; k < 4; ++k) r += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='; } return r; }

struct Req { std::string method, path, query, body, text, user; Dict headers, queries, cookies; bool v11 = true, close = false; };
struct World {
    single_service_scheduler sched; std::unique_ptr<http::plugin_server> srv; http::auth_ptr auth;
    ~World() { if (srv) srv->stop(false); sched.shutdown(); }
};

static Req make(pbt::Src& s) {
    Req q; q.method = s.pick({"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "X-OTHER"}); q.v11 = !s.chance(1, 6); q.close = !q.v11 || s.chance(1, 12);
    static const char *P[] = {"/echo", "/cookie", "/hello", "/nothing", "/secure", "/moved", "/log"}; q.path = P[s.weighted({8, 4, 1, 1, 3, 2, 1})];
    if (s.chance(1, 4) && q.path != "/moved") { q.path += "/" + token(s, 8); if (s.chance(1, 3)) q.path += "/" + token(s, 5); } if (s.chance(1, 10)) q.path += "/";
    size_t n = s.choose(4); for (size_t i = 0; i < n; ++i) { std::string k = s.chance(1, 4) && i ? q.queries[0].first : token(s, 8), v = any_text(s); if (s.chance(1, 8)) k += s.pick({" ", "&", "=", "<"}); q.queries.push_back({k, v}); q.query += (i ? "&" : "") + pct(s, k) + (v.empty() && s.flip() ? "" : "=" + pct(s, v)); }
    n = s.choose(4); for (size_t i = 0; i < n; ++i) q.headers.push_back({"X-" + (s.chance(1, 4) && i ? q.headers[0].first.substr(2) : token(s, 8)), header_text(s)});
    size_t nc = s.chance(1, 2) ? 1 + s.choose(2) : 0; for (size_t k = 0; k < nc; ++k) { std::string h; size_t m = 1 + s.choose(3); for (size_t i = 0; i < m; ++i) { std::string nm = token(s, 6), v = s.blob(s.choose(8), "abcXYZ019_<&>/()"); if (s.chance(1, 4)) nm += s.blob(1 + s.choose(3), "%&'+!*^ab04"); q.cookies.push_back({nm, v}); h += (i ? s.pick({"; ", ";", ", "}) : "") + nm + "=" + (s.flip() ? v : "\"" + v + "\""); } q.headers.push_back({s.pick({"Cookie", "cookie"}), h}); }
    bool action = q.path.compare(0, 7, "/cookie") == 0 && s.chance(2, 3); Dict form; if (action) { int kind = s.choose(5); form.push_back({"action", kind == 0 ? "delete" : kind == 1 ? "nonsense" : "Add Cookie"}); if (!s.chance(1, 6)) form.push_back({"cookie_name", s.chance(1, 8) ? std::string() : token(s, 6)}); if (!s.chance(1, 6)) form.push_back({"cookie_value", s.chance(1, 8) ? std::string() : s.blob(1 + s.choose(6), "abcXYZ <>&'")}); }
    if (q.method == "POST" || q.method == "PUT" || s.chance(1, 20)) {
        if (action || s.chance(1, 3)) { if (!action) { size_t m = 1 + s.choose(3); for (size_t i = 0; i < m; ++i) form.push_back({token(s, 6), any_text(s)}); } for (auto& f : form) q.body += (q.body.empty() ? "" : "&") + pct(s, f.first) + "=" + pct(s, f.second); q.headers.push_back({"Content-Type", s.pick({"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8"})}); for (auto& f : form) q.queries.push_back(f); }
        else { size_t k = s.chance(1, 8) ? s.choose(30000) : s.choose(60); q.body = s.flip() ? s.blob(k) : s.blob(k, "text \r\n"); if (s.flip()) q.headers.push_back({"Content-Type", s.pick({"text/plain", "application/octet-stream"})}); }
    } else for (auto& f : form) { q.query += (q.query.empty() ? "" : "&") + pct(s, f.first) + "=" + pct(s, f.second); q.queries.push_back(f); }
    if (q.path.compare(0, 7, "/secure") == 0) { q.user = s.pick({"ann", "bob"}); q.headers.push_back({"Authorization", "Basic " + b64(q.user + ":pw-" + q.user)}); }
    if (q.close && (q.v11 || s.flip())) q.headers.push_back({"Connection", "close"});
    bool chunked = q.v11 && !q.body.empty() && s.chance(1, 3); if (chunked) q.headers.push_back({"Transfer-Encoding", "chunked"}); else if (!q.body.empty() || s.chance(1, 5)) q.headers.push_back({"Content-Length", std::to_string(q.body.size())});
    for (size_t i = q.headers.size(); i > 1; --i) std::swap(q.headers[i - 1], q.headers[s.choose(i)]); std::ostringstream o; o << q.method << ' ' << q.path << (q.query.empty() ? "" : "?" + q.query) << " HTTP/1." << q.v11 << "\r\n"; for (auto& h : q.headers) o << h.first << ": " << h.second << "\r\n"; o << "\r\n";
    if (!chunked) o << q.body; else { size_t p = 0; while (p < q.body.size()) { size_t k = 1 + s.choose(std::min<size_t>(q.body.size() - p, 4000)); o << std::hex << k << std::dec << "\r\n" << q.body.substr(p, k) << "\r\n"; p += k; } o << "0\r\n\r\n"; }
    q.text = o.str(); return q;
}

/// the terms, in any order, are the whole of the text
static bool permutation(const std::string& t, size_t p, std::vector<std::string>& left) { if (left.empty()) return p == t.size(); std::set<std::string> tried; for (size_t i = 0; i < left.size(); ++i) { if (t.compare(p, left[i].size(), left[i]) != 0 || !tried.insert(left[i]).second) continue; std::string x = left[i]; left.erase(left.begin() + i); bool ok = permutation(t, p + x.size(), left); left.insert(left.begin() + i, x); if (ok) return true; } return false; }
static const std::string LINK = "?action=delete&cookie_name=";
/// the link to delete a cookie must name it when it is followed
static std::string decoded(const std::string& t) { std::string r; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '%' && i + 2 < t.size() && isxdigit((unsigned char)t[i + 1]) && isxdigit((unsigned char)t[i + 2])) { r += (char)strtol(t.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else if (t[i] == '+') r += ' '; else if (t[i] == '&' || t[i] == '<') return "cut short in " + t; else r += t[i]; } return r; }
struct Reader {
    const std::string& t; size_t p; std::string what;
    void text(const std::string& x) { PBT_CHECK(t.compare(p, x.size(), x) == 0, what << ": " << pbt::show(t.substr(p, x.size() + 20), 300) << " instead of " << pbt::show(x, 300)); p += x.size(); }
    void terms(std::vector<std::string> v, const char *name) { size_t n = 0; std::string all; for (auto& x : v) { n += x.size(); all += x; } PBT_CHECK(t.size() >= p + n && permutation(t.substr(p, n), 0, v), what << ": " << name << " " << pbt::show(t.substr(p, n + 40), 400) << " instead of " << pbt::show(all, 400)); p += n; }
    void end() { PBT_EQ(p, t.size(), what << ": text after the end: " << pbt::show(t.substr(p), 100)); }
};
static std::vector<std::string> lines(const Dict& d) { std::vector<std::string> r; for (auto& x : d) r.push_back(x.first + ": " + x.second + "\r\n"); return r; }

static void check(const Req& q, const net::Response& r, const std::string& hist) {
    std::string first = q.path.substr(1, q.path.find('/', 1) == std::string::npos ? std::string::npos : q.path.find('/', 1) - 1), what = "answer of " + first + " to " + pbt::show(q.text, 600) + " after " + hist; bool echo = first == "echo" || first == "secure" || first == "moved", head = q.method == "HEAD";
    PBT_EQ(r.odd_reason(), std::string(), "status text " << r.reason << what); PBT_EQ(r.status, first == "nothing" ? 405 : 200, what); if (first == "nothing") PBT_EQ(r.header("Allow"), "GET", what); if (echo) PBT_EQ(r.header("Content-Type"), "text/plain", what); if (first == "cookie") PBT_EQ(r.header("Content-Type"), "text/html", what);
    auto query = [&](const char *n) { for (auto& x : q.queries) if (net::Response::low(x.first) == n) return x.second; return std::string(); }; auto has = [&](const char *n) { for (auto& x : q.queries) if (net::Response::low(x.first) == n) return true; return false; };
    std::string act; if (first == "cookie" && has("action")) {
        std::string a = query("action"), n = query("cookie_name"), v = query("cookie_value"), set;
        if (a == "Add Cookie") { if (n.empty() || v.empty()) act = "\n<p>[Error: You must specify a name and value to add a cookie]</p>\n\n"; else { act = "\n<p>[Added cookie " + xml(n) + "=" + xml(v) + "]</p>\n\n"; set = n + "=\"" + v + "\""; } }
        else if (a == "delete") { if (n.empty()) act = "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n"; else { act = "\n<p>[Deleted cookie " + xml(n) + "]</p>\n\n"; set = n + "=\"\""; } } else act = "\n<p>[Error: Unrecognized action]</p>\n\n";
        if (set.empty()) PBT_EQ(r.count("Set-Cookie"), 0u, what); else { PBT_EQ(r.count("Set-Cookie"), 1u, what); std::string h = r.header("Set-Cookie"); PBT_CHECK(h.compare(0, set.size() + 1, set + ";") == 0, what << ": Set-Cookie: " << h); PBT_EQ(h.find("Max-Age=0") != std::string::npos, a == "delete", what << ": Set-Cookie: " << h); PBT_CHECK(h.find("; Path=/") != std::string::npos, what << ": Set-Cookie: " << h); }
    }
    if (head) { PBT_EQ(r.body.size(), 0u, what); return; }
    Reader b = {r.body, 0, what};
    if (first == "hello") { b.text("<html><body>Hello World!</body></html>\r\n\r\n"); b.end(); return; }
    if (first == "nothing") { b.text("<html><body>No, you can't.</body></html>\r\n\r\n"); b.end(); return; }
    if (first == "log") { PBT_CHECK(!r.body.empty(), what); return; }
    if (first == "cookie") {
        std::string shown; for (size_t p = 0;;) { size_t a = r.body.find(LINK, p); if (a == std::string::npos) { shown += r.body.substr(p); break; } a += LINK.size(); size_t e = r.body.find('"', a); PBT_CHECK(e != std::string::npos, what); shown += r.body.substr(p, a - p) + decoded(r.body.substr(a, e - a)); p = e; } Reader b = {shown, 0, what};
        b.text("<html>\n<head>\n<title>Cookie Service</title>\n</head>\n<body>\n\n<h1>Cookie Service</h1>\n" + act); std::vector<std::string> hs, cs; for (auto& h : q.headers) if (net::Response::low(h.first) == "cookie") hs.push_back("<li>Cookie: " + xml(h.second) + "\n");
        if (hs.empty()) b.text("\n<h2>No Cookie Headers</h2>\n\n"); else { b.text("\n<h2>Cookie Headers</h2>\n<ul>\n"); b.terms(hs, "cookie headers"); b.text("</ul>\n\n"); }
        for (auto& k : q.cookies) cs.push_back("<li>" + xml(k.first) + ": " + xml(k.second) + " <a href=\"" + xml(q.path) + LINK + k.first + "\">[Delete]</a>\n");
        if (cs.empty()) b.text("\n<h2>No Cookie Variables</h2>\n\n"); else { b.text("\n<h2>Cookie Variables</h2>\n<ul>\n"); b.terms(cs, "cookies"); b.text("</ul>\n\n"); }
        b.text("\n<h2>Add Cookie</h2>\n<p><form action=\"" + xml(q.path) + "\" method=\"POST\">\nName: <input type=\"text\" name=\"cookie_name\"><br />\nValue: <input type=\"text\" name=\"cookie_value\"><br />\n<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n</form>\n\n\n</body>\n</html>\n"); b.end(); return;
    }
    b.text("[Request Echo]\r\n\r\nRequest method: " + q.method + "\r\nResource originally requested: " + q.path + "\r\nResource delivered: " + (first == "moved" ? "/echo" : q.path) + "\r\nQuery string: " + q.query + "\r\nHTTP version: 1." + (q.v11 ? "1" : "0") + "\r\nContent length: " + std::to_string(q.body.size()) + "\r\n\r\n[Request Headers]\r\n\r\n");
    b.terms(lines(q.headers), "headers"); b.text("\r\n[Query Parameters]\r\n\r\n"); b.terms(lines(q.queries), "query parameters"); b.text("\r\n[Cookie Parameters]\r\n\r\n"); b.terms(lines(q.cookies), "cookies"); b.text("\r\n[POST Content]\r\n\r\n"); if (!q.body.empty()) b.text(q.body + "\r\n\r\n"); if (first == "secure") b.text("[USER Info]\r\n\r\nUser authenticated, username: " + q.user + "\r\n"); b.end();
}

static void services(pbt::Src& s, pbt::Case& c) {
    World w; w.sched.set_num_threads(1 + s.choose(4)); w.srv.reset(new http::plugin_server(w.sched)); w.srv->add_service("/echo", new plugins::EchoService); w.srv->add_service("/cookie", new plugins::CookieService); w.srv->add_service("/hello", new plugins::HelloService); w.srv->add_service("/nothing", new plugins::AllowNothingService); w.srv->add_service("/secure", new plugins::EchoService); w.srv->add_service("/log", new plugins::LogService); w.srv->add_redirect("/moved", "/echo");
    user_manager_ptr um(new user_manager); um->add_user("ann", "pw-ann"); um->add_user("bob", "pw-bob"); w.auth.reset(new http::basic_auth(um)); w.auth->add_restrict("/secure"); w.srv->set_authentication(w.auth); w.srv->start(); unsigned port = w.srv->get_port();
    struct Conn { net::Client cl; std::vector<Req> q; size_t sent = 0, seen = 0, at = 0; }; size_t nc = 1 + s.choose(4), total = 0; std::vector<std::unique_ptr<Conn> > conns; std::string hist;
    for (size_t i = 0; i < nc; ++i) { conns.emplace_back(new Conn); Conn& k = *conns.back(); size_t m = 1 + s.choose(5); for (size_t j = 0; j < m; ++j) { k.q.push_back(make(s)); c.label(k.q.back().path.substr(0, 4)); hist += " " + std::to_string(i) + ":" + k.q.back().method + k.q.back().path + "+" + std::to_string(k.q.back().body.size()); ++total; if (k.q.back().close) break; } PBT_CHECK(k.cl.connect(port), "cannot connect"); c.key(k.q[0].text); }
    c.note(hist); c.nontrivial(total > 1);
    auto take = [&](Conn& k) { while (k.seen < k.sent) { const Req& q = k.q[k.seen]; net::Response r = net::parse(k.cl.in.substr(k.at), q.method == "HEAD", k.cl.eof && k.seen + 1 == k.q.size()); PBT_CHECK(!r.bad, "malformed answer: " << r.why << " to " << pbt::show(q.text, 300)); if (!r.complete) return; check(q, r, hist); k.at += r.used; ++k.seen; } };
    for (;;) {
        std::vector<Conn*> todo; for (auto& k : conns) if (k->seen < k->q.size()) todo.push_back(k.get()); if (todo.empty()) break; Conn& k = *s.pick(todo);
        size_t more = k.q.size() - k.sent; if (more) { size_t n = 1 + s.choose(more); std::string t; while (n--) t += k.q[k.sent++].text; size_t cuts = s.choose(3), p = 0; for (size_t i = 0; i < cuts && p < t.size(); ++i) { size_t n = s.choose(t.size() - p + 1); PBT_CHECK(k.cl.send(t.substr(p, n)), "the connection is closed early: " << hist); p += n; if (s.chance(1, 3)) usleep(100); } PBT_CHECK(k.cl.send(t.substr(p)), "the connection is closed early: " << hist); }
        if (!more || s.flip()) { bool ok = k.cl.wait([&] { take(k); return k.seen >= k.sent; }); PBT_CHECK(ok, "only " << k.seen << " of " << k.sent << " answers arrived" << (k.cl.eof ? " before the connection was closed: " : " in time: ") << pbt::show(k.cl.in.substr(k.at), 200) << " of " << hist); }
    }
    for (auto& k : conns) { if (!k->q.back().close) k->cl.half_close(); PBT_CHECK(k->cl.wait_eof(), "the connection is not closed: " << hist); PBT_EQ(k->cl.in.size(), k->at, "data after the last answer: " << pbt::show(k->cl.in.substr(k->at), 100) << " of " << hist); }
    for (auto& k : conns) k->cl.drop(); w.srv->stop(true); w.srv.reset();
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P33"; cfg.level = "exploration"; cfg.rule = "at least two requests; distinct by the first requests";
    cfg.assumptions = {"names of query parameters, headers and cookies are compared in any order", "loopback TCP; the operating system picks the port"};
    cfg.subs = {{"services", services, 3000, 40000, 40, 5, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
