// BUILD: services
// Injection: the same request is made with hostile text and with harmless text in its place; the responses must have
// the same header fields and the same markup.  Surfaces: the server's error pages, authentication, the bundled services.
#include "pbt.hpp"
#include "ask.hpp"
#include <pion/http/plugin_server.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/response_writer.hpp>
#include <FileService.hpp>
#include <EchoService.hpp>
#include <CookieService.hpp>
#include <ftw.h>
#include <dirent.h>
#include <grp.h>
#include <sys/stat.h>
#include <fstream>
using namespace pion;

static std::string g_base; static pid_t g_main;
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static int ch1(const char *p, const struct stat *, int t, struct FTW *) { if (t == FTW_D) chmod(p, 0700); return 0; }
static void rm_tree(const std::string& p) { if (p.compare(0, 11, "/tmp/verif-") == 0) { nftw(p.c_str(), ch1, 16, FTW_PHYS); nftw(p.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); } }

static std::string hostile(pbt::Src& s) {
    static const char *F[] = {"<script>alert(1)</script>", "<b>", "\"", "'", "\" onmouseover=\"x", "' onclick='x", ">", "<", "</p>", "<!--", "-->", "&lt;b&gt;", "&#60;b>", "\r\nX-Injected: 1", "\nX-Injected: 1", "\rX-Injected: 1", "\r\n\r\n<html>", "\r\nSet-Cookie: a=b", "\xc2<b>", "\xe2\x82<b>", "\xf0\x9f\x98<i>", "\xc0\xbc", "\xff<b>", "abc", "/", "=", "+", ";", "&", "<img src=x>", "</strong>", "</title>", "\t", " ", "\r\n ", "\x7f", "\x01", "a b"};
    std::string t; size_t n = 1 + s.choose(4); while (n--) t += s.chance(1, 10) ? s.blob(1 + s.choose(5), "<>\"'&\r\n abc\x80\xc3") : std::string(F[s.choose(sizeof F / sizeof *F)]); return t;
}
static std::string pct(pbt::Src& s, const std::string& t, bool all) { std::string r; char b[4]; for (unsigned char ch : t) { if (isalnum(ch) || (!all && ch > 32 && ch < 127 && !strchr("?#&=+%;", ch))) r += ch; else { snprintf(b, sizeof b, s.flip() ? "%%%02X" : "%%%02x", ch); r += b; } } return r; }
/// as it can stand in a request line: what would end the resource is taken out
static std::string raw(const std::string& t) { std::string r; for (unsigned char ch : t) if (ch > 32 && ch != 127 && !strchr("?#", ch)) r += ch; return r; }
static std::string line(const std::string& t) { std::string r; for (unsigned char ch : t) if (ch >= 32 && ch != 127) r += ch; return r; }
static std::string alpha(const std::string& t) { std::string r; for (unsigned char ch : t) if (ch > 32 && ch < 127) r += ch; return r; }

/// the tags of a page with the names of their attributes, and every stray angle bracket
static std::vector<std::string> markup(const std::string& b) {
    std::vector<std::string> r; size_t i = 0; while (i < b.size()) { if (b[i] == '>') { r.push_back("stray >"); ++i; continue; } if (b[i] != '<') { ++i; continue; }
        size_t p = i + 1; std::string t; if (p < b.size() && (b[p] == '/' || b[p] == '!')) t += b[p++]; while (p < b.size() && isalnum((unsigned char)b[p])) t += tolower(b[p++]); if (t.empty()) t = "(stray <)";
        while (p < b.size() && b[p] != '>') { if (b[p] == '"' || b[p] == '\'') { size_t e = b.find(b[p], p + 1); if (e == std::string::npos) { t += " unterminated"; p = b.size(); break; } p = e + 1; continue; } if (isspace((unsigned char)b[p]) || b[p] == '=') { ++p; continue; } std::string a; while (p < b.size() && !isspace((unsigned char)b[p]) && !strchr("=>\"'", b[p])) a += b[p++]; t += " " + a; } if (p < b.size()) ++p; r.push_back(t); i = p; }
    return r;
}
static std::string unescape(const std::string& b) { std::string r; for (size_t i = 0; i < b.size();) { static const std::pair<const char*, char> E[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}, {"&#39;", '\''}}; bool hit = false; for (auto& e : E) if (b.compare(i, strlen(e.first), e.first) == 0) { r += e.second; i += strlen(e.first); hit = true; break; } if (!hit) r += b[i++]; } return r; }
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : "|") + x; return r; }
/// names the first tag that is not closed as often as it is opened
static std::string unbalanced(const std::vector<std::string>& tags) { std::map<std::string, int> n; for (auto& t : tags) { std::string x = t.substr(0, t.find(' ')); if (x.empty() || x[0] == '!' || x == "br" || x == "hr" || x == "meta" || x == "link" || x == "img" || x == "input" || x == "li" || x == "/li" || x == "p" || x == "/p") continue; if (x[0] == '/') --n[x.substr(1)]; else ++n[x]; } for (auto& e : n) if (e.second) return e.first; return ""; }
static std::string names(const net::Response& r) { std::vector<std::string> v; for (auto& h : r.headers) v.push_back(net::Response::low(h.first)); std::sort(v.begin(), v.end()); return join(v); }

struct Srv : net::Asker<http::plugin_server> {};
static bool refuses(const std::string& text) { http::request q; std::istringstream in(text); boost::system::error_code ec; q.read(in, ec); return (bool)ec; }

static void twins(pbt::Src& s, pbt::Case& c) {
    Srv srv; user_manager_ptr um(new user_manager); um->add_user("ann", "pw"); int kind = s.weighted({4, 3, 3, 3, 5, 2, 3, 3, 4}); std::string h = hostile(s), pre, post, where, method = "GET", extra, body; bool html = true, echo_ascii = false, body_known = true; std::string version = s.chance(1, 5) ? "1.0" : "1.1"; std::string shown = h;
    std::function<std::string(const std::string&)> make; bool in_query = false;
    auto req = [&](const std::string& m, const std::string& target, const std::string& hd = "", const std::string& b = "") { return m + " " + target + " HTTP/" + version + "\r\nHost: h\r\n" + hd + (b.empty() ? "" : "Content-Length: " + std::to_string(b.size()) + "\r\n") + "\r\n" + b; };
    bool all = s.flip(); int qway = s.choose(2); // value in the query or in a form
    auto ask_with = [&](const std::string& path, const std::vector<std::pair<std::string, std::string> >& q, const std::string& hd = "") { std::string e; for (auto& p : q) e += (e.empty() ? "" : "&") + pct(s, p.first, true) + "=" + pct(s, p.second, all); if (qway || method == "HEAD") return req(method, path + "?" + e, hd); return req("POST", path, hd + "Content-Type: application/x-www-form-urlencoded\r\n", e); };
    auto query = [&](const http::request_ptr& q, const char *n) { return q->get_query(n); };
    srv.add_resource("/fail", [&](const http::request_ptr& q, const tcp::connection_ptr&) { throw std::runtime_error("cannot do " + query(q, "x")); });
    srv.add_resource("/forbid", [&](const http::request_ptr& q, const tcp::connection_ptr& t) { http::server::handle_forbidden_request(q, t, "not for " + query(q, "x")); });
    srv.add_resource("/method", [&](const http::request_ptr& q, const tcp::connection_ptr& t) { http::server::handle_method_not_allowed(q, t, q->get_query("x")); });
    srv.add_resource("/head", [&](const http::request_ptr& q, const tcp::connection_ptr& t) { http::response_writer_ptr w(http::response_writer::create(t, *q, boost::bind(&tcp::connection::finish, t))); w->get_response().add_header("X-Given", q->get_query("x")); w->get_response().set_cookie("given", q->get_query("x")); w << "ok"; w->send(); });
    bool cookie_page = false; size_t lis = 0, as = 0; std::function<void(const std::string&)> count;
    switch (kind) {
        case 0: where = "not found page"; shown = raw(h); echo_ascii = true; make = [&](const std::string& x) { return req(method, "/nowhere/" + raw(x)); }; if (raw(h).empty()) return; break;
        case 1: where = "server error page"; echo_ascii = true; make = [&](const std::string& x) { return ask_with("/fail", {{"x", x}}); }; break;
        case 2: where = s.flip() ? "forbidden page (resource)" : "forbidden page (message)"; echo_ascii = true; if (where.find("res") != std::string::npos) { shown = raw(h); make = [&](const std::string& x) { return req("GET", "/forbid/" + raw(x)); }; } else make = [&](const std::string& x) { return ask_with("/forbid", {{"x", x}}); }; break;
        case 3: if (s.flip()) { where = "method not allowed page"; make = [&](const std::string& x) { return req("M" + alpha(x), "/method"); }; } else { where = "header of a handler"; html = false; make = [&](const std::string& x) { return ask_with("/head", {{"x", x}}); }; } break;
        case 4: { http::auth_ptr a(new http::cookie_auth(um)); a->add_restrict("/"); int m = s.choose(4); if (m == 3) a->set_option("redirect", "/welcome"); srv.set_authentication(a);
            if (m == 0) { where = "login with redirection"; make = [&](const std::string& x) { return ask_with("/login", {{"user", "ann"}, {"pass", "pw"}, {"url", x}}); }; } else if (m == 1) { where = "logout with redirection"; make = [&](const std::string& x) { return ask_with("/logout", {{"url", x}}); }; } else { where = "failed login"; make = [&](const std::string& x) { return ask_with("/login", {{"user", x}, {"pass", x}, {"url", x}}, "Cookie: pion_session_id=" + line(x) + "\r\n"); }; } break; }
        case 5: { http::auth_ptr a(new http::basic_auth(um)); a->add_restrict("/"); srv.set_authentication(a); where = "unauthorized page"; make = [&](const std::string& x) { return req("GET", "/x/" + raw(x), "Authorization: Basic " + line(x) + "\r\n"); }; break; }
        case 6: where = "echo service"; html = false; body_known = false; srv.add_service("/echo", new plugins::EchoService); make = [&](const std::string& x) { return ask_with("/echo/" + raw(x), {{"x", x}, {x, "y"}}, "X-Q: " + line(x) + "\r\nCookie: a=" + line(x) + "\r\n"); }; break;
        case 7: { where = "cookie service"; cookie_page = true; srv.add_service("/cookie", new plugins::CookieService); int m = s.choose(4); bool hdr = s.flip(); make = [&, m, hdr](const std::string& x) { std::string hd = hdr ? "Cookie: a=" + line(x) + "; " + line(x) + "=b\r\n" : ""; std::string p = "/cookie" + (raw(x).empty() ? "" : "/" + raw(x)); std::vector<std::pair<std::string, std::string> > q; if (m == 0) q = {{"action", "Add Cookie"}, {"cookie_name", "n" + x}, {"cookie_value", x}}; else if (m == 1) q = {{"action", "delete"}, {"cookie_name", x}}; else if (m == 2) q = {{"action", x}}; return q.empty() ? req("GET", p, hd) : ask_with(p, q, hd); }; break; }
        default: { // file service, in a directory of its own
            if (g_base.empty()) g_base = "/tmp/verif-p23-" + std::to_string(g_main) + "-" + std::to_string(getpid()); rm_tree(g_base); PBT_CHECK(mkdir(g_base.c_str(), 0700) == 0, "cannot make " << g_base); mkdir((g_base + "/ro").c_str(), 0700); std::string fn; for (unsigned char ch : h) if (ch != '/' && ch) fn += ch; if (fn.empty() || fn == "." || fn == "..") fn += "<x>"; fn.resize(std::min<size_t>(fn.size(), 100)); h = fn; shown = fn;
            for (auto& n : {h, std::string("abd9")}) std::ofstream((g_base + "/ro/" + n).c_str()) << "x"; for (auto& n : {h, std::string("abd9")}) mkdir((g_base + "/d" + n).c_str(), 0700); chmod((g_base + "/ro").c_str(), 0500);
            plugins::FileService *f = new plugins::FileService; srv.add_service("/files", f); f->set_option("directory", g_base); bool w = s.chance(3, 4); if (w) f->set_option("writable", "true"); f->start(); int m = s.choose(6); static const char *W[] = {"file service: not found", "file service: directory", "file service: create", "file service: failed delete", "file service: outside", "file service: method"}; where = W[m]; bool enc = s.flip(), put = s.flip();
            auto e = [&, enc](const std::string& x) { return enc || raw(x) != x || x.find_first_of("%+") != std::string::npos ? pct(s, x, enc) : x; };
            make = [&, m, e, put](const std::string& x) { switch (m) { case 0: return req("GET", "/files/no" + e(x)); case 1: return req("GET", "/files/d" + e(x)); case 2: return req(put ? "PUT" : "POST", "/files/new" + e(x), "", "data"); case 3: return req("DELETE", "/files/ro/" + e(x)); case 4: return req("GET", "/files/../" + e(x)); default: return req("M" + alpha(x), "/files/x" + e(x)); } }; break; }
    }
    std::string th = make(h), tb = make("abd9"); c.label(where); c.set_note(where + ": " + pbt::show(th, 300)); if (refuses(th)) { c.label("refused by the parser"); return; }
    http::request_ptr qh = Srv::read(th), qb = Srv::read(tb); net::Answer A = srv.ask_request(qh), B = srv.ask_request(qb); c.key(where + th); c.nontrivial(h.find_first_of("<>\"'\r\n&") != std::string::npos);
    PBT_CHECK(B.complete() , "response to the harmless request is malformed: " << B.r.why << " " << pbt::show(B.raw, 300)); PBT_CHECK(A.complete(), "response is malformed: " << A.r.why << " " << pbt::show(A.raw, 400)); PBT_EQ(A.r.used, A.raw.size(), "bytes of the response"); PBT_EQ(A.r.status, B.r.status, "status"); PBT_EQ(A.r.odd_reason(), std::string(), "status text \"" << A.r.reason << "\" of status " << A.r.status); PBT_EQ(A.r.reason, B.r.reason, "status message");
    if (cookie_page || where.find("header of") == 0) { std::string na = names(A.r); auto strip = [](std::string x) { return x; }; PBT_EQ(strip(na), names(B.r), "header fields of the response " << pbt::show(A.raw, 300)); } else PBT_EQ(names(A.r), names(B.r), "header fields of the response " << pbt::show(A.raw, 400));
    PBT_EQ(A.r.header("Content-Type"), B.r.header("Content-Type"), "Content-Type");
    if (!html) return; std::vector<std::string> ma = markup(A.r.body), mb = markup(B.r.body);
    if (method != "HEAD" && A.r.status != 204) PBT_EQ(unbalanced(ma), std::string(), "tag that is not closed on the page " << pbt::show(A.r.body, 900));
    if (cookie_page) { // one item for each cookie header and cookie
        std::map<std::string, int> na, nb; for (auto& t : ma) ++na[t]; for (auto& t : mb) ++nb[t]; auto items = [](const http::request_ptr& q) { return (int)(q->get_headers().count("Cookie") + q->get_cookies().size()); }; auto cookies = [](const http::request_ptr& q) { return (int)q->get_cookies().size(); };
        for (auto& t : na) { if (t.first == "li") PBT_EQ(t.second, items(qh), "items on the page " << pbt::show(A.r.body, 900)); else if (t.first == "a href" || t.first == "/a") PBT_EQ(t.second, cookies(qh), "links on the page " << pbt::show(A.r.body, 900)); else if (t.first == "h2" || t.first == "/h2" || t.first == "ul" || t.first == "/ul") continue; else PBT_EQ(t.second, nb.count(t.first) ? nb[t.first] : 0, "tags " << t.first << " on the page " << pbt::show(A.r.body, 900)); } return; }
    PBT_EQ(join(ma), join(mb), "markup of the page " << pbt::show(A.r.body, 600));
    if (echo_ascii) { bool ascii = true; for (unsigned char ch : shown) if (ch < 32 || ch > 126) ascii = false; if (ascii) PBT_CHECK(unescape(A.r.body).find(shown) != std::string::npos, "the page does not show the text given: " << pbt::show(A.r.body, 600)); }
}

int main(int argc, char **argv) {
    g_main = getpid(); umask(077); pbt::Config cfg; cfg.property = "P23"; cfg.level = "exploration"; cfg.rule = "the text contains characters with a meaning in HTML or line breaks and pion parsed the request; distinct by request";
    cfg.assumptions = {"markup is judged in pages the server generates as HTML; text/plain answers of the echo service only by their header fields", "the target of a redirection is the client's choice and not judged", "cookie attributes after ';' in a cookie value are not judged"};
    cfg.once_per_process = [] { if (geteuid() == 0) { if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) _exit(99); } };
    cfg.subs = {{"twins", twins, 25000, 600000, 30, 3, 3, 0}};
    int rc = pbt::main(argc, argv, cfg); if (DIR *t = opendir("/tmp")) { std::string mine = "verif-p23-" + std::to_string(g_main) + "-"; while (dirent *e = readdir(t)) if (std::string(e->d_name).compare(0, mine.size(), mine) == 0) rm_tree(std::string("/tmp/") + e->d_name); closedir(t); } return rc;
}
