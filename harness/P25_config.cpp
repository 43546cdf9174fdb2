// Service configuration: files rendered from a list of statements (with any blanks, comments, line ends and command case)
// must have exactly the effect of the statements; files with a broken statement must be refused.
#include "ask.hpp"
#include <pion/http/plugin_server.hpp>
#include <pion/http/plugin_service.hpp>
#include <pion/algorithm.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace pion;

typedef std::vector<std::pair<std::string, std::string> > Options;
struct Rec;
static std::vector<Rec*> alive; static int created, destroyed; static std::string hit_resource, hit_kind; static int hits;
struct Rec : http::plugin_service {
    std::string kind; Options opts; bool started; explicit Rec(const std::string& k) : kind(k), started(false) { alive.push_back(this); ++created; }
    ~Rec() { for (size_t i = 0; i < alive.size(); ++i) if (alive[i] == this) { alive.erase(alive.begin() + i); break; } ++destroyed; }
    void operator()(const http::request_ptr&, const tcp::connection_ptr&) { ++hits; hit_resource = get_resource(); hit_kind = kind; }
    void set_option(const std::string& n, const std::string& v) { if (n == "refuse") BOOST_THROW_EXCEPTION(error::bad_arg() << error::errinfo_arg_name(n)); opts.push_back(std::make_pair(n, v)); }
};
template <int N> static http::plugin_service *create() { return new Rec(N == 0 ? "RecA" : N == 1 ? "RecB" : "Rec C"); }
static void destroy(http::plugin_service *p) { delete p; }

static std::string strip(std::string p) { if (!p.empty() && p[p.size() - 1] == '/') p.resize(p.size() - 1); return p; }
static std::string blanks(pbt::Src& s) { return s.chance(2, 3) ? std::string(" ") : s.of(" \t", 1 + s.choose(4)); }
static std::string eol(pbt::Src& s) { return s.pick({std::string("\n"), std::string("\n"), std::string("\n"), std::string("\r\n"), std::string("\r"), std::string("\n\n"), std::string("\n\r\n")}); }
static std::string word(pbt::Src& s) { return s.chance(1, 2) ? s.pick({std::string("a"), std::string("foo"), std::string("x.y"), std::string("#1"), std::string("caf\xc3\xa9"), std::string("service"), std::string("\"q\"")}) : s.of("abcXYZ0129_-./=#\"'\\%\x80\xff", 1 + s.choose(10)); }
static std::string text(pbt::Src& s) { std::string v = word(s); size_t n = s.choose(4); while (n--) v += blanks(s) + word(s); return v; }
static std::string cased(pbt::Src& s, std::string w) { size_t mode = s.choose(4); for (auto& ch : w) if (mode == 1 || (mode == 2 && s.flip())) ch = toupper(ch); return w; }

struct Cred { std::string user, pass; };
struct Want { std::string auth; std::vector<std::string> restricts; std::map<std::string, std::string> users; };

static void config(pbt::Src& s, pbt::Case& c) {
    static int serial; std::string base = pbt::scratch_dir() + "/c" + std::to_string(getpid()) + "_" + std::to_string(serial++); mkdir(base.c_str(), 0700);
    plugin::reset_plugin_directories(); created = destroyed = hits = 0; alive.clear();
    struct Clean { std::string b; std::vector<std::string> d, f; ~Clean() { for (auto& x : f) unlink(x.c_str()); for (auto& x : d) rmdir(x.c_str()); rmdir(b.c_str()); plugin::reset_plugin_directories(); } } cl; cl.b = base;
    std::string body; std::map<std::string, std::pair<std::string, Options> > want; std::vector<std::string> paths; Want au; bool bad = false; std::string why; size_t statements = 0;
    auto say = [&](const std::string& cmd, const std::string& rest) { body += cased(s, cmd) + blanks(s) + rest; ++statements; };
    auto noise = [&] { if (s.chance(1, 6)) body += eol(s); if (s.chance(1, 6)) body += "#" + s.of(" \tabc#=/service", s.choose(20)) + eol(s); };
    noise(); size_t n = s.choose(9); bool breakit = s.chance(1, 4); size_t at = breakit ? s.choose(n + 1) : 0; bool last_open = s.chance(1, 3), more = true;
    for (size_t i = 0; i <= n && !bad; ++i) {
        if (breakit && i == at) {
            bad = true; std::string b = blanks(s), r = want.empty() || s.flip() ? std::string("/never") : s.pick(std::vector<std::string>(1, want.begin()->first));
            switch (s.choose(16)) {
                case 0: why = "unknown command"; say(s.pick({std::string("servic"), std::string("services"), std::string("include"), std::string("pat"), std::string("opt"), std::string("x"), std::string("authz"), std::string("users")}), "/a RecA"); break;
                case 1: why = "leading blank"; body += b + "service /never RecA"; break;
                case 2: why = "command alone"; body += cased(s, s.pick({std::string("path"), std::string("service"), std::string("option"), std::string("auth"), std::string("restrict"), std::string("user")})); break;
                case 3: why = "no service name"; body += "service" + b + "/never" + (s.flip() ? b : ""); break;
                case 4: why = "no option"; body += "option" + b + r + (s.flip() ? b : ""); break;
                case 5: why = "option without ="; body += "option" + b + r + b + "noequal"; break;
                case 6: why = "no path"; body += "path" + b; break;
                case 7: why = "unknown authentication"; body += "auth" + b + s.pick({std::string("digest"), std::string("Basic"), std::string("basi"), std::string("cookies"), std::string("none")}); break;
                case 8: if (!au.auth.empty()) { why = "no password"; body += "user" + b + "joe" + (s.flip() ? b : ""); } else { why = "user before auth"; body += "user" + b + "joe" + b + "pw"; } break;
                case 9: if (!au.auth.empty()) { why = "nothing to restrict"; body += "restrict" + b; } else { why = "restrict before auth"; body += "restrict" + b + "/x"; } break;
                case 10: why = "plug-in not found"; body += "service" + b + "/never" + b + "NoSuchService"; break;
                case 11: if (want.empty()) { why = "option for unknown service"; body += "option" + b + "/never" + b + "a=b"; } else { why = "duplicate resource"; body += "service" + b + want.begin()->first + b + "RecA"; } break;
                case 12: why = "option for unknown service"; body += "option" + b + "/never" + b + "a=b"; break;
                case 13: if (want.empty()) { why = "digit"; body += "9service /never RecA"; } else { why = "option refused by the service"; body += "option" + b + want.begin()->first + b + "refuse=1"; } break;
                case 14: why = "command with digits"; body += "service2" + b + "/never RecA"; break;
                case 15: why = "punctuation"; body += s.pick({std::string("=/a"), std::string("/a RecA"), std::string("\"service\" /a RecA"), std::string("; comment"), std::string("// comment")}); break;
            }
            if (!(last_open && s.flip())) { body += eol(s); noise(); if (s.chance(1, 3)) { body += "service /later RecA" + eol(s); } } else more = false;
            break;
        }
        if (i == n) break;
        switch (s.weighted({5, 5, 2, 2, 2, 2})) {
            case 0: { std::string r = "/" + s.pick({std::string("a"), std::string("b"), std::string("a/b"), std::string("deep/er/path"), std::string("x#y"), std::string("A"), std::string("")}) + (s.chance(1, 5) ? "/" : ""), k = s.pick({std::string("RecA"), std::string("RecB"), std::string("Rec C")}); if (want.count(strip(r)) || strip(strip(r)) != strip(r)) continue; say("service", r + blanks(s) + k); want[strip(r)] = std::make_pair(k, Options()); break; }
            case 1: { if (want.empty()) continue; auto it = want.begin(); std::advance(it, s.choose(want.size())); if (it->first.empty()) { } std::string o = s.pick({std::string("name"), std::string("dir"), std::string("a b"), std::string("x#"), std::string("")}), v = s.chance(1, 6) ? std::string() : text(s); if (o.empty() && s.flip()) o = "o"; say("option", (it->first.empty() ? std::string("/") : it->first + (s.chance(1, 5) ? "/" : "")) + blanks(s) + o + "=" + v); it->second.second.push_back(std::make_pair(o, v)); break; }
            case 2: { bool exists = s.chance(3, 4); std::string d = base + "/" + s.pick({std::string("p"), std::string("q r"), std::string("lib#"), std::string("x=y")}) + std::to_string(i); if (exists) { mkdir(d.c_str(), 0700); cl.d.push_back(d); std::string f = d + "/marker" + std::to_string(paths.size()) + ".so"; std::ofstream(f.c_str()) << "x"; cl.f.push_back(f); paths.push_back(d); } say("path", d); break; }
            case 3: { au = Want(); au.auth = s.flip() ? "basic" : "cookie"; say("auth", au.auth); break; }
            case 4: { if (au.auth.empty()) continue; std::string r = want.empty() || s.chance(1, 4) ? "/" + s.pick({std::string("a"), std::string("b"), std::string("c")}) : want.begin()->first; if (s.chance(1, 6) && want.size() > 1) r = (++want.begin())->first; if (r.empty()) r = "/"; say("restrict", r + (s.chance(1, 5) && r != "/" ? "/" : "")); au.restricts.push_back(strip(r)); break; }
            case 5: { if (au.auth.empty()) continue; std::string u = s.pick({std::string("joe"), std::string("ann"), std::string("#u")}), p = text(s); say("user", u + blanks(s) + p); au.users.insert(std::make_pair(u, p)); break; }
        }
        if (i + 1 == n && !breakit && last_open) { more = false; break; }
        body += eol(s); noise();
    }
    if (more && !bad && s.chance(1, 4)) body += s.flip() ? "# last comment" : "#";
    std::string file = base + "/web.conf"; std::ofstream(file.c_str(), std::ios::binary) << body; cl.f.push_back(file);
    std::string shown = body; for (size_t p; (p = shown.find(base)) != std::string::npos; ) shown.replace(p, base.size(), "BASE"); c.note("config " + pbt::show(shown, 800)); c.key(shown); c.label(bad ? "refused: " + why : "accepted"); if (!more) c.label("no line end at the end"); c.nontrivial(statements >= 2 || bad);
    {
        net::Asker<http::plugin_server> f; f.set_not_found_handler([](const http::request_ptr&, const tcp::connection_ptr&) {});
        bool refused = false; std::string msg; try { f.load_service_config(s.flip() ? file : base + "/web"); } catch (std::exception& e) { refused = true; msg = typeid(e).name(); }
        if (bad) { PBT_CHECK(refused, "accepted although it has a bad statement: " << why); }
        else {
            PBT_CHECK(!refused, "valid configuration refused: " << msg);
            PBT_EQ(alive.size(), want.size(), "number of services");
            for (auto& e : want) {
                Rec *r = NULL; for (auto x : alive) if (x->get_resource() == e.first) r = x; PBT_CHECK(r, "no service has the resource " << e.first);
                PBT_EQ(r->kind, e.second.first, "plug-in of " << e.first); PBT_EQ(r->opts.size(), e.second.second.size(), "number of options of " << e.first);
                for (size_t i = 0; i < r->opts.size(); ++i) { PBT_EQ(r->opts[i].first, e.second.second[i].first, "option name"); PBT_EQ(r->opts[i].second, e.second.second[i].second, "option value"); }
            }
            for (size_t i = 0; i < paths.size(); ++i) { std::string got; PBT_CHECK(plugin::find_plugin_file(got, "marker" + std::to_string(i)), "path " << paths[i] << " is not searched"); PBT_EQ(got, paths[i] + "/marker" + std::to_string(i) + ".so", "file found"); }
            // requests reach the services named, behind the authentication configured
            for (auto& e : want) {
                std::string r = e.first.empty() ? "/" : e.first; bool closed = false; for (auto& x : au.restricts) if (e.first.compare(0, x.size(), x) == 0 && (e.first.size() == x.size() || e.first[x.size()] == '/')) closed = true; if (au.users.empty()) closed = false;
                auto reached = [&](const std::string& hdr) { hits = 0; hit_resource = "?"; std::string t = "GET " + r + " HTTP/1.1\r\n" + hdr + "\r\n"; f.ask(t); if (hits) { PBT_EQ(hit_resource, e.first, "service for " << r); PBT_EQ(hit_kind, e.second.first, "plug-in for " << r); } return hits; };
                PBT_EQ(reached(""), closed ? 0 : 1, "request without credentials for " << r);
                if (closed) {
                    c.label(au.auth + " authentication");
                    for (auto& u : au.users) for (int wrong = 0; wrong < 2; ++wrong) {
                        std::string pw = u.second + (wrong ? "x" : ""), hdr;
                        if (au.auth == "basic") { std::string e64; algorithm::base64_encode(u.first + ":" + pw, e64); hdr = "Authorization: Basic " + e64 + "\r\n"; }
                        else { net::Answer a = f.ask("GET /login?user=" + algorithm::url_encode(u.first) + "&pass=" + algorithm::url_encode(pw) + " HTTP/1.1\r\n\r\n"); std::string ck = a.r.header("Set-Cookie"); size_t p = ck.find(';'); hdr = "Cookie: " + ck.substr(0, p) + "\r\n"; PBT_EQ(ck.empty(), wrong == 1, "session cookie for " << (wrong ? "wrong" : "right") << " password"); }
                        PBT_EQ(reached(hdr), wrong ? 0 : 1, "request by " << u.first << " with " << (wrong ? "wrong" : "right") << " password");
                    }
                }
            }
        }
    }
    PBT_EQ(created, destroyed, "services created and destroyed");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P25"; cfg.level = "exploration";
    cfg.rule = "configuration with at least two statements, or a broken one; distinct by text";
    cfg.assumptions = {"only directories that exist take effect as path; others are skipped with a warning", "blanks at the end of a value are not generated"};
    cfg.once_per_process = [] { plugin::add_static_entry_point("RecA", (void*)&create<0>, (void*)&destroy); plugin::add_static_entry_point("RecB", (void*)&create<1>, (void*)&destroy); plugin::add_static_entry_point("Rec C", (void*)&create<2>, (void*)&destroy); };
    cfg.subs = {{"config", config, 12000, 500000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
