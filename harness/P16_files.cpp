// BUILD: services
// FileService against a model of a directory tree: histories of requests and of changes made behind its back.
// Runs as an unprivileged user in a scratch directory; the tree outside the configured directory is a witness.
#include "pbt.hpp"
#include "ask.hpp"
#include <pion/http/plugin_server.hpp>
#include <FileService.hpp>
#include <ftw.h>
#include <dirent.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fstream>
#include <iterator>
using namespace pion;
typedef std::map<std::string, std::string> Tree;     // path below the scratch directory -> content; directories end in '/'

static std::string g_base; static pid_t g_main;
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rm_tree(const std::string& p) { if (p.compare(0, 11, "/tmp/verif-") == 0) nftw(p.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); }
static void write_file(const std::string& p, const std::string& c) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (f < 0) throw pbt::Discard(); size_t k = 0; while (k < c.size()) { ssize_t n = write(f, c.data() + k, c.size() - k); if (n <= 0) break; k += n; } close(f); }
static std::string read_file(const std::string& p) { std::string r; int f = open(p.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) return r; static char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) r.append(b, n); close(f); return r; }
static void walk(const std::string& dir, const std::string& rel, Tree& t) {
    DIR *d = opendir(dir.c_str()); if (!d) return; while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { t[rel + n + "/"] = ""; walk(p, rel + n + "/", t); } else { t[rel + n] = (st.st_mode & 0400) ? read_file(p) : std::string("(unreadable)"); } } closedir(d);
}
static Tree snapshot() { Tree t; walk(g_base, "", t); return t; }
static std::string hex2(unsigned char c, bool up) { char b[4]; snprintf(b, sizeof b, up ? "%%%02X" : "%%%02x", c); return b; }

struct Svc : http::plugin_server { Svc(unsigned p) : http::plugin_server(p) {} };
struct Fs { // a file as the model knows it
    std::set<std::string> versions;     // contents it had since the service last looked at it for certain (cache=2 may serve any)
};

static time_t g_clock;
static void touch(const std::string& p) { timeval tv[2]; tv[0].tv_sec = tv[1].tv_sec = ++g_clock; tv[0].tv_usec = tv[1].tv_usec = 0; utimes(p.c_str(), tv); }

static void history(pbt::Src& s, pbt::Case& c) {
    if (g_base.empty()) { g_base = "/tmp/verif-p16-" + std::to_string(g_main) + "-" + std::to_string(getpid()); }
    rm_tree(g_base); PBT_CHECK(mkdir(g_base.c_str(), 0700) == 0, "cannot make " << g_base << ": " << strerror(errno)); g_clock = 1300000000;
    const std::string W = g_base + "/www"; for (auto d : {"/www", "/www/sub", "/www/sub/deep", "/www-secret", "/other"}) mkdir((g_base + d).c_str(), 0700);
    auto gen_content = [&]() { size_t n = s.pick({(size_t)0, (size_t)1, (size_t)7, (size_t)100, (size_t)3000}); if (s.chance(1, 10)) n = s.choose(30000); return s.blob(n, s.flip() ? "" : "abc\r\n"); };
    for (auto f : {"/www/a.txt", "/www/b.html", "/www/sub/c.txt", "/www/sub/deep/d", "/www/.dot", "/www/sp ace", "/www-secret/a.txt", "/www-secret/s", "/other/a.txt", "/outside"}) { write_file(g_base + f, std::string(f) + ":" + gen_content()); touch(g_base + f); }
    // options
    std::string res = s.pick({"/files", "/files", "/", "/a/b"}); bool with_dir = !s.chance(1, 12), with_file = s.chance(1, 3), writable = s.chance(2, 3); int cache = -1, scan = -1; std::string filerel = s.pick({"www/a.txt", "www/b.html", "other/a.txt", "www/sub/c.txt"}); if (!with_dir) with_file = true;
    std::string dirspec = W, cwd = g_base; switch (s.weighted({8, 3, 1, 1, 1, 1, 1, 1, 1})) { case 1: dirspec = W + "/"; break; case 2: dirspec = W + "/."; break; case 3: dirspec = g_base + "/other/../www"; break; case 4: dirspec = g_base + "/./www//"; break; case 5: dirspec = "www"; break; case 6: dirspec = "./www/"; break; case 7: dirspec = "."; cwd = W; break; case 8: dirspec = "../www"; cwd = g_base + "/other"; break; default: break; }
    PBT_CHECK(chdir(cwd.c_str()) == 0, "chdir"); net::Asker<http::plugin_server> srv; plugins::FileService *svc = new plugins::FileService; srv.add_service(res, svc); std::ostringstream d; d << "res=" << res;
    auto opt = [&](const std::string& n, const std::string& v) { svc->set_option(n, v); d << " " << n << "=" << (v.compare(0, g_base.size(), g_base) == 0 ? v.substr(g_base.size()) : v); };
    if (s.chance(1, 8)) { // values that cannot be right are refused, whatever follows
        static const char *bad[][2] = {{"directory", "/www/a.txt"}, {"directory", "/none"}, {"directory", "/www/a.txt/"}, {"file", "/www"}, {"file", "/none"}, {"file", "/www/none"}, {"cache", "3"}, {"cache", "x"}, {"scan", "4"}, {"scan", "-"}, {"writable", "maybe"}, {"writable", "1"}, {"nosuch", "1"}};
        auto& b = s.pick(bad); bool threw = false; std::string v = b[1]; if (v[0] == '/') v = g_base + v; try { svc->set_option(b[0], v); } catch (std::exception&) { threw = true; } PBT_CHECK(threw, "option " << b[0] << "=" << b[1] << " is accepted"); c.label("bad option"); if (b[0][0] == 'd') with_dir = true; if (b[0][0] == 'f' && !with_file) { with_file = true; }
    }
    if (with_dir) opt("directory", dirspec); if (with_file) opt("file", g_base + "/" + filerel); if (s.flip()) { cache = s.choose(3); opt("cache", std::to_string(cache)); } if (s.flip()) { scan = s.choose(4); opt("scan", std::to_string(scan)); } if (writable) opt("writable", "true"); if (s.chance(1, 3)) opt("max_chunk_size", s.pick({"1", "100", "1000", "0"}));
    bool never_checks = cache == 2, fixed_set = scan == 1 || scan == 3; svc->start(); Tree at_start = snapshot();
    std::map<std::string, std::set<std::string> > versions; for (auto& f : at_start) versions[f.first].insert(f.second); std::set<std::string> unreadable; std::map<std::string, std::set<size_t> > sizes; for (auto& f : at_start) sizes[f.first].insert(f.second.size());
    size_t ops = 2 + s.choose(14), asked = 0, effective = 0; std::string log; Tree last; bool fresh = false; bool relative = dirspec[0] != '/';
    static const char *comps[] = {"a.txt", "b.html", "sub", "c.txt", "deep", "d", "new1", "new2.txt", ".dot", "sp ace", "..", ".", "www", "www-secret", "s", "other", "outside", "b+c", "\\..\\a.txt", "...", "caf\xc3\xa9", "%41"};
    for (size_t o = 0; o < ops; ++o) {
        if (s.chance(1, 4)) { fresh = false; // a change from outside
            std::string rel = s.pick({"www/a.txt", "www/b.html", "www/sub/c.txt", "www/sub/deep/d", "www/new1", "other/a.txt"}), p = g_base + "/" + rel; if (s.chance(1, 4)) { if (unlink(p.c_str()) == 0) { log += " rm:" + rel; versions[rel].insert("(gone)"); } } else { std::string v = "v" + std::to_string(o) + ":" + gen_content(); chmod(p.c_str(), 0600); unreadable.erase(rel); struct stat was; bool keep = stat(p.c_str(), &was) == 0 && !sizes[rel].count(v.size()) && s.chance(1, 3); sizes[rel].insert(v.size()); write_file(p, v); if (keep) { timeval tv[2]; tv[0].tv_sec = tv[1].tv_sec = was.st_mtime; tv[0].tv_usec = tv[1].tv_usec = 0; utimes(p.c_str(), tv); log += "(same time)"; c.label("same time"); } else touch(p); versions[rel].insert(v); log += " write:" + rel; if (s.chance(1, 8)) { chmod(p.c_str(), 0); unreadable.insert(rel); log += "(unreadable)"; } } continue;
        }
        if (s.chance(1, 25)) { if (with_file && access((g_base + "/" + filerel).c_str(), F_OK)) continue; log += " restart"; svc->stop(); svc->start(); Tree now = snapshot(); at_start = now; for (auto& v : versions) v.second.clear(); for (auto& f : now) versions[f.first].insert(f.second); continue; }
        for (auto i = unreadable.begin(); i != unreadable.end();) { struct stat st; if (stat((g_base + "/" + *i).c_str(), &st) == 0 && !(st.st_mode & 0400)) ++i; else unreadable.erase(i++); }   // gone or made anew
        // a request: components, encoded
        std::vector<std::string> cs; bool exact = s.chance(1, 8); bool lenient = false; if (!exact) { if (s.chance(2, 3)) { static const std::vector<std::vector<std::string> > known = {{"a.txt"}, {"b.html"}, {"sub", "c.txt"}, {"sub", "deep", "d"}, {"new1"}, {"sub", "new2"}, {".dot"}, {"sp ace"}, {"sub"}, {"..", "www-secret", "s"}, {"..", "www-secret", "a.txt"}, {"..", "outside"}, {"..", "other", "a.txt"}, {"sub", "..", "a.txt"}, {"sub", "..", "..", "outside"}, {"nodir", "x"}, {"a.txt", "x"}}; cs = s.pick(known); if (s.chance(1, 6)) cs.insert(cs.begin() + s.choose(cs.size() + 1), s.pick({".", "..", "sub", "www"})); } else { size_t n = 1 + s.choose(5); while (n--) cs.push_back(comps[s.choose(sizeof comps / sizeof *comps)]); } }
        std::string path = res == "/" ? "" : res; bool odd = false; for (size_t i = 0; i < cs.size(); ++i) { std::string sep = "/"; if (s.chance(1, 15)) sep += s.pick({"/", "//", "./"}), odd = true; else if (i && s.chance(1, 20)) sep = s.pick({"%2F", "%2f"}); path += sep; int style = s.weighted({6, 1, 2}); for (char ch : cs[i]) { bool safe = isalnum((unsigned char)ch) || strchr("._-", ch); if (style == 1 || !safe || (style == 2 && s.chance(1, 3))) path += hex2(ch, s.flip()); else path += ch; } }
        if (!exact && s.chance(1, 20)) { path += "/"; lenient = true; } if (path.empty()) path = "/";
        if (res == "/" && path.compare(0, 2, "//") == 0) { path.erase(0, path.find_first_not_of('/') - 1); }
        // where it leads
        std::vector<std::string> at; int up = 0; bool escapes = false, left = false; for (auto& x : cs) { if (x == ".") continue; if (x == "..") { if (at.empty()) { ++up; left = true; } else at.pop_back(); } else at.push_back(x); if (up) { } }
        if (left) { // lexical position relative to the directory's parents
            std::vector<std::string> abs = {"www"}; abs.clear(); std::vector<std::string> full; full.push_back("www"); bool beyond = false; for (auto& x : cs) { if (x == ".") continue; if (x == "..") { if (full.empty()) beyond = true; else full.pop_back(); } else full.push_back(x); } if (beyond || full.empty() || full[0] != "www") escapes = true; else { at.assign(full.begin() + 1, full.end()); lenient = true; } }
        if (!cs.empty() && cs.back() == ".") lenient = true;
        std::string target; bool refused = false; if (exact) { if (with_file) target = filerel; else refused = true; } else if (!with_dir || escapes) refused = true; else { target = "www"; for (auto& x : at) target += "/" + x; }
        std::string method = s.pick({"GET", "GET", "GET", "GET", "HEAD", "PUT", "PUT", "POST", "DELETE", "OPTIONS", "PATCH"}), body; if (method == "PUT" || method == "POST") body = s.chance(1, 4) ? "" : "p" + gen_content(); bool same_size = false; Tree before = fresh ? last : snapshot(); if (method == "PUT" && before.count(target) && s.chance(1, 3)) { body = before[target]; for (auto& ch : body) ch ^= 1; same_size = true; }
        bool v10 = s.chance(1, 10); std::ostringstream q; q << method << ' ' << path << (s.chance(1, 8) ? "?x=/../y" : "") << " HTTP/1." << (v10 ? 0 : 1) << "\r\n"; if (!body.empty() || method == "PUT" || method == "POST") q << "Content-Length: " << body.size() << "\r\n"; q << "\r\n" << body;
        log += " " + method + ":" + path + (same_size ? "(same size)" : body.empty() ? "" : "(" + std::to_string(body.size()) + ")"); c.set_note(d.str() + log);
        net::Answer a = srv.ask(q.str()); PBT_EQ(a.r.odd_reason(), std::string(), "status text \"" << a.r.reason << "\" of status " << a.r.status); Tree after = snapshot(); last = after; fresh = true; ++asked; for (auto& f : after) sizes[f.first].insert(f.second.size()); const std::string ctx = method + " " + path + " (" + (refused ? "not allowed" : target) + "): " + std::to_string(a.r.status) + " after " + d.str() + log; int st = a.r.status; bool ok = st / 100 == 2;
        PBT_CHECK(a.complete(), "no complete answer (" << a.r.why << ") " << pbt::show(a.raw, 100) << " to " << ctx);
        // 1. no effect but on the target, and only by write methods when allowed
        bool writes = writable && !refused && (method == "PUT" || method == "POST" || method == "DELETE"); { Tree b = before, f = after; if (writes) { b.erase(target); f.erase(target); } if (b != f) { std::string what; for (auto& e : f) if (!b.count(e.first) || b[e.first] != e.second) what += " +" + e.first; for (auto& e : b) if (!f.count(e.first)) what += " -" + e.first; PBT_CHECK(false, "changed" << what << " by " << ctx); } }
        if (refused) { PBT_CHECK(st / 100 == 4 || st == 501, "request outside of what is served is answered with " << ctx); if (method == "GET") for (auto& f : before) if (f.second.size() > 3) PBT_CHECK(a.r.body != f.second, "content of " << f.first << " returned for " << ctx); continue; }
        bool was_file = before.count(target) != 0, was_dir = before.count(target + "/") != 0 || target == "www"; std::string parent = target.substr(0, target.rfind('/') + 1); bool parent_ok = before.count(parent) != 0; bool readable = !unreadable.count(target), was_at_start = at_start.count(target) != 0;
        if (method == "GET" || method == "HEAD") {
            if (ok) { PBT_CHECK(!was_dir, "directory is served: " << ctx); std::set<std::string>& v = versions[target]; bool current = was_file && readable && a.r.body == before[target];
                if (method == "HEAD") { if (a.r.has_length && !never_checks && was_file && readable) PBT_EQ(a.r.length, before[target].size(), "length announced by HEAD: " << ctx); continue; }
                if (!current) { bool stale_ok = never_checks && v.count(a.r.body); PBT_CHECK(stale_ok, "GET returns " << a.r.body.size() << " bytes " << pbt::show(a.r.body, 60) << " but the file " << (was_file ? (readable ? "has " + std::to_string(before[target].size()) + " bytes " + pbt::show(before[target], 60) : std::string("cannot be read")) : std::string("does not exist")) << ": " << ctx); }
                ++effective;
            } else if (was_file && readable && !lenient) { PBT_CHECK((fixed_set && (!was_at_start || odd || (!exact && at != cs))) || (never_checks && versions[target].count("(unreadable)")), "existing file is refused: " << ctx); }
            else if (!was_file && !lenient) PBT_CHECK(st == 404 || st == 403, "missing file: " << ctx);
        } else if (method == "PUT" || method == "POST" || method == "DELETE") {
            if (!writable) { PBT_CHECK(st / 100 == 4, "write method without permission: " << ctx); continue; }
            bool now = after.count(target) != 0; if (lenient) { if (!ok) PBT_CHECK(before == after, "failed but changed: " << ctx); continue; }
            if (method == "DELETE") { if (was_file) { PBT_CHECK(ok && !now, "not deleted: " << ctx); if (!relative) versions[target].clear(); ++effective; } else PBT_CHECK(st / 100 == 4, "delete of nothing: " << ctx); }
            else { if (was_dir) PBT_CHECK(st / 100 == 4, "write to directory: " << ctx); else if (!was_file && !parent_ok) PBT_CHECK(st / 100 == 4 || st == 500, "write below nothing: " << ctx); else if (was_file && !readable) PBT_CHECK(!ok, "write to unwritable file reported as success: " << ctx); else { PBT_CHECK(ok, "write refused: " << ctx); std::string want = method == "POST" ? before[target] + body : body; if (!was_file) want = body; PBT_CHECK(now && after[target] == want, "file has " << after[target].size() << " bytes after " << ctx << " of " << body.size() << " bytes"); PBT_EQ(st, was_file ? 204 : 201, "status: " << ctx); if (!relative) versions[target].clear(); versions[target].insert(want); ++effective; } if (!ok) PBT_CHECK(before == after, "failed but changed: " << ctx); }
        } else PBT_CHECK(st / 100 == 5 || st / 100 == 4, "unknown method: " << ctx);
    }
    c.set_note(d.str() + log); c.key(d.str() + log); c.nontrivial(asked >= 2 && effective >= 1); c.label("cache " + std::to_string(cache)); c.label("scan " + std::to_string(scan)); if (writable) c.label("writable");
    svc->stop(); if (chdir("/")) {} rm_tree(g_base);
}

int main(int argc, char **argv) {
    g_main = getpid(); umask(077);
    pbt::Config cfg; cfg.property = "P16"; cfg.level = "exploration"; cfg.rule = "at least two requests, one of which reads or changes a file; distinct by options and history";
    cfg.assumptions = {"no symbolic links below the directory", "changes made behind the service's back change the modification time (second) or the size of the file", "cache=2 may serve any content the file had since the service was started or wrote it", "scan=1 and scan=3 serve only files that existed when the service was started"};
    cfg.once_per_process = [] { if (geteuid() == 0) { if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) _exit(99); } };
    cfg.subs = {{"history", history, 6000, 150000, 30, 3, 3, 0}};
    int rc = pbt::main(argc, argv, cfg); if (DIR *t = opendir("/tmp")) { std::string mine = "verif-p16-" + std::to_string(g_main) + "-"; while (dirent *e = readdir(t)) if (std::string(e->d_name).compare(0, mine.size(), mine) == 0) rm_tree(std::string("/tmp/") + e->d_name); closedir(t); } return rc;
}
