// admin_rights: scopes of administrative rights and the mapping of names to ids.  The system calls that change ids are
// replaced by stand-ins which keep simulated credentials (no real id changes); /etc/passwd and /etc/group are redirected.
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/admin_rights.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fstream>
using namespace pion;

namespace sim { static bool on; static std::atomic<uint32_t> ruid, euid, suid, egid; static bool gid_allowed; static std::string passwd, group; static std::atomic<int> calls, wrong; }
static const char *redirect(const char *p) { if (sim::on && p) { if (!strcmp(p, "/etc/passwd")) return sim::passwd.c_str(); if (!strcmp(p, "/etc/group")) return sim::group.c_str(); } return p; }
extern "C" {
    uid_t geteuid(void) { if (sim::on) return sim::euid; static uid_t (*f)(void) = (uid_t (*)(void))dlsym(RTLD_NEXT, "geteuid"); return f(); }
    gid_t getegid(void) { if (sim::on) return sim::egid; static gid_t (*f)(void) = (gid_t (*)(void))dlsym(RTLD_NEXT, "getegid"); return f(); }
    int seteuid(uid_t u) { ++sim::calls; if (u == (uid_t)-1) { errno = EINVAL; return -1; } if (sim::euid == 0 || u == sim::ruid || u == sim::suid) { sim::euid = u; return 0; } errno = EPERM; return -1; }
    int setegid(gid_t g) { ++sim::calls; if (!sim::gid_allowed && g != sim::egid) { errno = EPERM; return -1; } sim::egid = g; return 0; }
    FILE *fopen64(const char *p, const char *m) { static FILE *(*f)(const char*, const char*) = (FILE *(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64"); return f(redirect(p), m); }
    FILE *fopen(const char *p, const char *m) { static FILE *(*f)(const char*, const char*) = (FILE *(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); return f(redirect(p), m); }
    int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); static int (*f)(const char*, int, ...) = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64"); return f(redirect(p), fl, mode); }
    int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); static int (*f)(const char*, int, ...) = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); return f(redirect(p), fl, mode); }
}
struct On { On() { sim::on = true; } ~On() { sim::on = false; } };
static uint32_t an_id(pbt::Src& s) { switch (s.choose(6)) { case 0: return 0; case 1: return 1 + s.choose(100); case 2: return 1000 + s.choose(100); case 3: return 32760 + s.choose(20); case 4: return 65520 + s.choose(20); default: return (uint32_t)(s.u64() & 0x7fffffff); } }

/// one after another and from several threads
static void scopes(pbt::Src& s, pbt::Case& c) {
    uint32_t uid = an_id(s); bool root = s.chance(5, 6); sim::euid = uid; sim::suid = root ? 0 : uid; sim::ruid = s.flip() ? sim::suid.load() : uid; if (uid == 0) root = true; sim::egid = 7; size_t ops = 1 + s.choose(8); std::string log = "uid " + std::to_string(uid) + (root ? " may be root" : " may not be root"); bool log_flag = s.flip(); On on;
    for (size_t o = 0; o < ops; ++o) switch (s.choose(4)) {
        case 0: { log += " scope"; { admin_rights r(log_flag); PBT_EQ((uint32_t)sim::euid, root ? 0u : uid, "effective user inside a scope: " << log); } PBT_EQ((uint32_t)sim::euid, uid, "effective user after a scope: " << log); break; }
        case 1: { log += " release"; admin_rights r(log_flag); r.release(); PBT_EQ((uint32_t)sim::euid, uid, "effective user after release(): " << log); if (s.flip()) { r.release(); PBT_EQ((uint32_t)sim::euid, uid, "effective user after release() twice: " << log); } { admin_rights q(log_flag); PBT_EQ((uint32_t)sim::euid, root ? 0u : uid, "effective user inside a second scope: " << log); } PBT_EQ((uint32_t)sim::euid, uid, "effective user: " << log); break; }
        case 2: { log += " throw"; try { admin_rights r(log_flag); throw 1; } catch (int) {} PBT_EQ((uint32_t)sim::euid, uid, "effective user after an exception: " << log); break; }
        default: { log += " threads"; std::atomic<int> inside(0), bad(0), worst(0); size_t k = 2 + s.choose(3); std::vector<boost::shared_ptr<boost::thread> > t; bool early = s.flip(); for (size_t i = 0; i < k; ++i) t.push_back(boost::shared_ptr<boost::thread>(new boost::thread([&] { for (int j = 0; j < 8; ++j) { admin_rights r(false); if (root) { if (++inside > 1) ++worst; if (sim::euid != 0) ++bad; boost::this_thread::yield(); if (sim::euid != 0) ++bad; --inside; } if (early) r.release(); } }))); for (auto& x : t) x->join(); PBT_EQ(bad.load(), 0, "threads that lost their rights inside a scope: " << log); PBT_EQ(worst.load(), 0, "scopes active at the same time: " << log); PBT_EQ((uint32_t)sim::euid, uid, "effective user after the threads: " << log); }
    }
    c.note(log); c.key(log); c.nontrivial(root && uid != 0);
}

static std::string word(pbt::Src& s) { return s.of("abc-_.09$", 1 + s.choose(4)); }
/// names, numbers and files
static void ids(pbt::Src& s, pbt::Case& c) {
    std::vector<std::pair<std::string, std::string> > rows; std::string text; size_t n = s.choose(7); bool users = s.flip(); std::map<std::string, std::string> first;
    for (size_t i = 0; i < n; ++i) { std::string name = s.chance(1, 8) ? "root" : word(s), id = std::to_string(an_id(s)); if (name.find_first_not_of("0123456789") == std::string::npos) name += "x"; if (s.chance(1, 10)) { text += s.pick({"\n", "#comment\n", "+\n", ":::\n", "-@net:x\n"}); } std::string pw = s.pick({"x", "", "*", "!", "$6$abc", "77"}); bool broken = s.chance(1, 12); if (broken) id = s.pick({"", "-1", "abc", "1x", " 5"}); std::string row = name + ":" + pw + ":" + id + (users ? ":" + std::to_string(an_id(s)) + std::string(":") + s.pick({"", "Full Name,,,", "a b"}) + ":/home/" + name + ":/bin/sh" : std::string(":") + s.pick({"", "a,b", "c"})); if (s.chance(1, 15)) row = name; text += row; if (i + 1 < n || s.chance(4, 5)) text += "\n"; if (!first.count(name)) first[name] = broken || row == name ? "?" : id; rows.push_back(std::make_pair(name, id)); }
    std::string dir = pbt::scratch_dir() + "/p" + std::to_string(getpid()), f = dir + ".db"; { std::ofstream o(f.c_str(), std::ios::binary); o << text; } bool missing = s.chance(1, 20); std::string file = missing ? dir + ".none" : f; (users ? sim::passwd : sim::group) = file; (users ? sim::group : sim::passwd) = dir + ".none";
    std::string ask; switch (s.weighted({6, 2, 2, 1})) { case 0: if (!rows.empty()) { ask = s.pick(rows).first; break; } default: ask = word(s); break; case 2: ask = std::to_string(an_id(s)); break; case 3: if (!rows.empty()) { ask = s.pick(rows).first; ask = s.flip() ? ask + "z" : ask.substr(0, ask.size() - 1); } if (ask.empty()) ask = "q"; break; }
    bool number = ask.find_first_not_of("0123456789") == std::string::npos; uint32_t cur = an_id(s); bool allowed = s.chance(3, 4); if (users && cur == 0) cur = 5; sim::euid = users ? (allowed ? 0 : cur) : 3; sim::ruid = sim::suid = sim::euid.load(); sim::egid = cur; sim::gid_allowed = allowed; uint32_t before = users ? sim::euid : sim::egid; long got; { On on; got = users ? admin_rights::run_as_user(ask) : admin_rights::run_as_group(ask); } uint32_t after = users ? sim::euid : sim::egid;
    c.note((users ? "user " : "group ") + pbt::show(ask) + " in " + pbt::show(text, 200)); c.key(text + "|" + ask + (users ? "u" : "g")); bool known = number || (!missing && first.count(ask) && first[ask] != "?"); c.nontrivial(known && !number);
    if (!known) { PBT_EQ(got, (long)before, "result for an unknown name " << pbt::show(ask) << " with " << pbt::show(text, 300)); PBT_EQ(after, before, "id in effect for an unknown name"); return; }
    uint32_t want = (uint32_t)strtoul((number ? ask : first[ask]).c_str(), NULL, 10); bool ok = allowed || want == before; if (ok) { PBT_EQ(got, (long)want, "result for " << pbt::show(ask) << " with " << pbt::show(text, 300)); PBT_EQ(after, want, "id in effect for " << pbt::show(ask) << " with " << pbt::show(text, 300)); } else { PBT_EQ(got, -1L, "result for an id that cannot be taken"); PBT_EQ(after, before, "id in effect"); }
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P28"; cfg.level = "exploration"; cfg.rule = "the rights could be taken by a user other than root, or a name was looked up that is in the file; distinct by history or by file and name";
    cfg.assumptions = {"seteuid, setegid, geteuid and getegid are replaced by stand-ins that keep simulated POSIX credentials", "the user and group databases are the files in /etc, redirected to generated ones", "ids are below 2^31"};
    cfg.subs = {{"scopes", scopes, 70000, 1000000, 20, 3, 2, 0}, {"ids", ids, 110000, 2000000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
