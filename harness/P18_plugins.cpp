// Plug-ins: histories of handles, instances, managers and search paths over real shared objects.
// BUILD: plugins
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <boost/thread.hpp>
#include "plugins/iface.hpp"
#include <atomic>
#include <memory>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace pion;

// ---- what the plug-ins report ----
static boost::mutex g_m; static std::map<std::string, int> g_loaded; static std::map<void*, std::string> g_objects; static std::string g_trouble; static int g_created, g_destroyed;
static std::string nt(const std::string& n, int t) { return n + "#" + std::to_string(t); }
extern "C" void verif_loaded(const char *name, int tag, int d) { boost::mutex::scoped_lock l(g_m); int& c = g_loaded[nt(name, tag)]; c += d; if (c < 0 || c > 1) g_trouble = "load count"; if (!c) g_loaded.erase(nt(name, tag)); }
extern "C" void verif_object(const char *name, int tag, void *p, int d) { boost::mutex::scoped_lock l(g_m); if (d > 0) { ++g_created; g_objects[p] = nt(name, tag); } else { ++g_destroyed; auto i = g_objects.find(p); if (i == g_objects.end()) g_trouble = "object destroyed twice"; else if (i->second != nt(name, tag)) g_trouble = "object destroyed by another plug-in"; else g_objects.erase(i); } }
namespace { struct Static : Obj { Static() { verif_object("stat", 9, this, 1); } ~Static() { verif_object("stat", 9, this, -1); } const char *name() const { return "stat"; } int tag() const { return 9; } }; struct Own : Obj { std::string n; Own() { verif_object("own", 8, this, 1); } ~Own() { verif_object("own", 8, this, -1); } const char *name() const { return "own"; } int tag() const { return 8; } }; }
static Obj *stat_create() { return new Static; } static void stat_destroy(Obj *o) { delete o; }

static std::string g_root, g_pool; static const int ND = 4;   // search directories d0..d3, working directory has tag 4
static const char *NAMES[] = {"alpha", "beta", "a.b", "nocreate", "nodestroy", "garbage"};
static std::string dir_of(int t) { return g_root + (t < ND ? "/d" + std::to_string(t) : "/cwd"); }
static void slurp_to(const std::string& from, const std::string& to) { std::ifstream i(from.c_str(), std::ios::binary); std::ofstream o(to.c_str(), std::ios::binary); o << i.rdbuf(); }
static void setup() {
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0; std::string src = exe; src = src.substr(0, src.rfind('/')); src = src.substr(0, src.rfind('/')) + "/plugins/";
    g_root = pbt::scratch_dir() + "/p" + std::to_string(getpid()); mkdir(g_root.c_str(), 0755); g_pool = g_root + "/pool/"; mkdir(g_pool.c_str(), 0755);
    for (int t = 0; t <= ND; ++t) { mkdir(dir_of(t).c_str(), 0755); for (const char *nm : NAMES) { std::string f = std::string(nm) + "_" + std::to_string(t); if (std::string(nm) == "garbage") { std::ofstream o((g_pool + f).c_str()); o << "this is no library\n"; } else slurp_to(src + f, g_pool + f); } }
    if (chdir(dir_of(ND).c_str())) _exit(3);
    plugin::add_static_entry_point("stat", (void*)&stat_create, (void*)&stat_destroy);
}
static void require_setup() { static bool done = false; if (!done) { setup(); done = true; } }

struct Tree {   // files present: path -> (name, tag)
    std::vector<std::string> made, mkdirs; std::map<std::string, std::pair<std::string, int> > files;
    ~Tree() { for (auto& f : made) unlink(f.c_str()); for (auto& d : mkdirs) rmdir(d.c_str()); }
    void put(const std::string& name, int t, const std::string& file) { std::string p = dir_of(t) + "/" + file; if (files.count(p)) return; if (link((g_pool + name + "_" + std::to_string(t)).c_str(), p.c_str())) return; made.push_back(p); files[p] = std::make_pair(name, t); }
    void dir(int t, const std::string& file) { std::string p = dir_of(t) + "/" + file; if (!mkdir(p.c_str(), 0755)) mkdirs.push_back(p); }
};
static bool regular(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
static std::string abspath(const std::string& p) { return p[0] == '/' ? p : p.compare(0, 3, "../") == 0 ? g_root + p.substr(2) : dir_of(ND) + "/" + p; }
/// the documented search: the name as given, then every search directory, each without and with suffix
static std::string ref_find(const std::vector<int>& dirs, const std::string& name, const std::string& ext) {
    if (regular(abspath(name))) return name; if (regular(abspath(name + ext))) return name + ext;
    for (int d : dirs) for (int k = 0; k < 2; ++k) { std::string p = dir_of(d) + "/" + name + (k ? ext : ""); if (regular(p)) return p; }
    return "";
}
static std::string stem(const std::string& p) { std::string b = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1); size_t d = b.rfind('.'); return d == std::string::npos ? b : b.substr(0, d); }

struct Model { std::map<std::string, std::pair<int, int> > loaded; std::vector<int> dirs; };   // plug-in -> tag, references
enum Out { OK, NOT_FOUND, OPEN_ERR, SYMBOL, UNDEF };
template <typename F> static Out attempt(F f) { try { f(); return OK; } catch (error::plugin_not_found&) { return NOT_FOUND; } catch (error::plugin_missing_symbol&) { return SYMBOL; } catch (error::open_plugin&) { return OPEN_ERR; } catch (error::plugin_undefined&) { return UNDEF; } }
static Out ref_open_file(Model& m, Tree& t, const std::string& file, std::string& now) {
    std::string nm = stem(file); if (m.loaded.count(nm) || nm == "stat") { now = nm; return OK; }
    auto i = t.files.find(abspath(file)); if (i == t.files.end()) return OPEN_ERR; if (i->second.first == "garbage") return OPEN_ERR; if (nm != i->second.first || nm == "nocreate" || nm == "nodestroy") return SYMBOL;
    m.loaded[nm] = std::make_pair(i->second.second, 0); now = nm; return OK;
}
/// a name that is loaded is shared; otherwise the handle lets go of what it has (drop) and a file is opened
static Out ref_open(Model& m, Tree& t, const std::string& name, std::string& now, std::function<void()> drop) {
    if (m.loaded.count(name) || name == "stat") { now = name; return OK; }
    std::string f = ref_find(m.dirs, name, ".so"); if (f.empty()) return NOT_FOUND; drop(); return ref_open_file(m, t, f, now);
}
static void compare(const Model& m, const std::string& w) {
    boost::mutex::scoped_lock l(g_m); std::string g, x; for (auto& p : g_loaded) g += p.first + " "; for (auto& p : m.loaded) x += nt(p.first, p.second.first) + " "; PBT_EQ(g, x, "loaded libraries after " << w); PBT_CHECK(g_trouble.empty(), g_trouble << " after " << w);
}
static void gen_tree(pbt::Src& s, Tree& t, Model& m, pbt::Case& c) {
    size_t k = 1 + s.choose(8); for (size_t i = 0; i < k; ++i) { std::string n = s.chance(1, 6) ? NAMES[3 + s.choose(3)] : NAMES[s.choose(3)]; int d = s.choose(ND + 1); if (s.chance(1, 10)) t.dir(d, n + (s.flip() ? ".so" : "")); else t.put(n, d, n + (s.chance(3, 4) ? ".so" : "")); if (s.chance(1, 12)) t.put(n, d, "renamed.so"); }
    size_t nd = s.choose(ND + 1); plugin::reset_plugin_directories(); for (size_t i = 0; i < nd; ++i) { int d = s.choose(ND); m.dirs.push_back(d); plugin::add_plugin_directory(dir_of(d)); } c.label("dirs " + std::to_string(nd));
}
static std::string gen_name(pbt::Src& s) { if (s.chance(1, 12)) return "stat"; if (s.chance(1, 20)) return "renamed"; std::string n = s.chance(1, 5) ? NAMES[3 + s.choose(3)] : NAMES[s.choose(3)]; switch (s.choose(8)) { case 0: return n + ".so"; case 1: return dir_of(s.choose(ND)) + "/" + n; case 2: return dir_of(s.choose(ND)) + "/" + n + ".so"; case 3: return "../d" + std::to_string(s.choose(ND)) + "/" + n; default: return n; } }

static void reset_counts() { boost::mutex::scoped_lock l(g_m); g_trouble.clear(); g_created = g_destroyed = 0; }

static void handles(pbt::Src& s, pbt::Case& c) {
    require_setup(); reset_counts(); Tree t; Model m; gen_tree(s, t, m, c); std::ostringstream d; for (auto& f : t.files) d << f.first.substr(g_root.size()) << " "; d << "path:"; for (int x : m.dirs) d << " d" << x; d << ";";
    const size_t NH = 4, NI = 2; std::vector<std::unique_ptr<plugin_ptr<Obj> > > h(NH); std::vector<std::string> hn(NH); for (auto& x : h) x.reset(new plugin_ptr<Obj>);
    struct Inst : plugin_instance_ptr<Obj> {}; std::vector<std::unique_ptr<Inst> > in(NI); std::vector<std::string> inn(NI), ino(NI); for (auto& x : in) x.reset(new Inst);   // inn: plug-in held, ino: object's plug-in ("" = none)
    std::vector<std::pair<Obj*, std::string> > objs;
    auto unref = [&](std::string& n) { if (n.empty()) return; if (n != "stat") { auto i = m.loaded.find(n); if (--i->second.second == 0) m.loaded.erase(i); } n.clear(); };
    auto ref = [&](const std::string& n) { if (!n.empty() && n != "stat") ++m.loaded[n].second; };
    auto last = [&](const std::string& n) { int k = 0; for (auto& x : hn) k += x == n; return k == 1; };
    // the user has to destroy objects before the last handle goes away
    auto purge = [&](size_t i) { if (hn[i].empty() || !last(hn[i])) return; for (size_t k = objs.size(); k-- > 0;) if (objs[k].second == hn[i]) { h[i]->destroy(objs[k].first); objs.erase(objs.begin() + k); } };
    size_t ops = 2 + s.choose(16), opened = 0;
    for (size_t o = 0; o < ops; ++o) {
        size_t i = s.choose(NH), j = s.choose(NH); std::ostringstream w;
        switch (s.weighted({5, 2, 2, 3, 2, 2, 2, 3, 1, 1, 1})) {
            case 0: case 1: {
                std::string n = gen_name(s), now; bool file = s.chance(1, 4); w << (file ? "open_file h" : "open h") << i << " " << (n[0] == '/' ? n.substr(g_root.size()) : n); purge(i);
                std::string mine = hn[i]; Out e; bool dropped = false; auto drop = [&] { unref(hn[i]); dropped = true; };
                if (file) { drop(); e = ref_open_file(m, t, n, now); } else e = ref_open(m, t, n, now, drop);
                Out g = attempt([&] { file ? h[i]->open_file(n) : h[i]->open(n); }); PBT_EQ((int)g, (int)e, w.str() << " in " << d.str());
                if (e == OK) { ++opened; ref(now); unref(hn[i]); hn[i] = now; PBT_CHECK(h[i]->is_open(), w.str()); if (!mine.empty()) c.label("reopen"); }
                else c.label("open failed");
                break; }
            case 2: w << "close h" << i; purge(i); h[i]->close(); unref(hn[i]); break;
            case 3: { w << "assign h" << i << " = h" << j; if (i != j && hn[i] != hn[j]) purge(i); plugin_ptr<Obj>& src = *h[j]; *h[i] = src; std::string n = hn[j]; ref(n); unref(hn[i]); hn[i] = n; if (i == j) c.label("self assignment"); break; }
            case 4: { if (i == j) break; w << "copy h" << j << " to new h" << i; if (hn[i] != hn[j]) purge(i); std::unique_ptr<plugin_ptr<Obj> > x(new plugin_ptr<Obj>(*h[j])); ref(hn[j]); std::string n = hn[j]; h[i] = std::move(x); unref(hn[i]); hn[i] = n; break; }
            case 5: w << "delete h" << i; purge(i); h[i].reset(new plugin_ptr<Obj>); unref(hn[i]); break;
            case 6: { w << "create with h" << i; Obj *p = NULL; Out g = attempt([&] { p = h[i]->create(); }); PBT_EQ((int)g, (int)(hn[i].empty() ? UNDEF : OK), w.str()); if (p) { PBT_EQ(std::string(p->name()), hn[i], w.str()); PBT_EQ(p->tag(), hn[i] == "stat" ? 9 : m.loaded[hn[i]].first, w.str()); objs.push_back(std::make_pair(p, hn[i])); c.label("object"); } break; }
            case 7: { size_t k = s.choose(NI); std::string n = gen_name(s), now; w << "instance" << k << " of " << (n[0] == '/' ? n.substr(g_root.size()) : n); 
                Out e = ref_open(m, t, n, now, [&] { unref(inn[k]); }); Out g = attempt([&] { in[k]->create(n); }); PBT_EQ((int)g, (int)e, w.str() << " in " << d.str()); ino[k] = "";
                if (e == OK) { ref(now); unref(inn[k]); inn[k] = now; ino[k] = now; PBT_CHECK(!in[k]->empty(), ""); PBT_EQ(std::string(in[k]->get()->name()), now, w.str()); c.label("instance"); }
                else { c.label("instance failed"); PBT_CHECK(in[k]->empty(), w.str() << ": not empty after failure"); }
                break; }
            case 8: { size_t k = s.choose(NI); w << "reset instance" << k; in[k]->reset(); ino[k] = ""; PBT_CHECK(in[k]->empty(), "instance not empty after reset"); break; }
            case 9: { size_t k = s.choose(NI); w << "delete instance" << k; in[k].reset(new Inst); unref(inn[k]); ino[k] = ""; break; }
            case 10: { if (s.flip()) { w << "clear path"; plugin::reset_plugin_directories(); m.dirs.clear(); } else { int x = s.choose(ND); w << "add d" << x; plugin::add_plugin_directory(dir_of(x)); m.dirs.push_back(x); } break; }
        }
        if (w.str().empty()) continue; d << " " << w.str() << ";"; compare(m, w.str());
        for (size_t k = 0; k < NH; ++k) { PBT_EQ(h[k]->is_open(), !hn[k].empty(), "h" << k << " after " << w.str()); PBT_EQ(h[k]->get_plugin_name(), hn[k], "h" << k << " after " << w.str()); }
        size_t want = objs.size(); for (auto& n : ino) if (!n.empty()) ++want; { boost::mutex::scoped_lock l(g_m); PBT_EQ(g_objects.size(), want, "objects alive after " << w.str()); }
    }
    for (size_t i = 0; i < NH; ++i) { purge(i); h[i].reset(); unref(hn[i]); } in.clear(); for (auto& n : inn) unref(n); compare(m, "the end"); { boost::mutex::scoped_lock l(g_m); PBT_CHECK(g_loaded.empty() && g_objects.empty(), "something left at the end"); PBT_EQ(g_created, g_destroyed, "objects"); }
    c.note(d.str()); c.key(d.str()); c.nontrivial(opened >= 2);
}

static void search(pbt::Src& s, pbt::Case& c) {
    require_setup(); Tree t; Model m; gen_tree(s, t, m, c); std::ostringstream d; for (auto& f : t.files) d << f.first.substr(g_root.size()) << " "; d << "path:"; for (int x : m.dirs) d << " d" << x;
    bool conf = s.chance(1, 4); std::string n; if (conf) { n = s.pick({std::string("alpha"), std::string("x.y")}); size_t k = 1 + s.choose(4); while (k--) { int q = s.choose(ND + 1); t.put("garbage", q, n + (s.flip() ? ".conf" : "")); } if (s.chance(1, 4)) n += ".conf"; c.label("config file"); } else n = gen_name(s);
    std::string want = ref_find(m.dirs, n, conf ? ".conf" : ".so"), got; bool r = conf ? plugin::find_config_file(got, n) : plugin::find_plugin_file(got, n); d << "; find " << (n[0] == '/' ? n.substr(g_root.size()) : n); PBT_EQ(r, !want.empty(), d.str()); if (r) { PBT_EQ(abspath(got), abspath(want), d.str()); c.label("found"); } else c.label("missing");
    std::multiset<std::string> names, wantn; std::vector<std::string> v; plugin::get_all_plugin_names(v); names.insert(v.begin(), v.end()); for (int x : m.dirs) for (auto& f : t.files) if (f.second.second == x && f.first.size() > 3 && f.first.substr(f.first.size() - 3) == ".so") wantn.insert(stem(f.first)); wantn.insert("stat");
    std::string g, x; for (auto& q : names) g += q + " "; for (auto& q : wantn) x += q + " "; PBT_EQ(g, x, "plug-in names: " << d.str());
    if (s.chance(1, 8)) { bool thrown = false; try { plugin::add_plugin_directory(g_root + "/nowhere"); } catch (error::directory_not_found&) { thrown = true; } PBT_CHECK(thrown, "missing directory accepted"); }
    c.note(d.str()); c.key(d.str()); c.nontrivial(t.files.size() > 1);
}

static boost::uint64_t one(const Obj *o) { return o->tag() + 1; }
static void manager(pbt::Src& s, pbt::Case& c) {
    require_setup(); reset_counts(); Tree t; Model m; gen_tree(s, t, m, c); std::ostringstream d; std::unique_ptr<plugin_manager<Obj> > pm(new plugin_manager<Obj>);
    struct E { Obj *o; std::string lib; int tag; }; std::map<std::string, E> model; std::vector<std::pair<Obj*, E> > clones; std::vector<std::pair<plugin_ptr<Obj>, std::string> > held; size_t ops = 3 + s.choose(16), did = 0; static const char *IDS[] = {"/a", "/b", "/a/b", "/", ""};
    auto ref = [&](const std::string& n, int k) { if (n.empty() || n == "stat") return; auto i = m.loaded.find(n); i->second.second += k; if (!i->second.second) m.loaded.erase(i); };
    for (size_t o = 0; o < ops; ++o) {
        std::string id = IDS[s.choose(5)]; auto it = model.find(id); std::ostringstream w; bool have = it != model.end();
        switch (s.weighted({4, 2, 3, 2, 2, 1, 3, 1})) {
            case 0: { std::string n = s.chance(1, 2) ? std::string(NAMES[s.choose(3)]) : gen_name(s), now; w << "load " << id << " " << (n[0] == '/' ? n.substr(g_root.size()) : n); Obj *p = NULL; int g; try { p = pm->load(id, n); g = OK; } catch (error::duplicate_plugin&) { g = 100; } catch (error::plugin_not_found&) { g = NOT_FOUND; } catch (error::plugin_missing_symbol&) { g = SYMBOL; } catch (error::open_plugin&) { g = OPEN_ERR; }
                int e = have ? 100 : (int)ref_open(m, t, n, now, [] {}); PBT_EQ(g, e, w.str()); if (g == OK) { ++did; ref(now, 1); E x = {p, now, now == "stat" ? 9 : m.loaded[now].first}; PBT_EQ(std::string(p->name()), now, w.str()); PBT_EQ(p->tag(), x.tag, w.str()); model[id] = x; } else c.label(g == 100 ? "duplicate" : "load failed"); break; }
            case 1: if (!have) { w << "add " << id; Obj *p = new Own; pm->add(id, p); E x = {p, "", 8}; model[id] = x; ++did; } break;
            case 2: { w << "remove " << id; Out g = attempt([&] { pm->remove(id); }); PBT_EQ((int)g, (int)(have ? OK : NOT_FOUND), w.str()); if (have) { ref(it->second.lib, -1); model.erase(it); c.label("removed"); } break; }
            case 3: { w << "clone " << id; Obj *p = NULL; Out g = attempt([&] { p = pm->clone(id); }); PBT_EQ((int)g, (int)(!have ? NOT_FOUND : it->second.lib.empty() ? UNDEF : OK), w.str()); if (p) { PBT_EQ(p->tag(), it->second.tag, w.str()); // replace right away: the manager destroys the old object and owns the clone
                pm->replace(id, p); it->second.o = p; c.label("replaced"); } else if (have) { Obj *q = new Own; pm->replace(id, q); it->second.o = q; c.label("replaced"); } else { Obj *q = new Own; Out r = attempt([&] { pm->replace(id, q); }); PBT_EQ((int)r, (int)NOT_FOUND, "replace of nothing"); delete q; } break; }
            case 4: { w << "lib " << id; plugin_ptr<Obj> l = pm->get_lib_ptr(id); PBT_EQ(l.get_plugin_name(), have ? it->second.lib : std::string(), w.str()); if (l.is_open() && held.size() < 3) { ref(it->second.lib, 1); held.push_back(std::make_pair(l, it->second.lib)); } break; }
            case 5: w << "clear"; pm->clear(); for (auto& x : model) ref(x.second.lib, -1); model.clear(); break;
            case 6: { w << "run " << id; int n = 0; boost::uint64_t sum = 0; for (auto& x : model) sum += x.second.tag + 1; pm->run([&](Obj *) { ++n; }); PBT_EQ(n, (int)model.size(), w.str()); PBT_EQ(pm->get_statistic(one), sum, w.str());
                Obj *seen = NULL; Out g = attempt([&] { pm->run(id, [&](Obj *p) { seen = p; }); }); PBT_EQ((int)g, (int)(have ? OK : NOT_FOUND), w.str()); PBT_CHECK(seen == (have ? it->second.o : NULL), w.str()); boost::uint64_t st = 0; g = attempt([&] { st = pm->get_statistic(id, one); }); PBT_EQ((int)g, (int)(have ? OK : NOT_FOUND), w.str()); PBT_EQ(st, (boost::uint64_t)(have ? it->second.tag + 1 : 0), w.str()); break; }
            case 7: if (!held.empty()) { size_t k = s.choose(held.size()); w << "release lib"; ref(held[k].second, -1); held[k].first.close(); held.erase(held.begin() + k); } break;
        }
        if (w.str().empty()) continue; d << w.str() << "; "; compare(m, w.str()); PBT_EQ(pm->empty(), model.empty(), w.str()); for (const char *q : IDS) { auto f = model.find(q); Obj *x = f == model.end() ? NULL : f->second.o; PBT_CHECK(pm->get(q) == x && const_cast<const plugin_manager<Obj>&>(*pm).get(q) == x, "get " << q << " after " << w.str()); }
        boost::mutex::scoped_lock l(g_m); PBT_EQ(g_objects.size(), model.size(), "objects alive after " << w.str());
    }
    pm.reset(); for (auto& x : model) ref(x.second.lib, -1); for (auto& x : held) ref(x.second, -1); held.clear(); compare(m, "the end"); boost::mutex::scoped_lock l(g_m); PBT_CHECK(g_loaded.empty() && g_objects.empty(), "something left at the end"); c.note(d.str()); c.key(d.str()); c.nontrivial(did >= 2);
}

/// threads share the library table and a manager
static void threads(pbt::Src& s, pbt::Case& c) {
    require_setup(); reset_counts(); Tree t; plugin::reset_plugin_directories(); plugin::add_plugin_directory(dir_of(0)); for (int i = 0; i < 3; ++i) t.put(NAMES[i], 0, std::string(NAMES[i]) + ".so");
    unsigned nt_ = 2 + s.choose(3), rounds = 5 + s.choose(30); std::vector<uint64_t> seeds; for (unsigned i = 0; i < nt_; ++i) seeds.push_back(s.choose(1u << 30)); std::atomic<int> bad(0), loads(0), dups(0); plugin_manager<Obj> pm; std::vector<boost::thread> v; static const char *IDS[] = {"/x", "/y"};
    for (unsigned k = 0; k < nt_; ++k) v.push_back(boost::thread([&, k] { try { uint64_t st = seeds[k]; plugin_ptr<Obj> a, b; for (unsigned r = 0; r < rounds; ++r) { uint64_t x = pbt::splitmix(st); switch (x % 6) {
        case 0: a.open(NAMES[x / 8 % 3]); break; case 1: b = a; break; case 2: a.close(); break; case 3: if (b.is_open()) { std::string n = b.get_plugin_name(); Obj *o = b.create(); if (n != o->name()) ++bad; b.destroy(o); } break;
        case 4: try { pm.load(IDS[x / 8 % 2], NAMES[x / 16 % 3]); ++loads; } catch (error::duplicate_plugin&) { ++dups; } break; case 5: try { pm.remove(IDS[x / 8 % 2]); --loads; } catch (error::plugin_not_found&) {} break; } } } catch (...) { ++bad; } }));
    for (auto& x : v) x.join(); c.note(std::to_string(nt_) + " threads x " + std::to_string(rounds)); c.nontrivial(); PBT_EQ((int)bad, 0, "wrong object or exception"); int n = 0; pm.run([&](Obj *) { ++n; }); { boost::mutex::scoped_lock l(g_m); PBT_EQ((int)g_objects.size(), n, "objects that nobody owns"); } PBT_EQ((int)loads, n, "successful loads minus removals"); pm.clear();
    boost::mutex::scoped_lock l(g_m); PBT_CHECK(g_loaded.empty() && g_objects.empty(), "something left at the end"); PBT_CHECK(g_trouble.empty(), g_trouble);
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P18"; cfg.level = "exploration";
    cfg.rule = "handles/manager: at least two successful opens or loads; search: at least two files; distinct by history";
    cfg.assumptions = {"objects created through a handle are destroyed before the last handle on their plug-in goes away", "plug-in files are not changed while they are loaded"};
    cfg.subs = {{"handles", handles, 30000, 250000, 30, 3, 3, 0}, {"search", search, 20000, 300000, 30, 3, 3, 0}, {"manager", manager, 25000, 250000, 30, 3, 3, 0}, {"threads", threads, 6000, 30000, 60, 10, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
