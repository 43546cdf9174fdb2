// BUILD: services
// BUILD: plugins
// Objects that threads share, built with ThreadSanitizer: any data race in a generated mix of operations is a failure,
// and so is an answer that no order of the operations explains.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/http/server.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/types.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/algorithm.hpp>
#include <pion/scheduler.hpp>
#include <pion/tcp/stream.hpp>
#include <pion/tcp/timer.hpp>
#include <pion/user.hpp>
#include <pion/spdy/parser.hpp>
#include <pion/http/parser.hpp>
#include "plugins/iface.hpp"
#include <FileService.hpp>
#include <boost/thread.hpp>
#include <fstream>
#include <sys/stat.h>
#include <atomic>
#include <memory>
using namespace pion;

// stop() shuts down the connection that waits to be accepted while Asio may be assigning its socket
extern "C" const char *__tsan_default_suppressions() { return "race:reactive_socket_service_base::do_assign\n"; }

// the clock of the sessions; only the case that makes time pass moves it
static std::atomic<long> g_later(0);
extern "C" time_t time(time_t *t) { timespec n; clock_gettime(CLOCK_REALTIME, &n); time_t v = n.tv_sec + g_later; if (t) *t = v; return v; }

/// releases all threads at once; failures in threads are reported by the main thread
struct Team {
    std::atomic<bool> go; std::atomic<int> ready; boost::thread_group g; boost::mutex mx; std::string failure; int n;
    Team() : go(false), ready(0), n(0) {}
    ~Team() { go = true; g.join_all(); }
    void add(std::function<void()> f) { ++n; g.create_thread([this, f] { ++ready; while (!go) boost::this_thread::yield(); try { f(); } catch (pbt::Fail& e) { boost::mutex::scoped_lock l(mx); failure = e.msg; } catch (pbt::Discard&) {} catch (std::exception& e) { boost::mutex::scoped_lock l(mx); failure = std::string("exception: ") + e.what(); } }); }
    void run() { while (ready < n) boost::this_thread::yield(); go = true; g.join_all(); n = 0; ready = 0; if (!failure.empty()) throw pbt::Fail(failure); }
};
static void hello(const http::request_ptr& q, const tcp::connection_ptr& c) { http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c))); w << "hello " << (q->get_user() ? q->get_user()->get_username() : std::string("-")); w->send(); }

static void server(pbt::Src& s, pbt::Case& c) {
    std::unique_ptr<single_service_scheduler> s1; std::unique_ptr<one_to_one_scheduler> s2; scheduler *sc; int kind = s.choose(2); if (kind == 0) { s1.reset(new single_service_scheduler); sc = s1.get(); } else { s2.reset(new one_to_one_scheduler); sc = s2.get(); } sc->set_num_threads(1 + s.choose(4));
    struct Down { scheduler *sc; ~Down() { sc->shutdown(); } } down = {sc};
    boost::asio::ip::tcp::endpoint ep(boost::asio::ip::address_v4::loopback(), 0); std::unique_ptr<http::plugin_server> srv(new http::plugin_server(*sc, ep)); srv->add_resource("/a", hello); srv->add_resource("/b", hello); srv->add_redirect("/r", "/a");
    int auth = s.choose(3); user_manager_ptr um(new user_manager); http::auth_ptr au; if (auth == 1) au.reset(new http::basic_auth(um)); if (auth == 2) au.reset(new http::cookie_auth(um)); if (au) { au->add_restrict("/a"); au->add_user("ann", "pw"); au->add_user("bob", "pw"); srv->set_authentication(au); }
    std::string dir = pbt::scratch_dir() + "/d" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); for (int i = 0; i < 3; ++i) std::ofstream((dir + "/f" + std::to_string(i)).c_str()) << std::string(10 + i * 3000, 'x');
    plugins::FileService *fs = new plugins::FileService; unlink((dir + "/g0").c_str()); fs->set_option("directory", dir); fs->set_option("writable", "true"); fs->set_option("cache", s.pick({std::string("0"), std::string("1"), std::string("2")})); fs->set_option("scan", s.pick({std::string("0"), std::string("1"), std::string("2"), std::string("3")})); srv->add_service("/f", fs); srv->start(); unsigned port = srv->get_port();
    size_t clients = 1 + s.choose(4); std::vector<std::string> scripts(clients); for (auto& x : scripts) { size_t n = 1 + s.choose(8); std::string ops = auth == 2 && s.flip() ? "lla" : "aarblfffnpxgwMD"; while (n--) x += ops[s.choose(ops.size())]; } size_t admins = s.choose(3); std::vector<std::string> admin(admins); for (auto& x : admin) { size_t n = 1 + s.choose(10); while (n--) x += "uUpPrRdctoi"[s.choose(11)]; } bool stop_early = s.chance(1, 3); unsigned stop_after = s.choose(4000), change = s.choose(3);
    std::string note = std::string(kind ? "one-to-one " : "single ") + std::to_string(sc->get_num_threads()) + " threads, auth " + std::to_string(auth); for (auto& x : scripts) note += " " + x; for (auto& x : admin) note += " +" + x; if (stop_early) note += " stop"; c.note(note); c.key(note); c.nontrivial(clients + admins > 1);
    boost::mutex idm; std::set<std::string> ids; std::atomic<bool> stopped(false); Team t;
    for (auto& script : scripts) t.add([&, script] {
        net::Client k; std::string cookie;
        for (char o : script) {
            if (k.fd < 0 || k.eof) { if (!k.connect(port)) { if (!stop_early) throw pbt::Fail("cannot connect"); return; } } std::string q, extra = auth == 1 ? "Authorization: Basic YW5uOnB3\r\n" : auth == 2 && !cookie.empty() ? "Cookie: " + cookie + "\r\n" : ""; bool head = false, bad = false; std::string want = "/";
            switch (o) { case 'a': want = "/a"; break; case 'r': want = "/r"; break; case 'b': want = "/b"; break; case 'l': want = "/login?user=ann&pass=pw"; break; case 'f': want = "/f/f" + std::to_string(script.size() % 3); break; case 'n': want = "/none<x>"; break; case 'p': want = "/f/../x"; break; case 'x': want = "/b?x=1&y=%20"; break; case 'g': bad = true; break; case 'w': want = "/f/f2"; head = true; break; case 'M': case 'D': want = "/f/g0"; break; }
            q = bad ? "GARBAGE\r\n\r\n" : std::string(head ? "HEAD " : o == 'M' ? "PUT " : o == 'D' ? "DELETE " : "GET ") + want + " HTTP/1.1\r\nHost: h\r\n" + extra + (o == 'x' ? "Connection: close\r\n" : "") + (o == 'M' ? "Content-Length: 5\r\n\r\nhello" : "\r\n"); k.in.clear(); if (!k.send(q)) { if (!stop_early && !k.eof) throw pbt::Fail("cannot send " + q); k.drop(); continue; }
            bool ok = k.wait([&] { net::Response r = net::parse(k.in, head, k.eof); return r.complete || r.bad; }); net::Response r = net::parse(k.in, head, k.eof); if (!r.complete || r.bad) { if (stop_early) { k.drop(); continue; } throw pbt::Fail("no response to " + pbt::show(q) + (ok ? "" : " in time") + ": " + pbt::show(k.in)); }
            if (o == 'l' && auth == 2 && r.status == 204) { cookie = r.header("Set-Cookie"); cookie = cookie.substr(0, cookie.find(';')); boost::mutex::scoped_lock l(idm); if (!ids.insert(cookie).second) throw pbt::Fail("two logins have the same session identifier " + cookie); }
            if (o == 'f' && change == 0 && auth != 1) { size_t i = script.size() % 3; if (r.status == 200 && r.body != std::string(10 + i * 3000, 'x')) throw pbt::Fail("wrong file content of " + std::to_string(r.body.size()) + " bytes"); } if (o == 'b' && r.status == 200 && r.body.compare(0, 6, "hello ") != 0) throw pbt::Fail("wrong content " + pbt::show(r.body));
            if (o == 'x' || o == 'g') k.drop();
        } });
    for (auto& script : admin) t.add([&, script] { for (char o : script) switch (o) { case 'u': um->add_user("eve", "pw"); break; case 'U': um->remove_user("eve"); break; case 'p': if (au) au->add_permit("/a/x"); break; case 'P': if (au) au->add_restrict("/c"); break; case 'r': srv->add_resource("/c", hello); break; case 'R': srv->remove_resource("/c"); break; case 'd': srv->add_redirect("/d", "/b"); break; case 'c': srv->get_connections(); srv->is_listening(); break; case 't': http::types::get_date_string(1400000000); break; case 'o': um->update_user("bob", "other"); um->update_user("ann", "pw"); break; case 'i': sc->get_num_threads(); sc->is_running(); break; } });
    if (stop_early) { t.add([&] { usleep(stop_after); srv->stop(false); stopped = true; }); if (s.flip()) t.add([&] { srv->join(); if (srv->is_listening()) throw pbt::Fail("join() returns before the server stopped"); }); } t.run(); srv->stop(false); srv.reset();
}

/// logins, session checks and logouts by several threads at once on one authentication object
static void sessions(pbt::Src& s, pbt::Case& c) {
    size_t threads = 2 + s.choose(4); size_t again = s.flip() ? s.choose(40) : 0; bool basic = s.chance(1, 3), clock = s.chance(1, 3); std::vector<std::string> scripts(threads); for (auto& x : scripts) { size_t n = 2 + s.choose(14); while (n--) x += "llLaaaaooxuUt"[s.choose(clock ? 13 : 12)]; } std::string note = basic ? "basic" : "cookie"; for (auto& x : scripts) note += " " + x; c.note(note); c.key(note); c.nontrivial();
    user_manager_ptr um(new user_manager); http::auth_ptr au; if (basic) au.reset(new http::basic_auth(um)); else au.reset(new http::cookie_auth(um)); au->add_restrict("/a"); au->add_user("ann", "pw"); au->add_user("bob", "pw"); boost::mutex idm; std::set<std::string> ids; std::vector<std::string> shared_ids; Team t;
    for (auto& script : scripts) t.add([&, script] {
        boost::asio::io_service io; std::string cookie, name;
        for (char o : script) {
            if (o == 'u') { um->add_user("eve", "pw"); continue; } if (o == 'U') { um->remove_user("eve"); continue; } if (o == 't') { g_later += 1801; continue; }
            net::Pair pair; tcp::connection_ptr conn(new tcp::connection(io)); net::adopt(*conn, pair.fd[0]); net::Client k(pair.fd[1]); pair.fd[1] = -1; http::request_ptr q(new http::request(o == 'l' || o == 'L' ? "/login" : o == 'o' || o == 'x' ? "/logout" : "/a/b")); std::string used = cookie;
            if (o == 'l' || o == 'L') { q->get_queries().insert(std::make_pair("user", o == 'l' ? "ann" : "bob")); q->get_queries().insert(std::make_pair("pass", "pw")); }
            if (o == 'x') { boost::mutex::scoped_lock l(idm); if (!shared_ids.empty()) { used = shared_ids.back(); shared_ids.pop_back(); } else continue; } if (basic) q->add_header("Authorization", o == 'l' ? "Basic YW5uOnB3" : "Basic Ym9iOnB3"); else if (!used.empty()) q->get_cookies().insert(std::make_pair(name, used));
            bool pass = au->handle_request(q, conn); io.reset(); io.run(); if (basic) { if (!pass) throw pbt::Fail("valid credentials are refused"); continue; }
            if (o == 'a') { if (pass ? cookie.empty() : !cookie.empty() && !clock) throw pbt::Fail(pass ? "passed without a session" : "a valid session is refused"); if (pass) for (size_t i = 0; i < again; ++i) { http::request_ptr q2(new http::request("/a/b")); q2->get_cookies().insert(std::make_pair(name, used)); if (!au->handle_request(q2, conn) && !clock) throw pbt::Fail("a valid session is refused"); if (clock) break; } continue; }
            if (o == 'o' || o == 'x') { if (pass) throw pbt::Fail("a logout request is passed on"); if (o == 'o') cookie.clear(); continue; }
            k.wait([&] { net::Response r = net::parse(k.in, false, k.eof); return r.complete || r.bad; }); net::Response r = net::parse(k.in, false, k.eof); if (!r.complete || r.bad) throw pbt::Fail("no response to a login: " + pbt::show(k.in)); std::string h = r.header("Set-Cookie"); size_t e = h.find('='); if (e == std::string::npos) throw pbt::Fail("login without a session: " + h); name = h.substr(0, e); h = h.substr(e + 1, h.find(';') - e - 1); if (!h.empty() && h[0] == '"') h = h.substr(1, h.size() - 2);
            boost::mutex::scoped_lock l(idm); if (!ids.insert(h).second) throw pbt::Fail("two logins have the same session identifier " + h); if (!cookie.empty()) shared_ids.push_back(cookie); cookie = h;
        } });
    t.run();
}

struct Thing { int value; Thing() : value(7) {} virtual ~Thing() { value = 0; } };
extern "C" void *make_thing(void) { return new Thing; }
extern "C" void destroy_thing(Thing *p) { delete p; }
static void shared(pbt::Src& s, pbt::Case& c) {
    size_t threads = 2 + s.choose(4); std::vector<std::string> scripts(threads); for (auto& x : scripts) { size_t n = 2 + s.choose(30); while (n--) x += "uUmvhHefrRsxdbctSADPQqGgLLlCwWjnOEkKY"[s.choose(37)]; }
    if (s.flip()) { std::string few; for (size_t i = 2 + s.choose(3); i; --i) few += "uUmvhHefrRsxdbtPQqGgLLlCwWjnOEkKY"[s.choose(33)]; for (auto& x : scripts) { x.clear(); size_t n = 20 + s.choose(100); while (n--) x += few[s.choose(few.size())]; } } std::string note; for (auto& x : scripts) note += x + " "; c.note(note); c.key(note); c.nontrivial();
    user_manager um; plugin_manager<Thing> pm, pm2; single_service_scheduler s1; one_to_one_scheduler s2; s1.set_num_threads(2); s2.set_num_threads(3); std::atomic<int> posted(0), ran(0); Team t; std::atomic<int> fresh(0); um.add_user("base", "pw"); pm.add("/base", new Thing);
    for (auto& script : scripts) t.add([&, script] { std::vector<std::string> mine; int held1 = 0;
        for (char o : script) switch (o) {
            case 'u': um.add_user("x", "pw"); break; case 'U': um.remove_user("x"); break; case 'm': if (!um.get_user("base", "pw")) throw pbt::Fail("user with the right password is refused"); break; case 'v': { user_ptr u = um.get_user("x"); if (u && u->get_username() != "x") throw pbt::Fail("another user"); break; } case 'h': um.update_user("x", "pw2"); break; case 'H': um.empty(); if (um.get_user("base", "pW")) throw pbt::Fail("wrong password accepted"); break;
            case 'e': { std::string id = "/t" + std::to_string(++fresh); pm.add(id, new Thing); mine.push_back(id); break; } case 'f': { Thing *x = pm.find("/base/y"); if (!x || x->value != 7) throw pbt::Fail("plug-in is not found"); break; } case 'r': if (!mine.empty()) { pm.remove(mine.back()); mine.pop_back(); } break; case 'R': pm.run([](Thing *x) { if (x->value != 7) throw pbt::Fail("plug-in is gone"); }); break; case 's': for (int i = 0; i < 20; ++i) if ((i % 2 ? (const Thing*)pm.get("/base") : const_cast<const plugin_manager<Thing>&>(pm).get("/base")) == NULL) throw pbt::Fail("plug-in is not there"); pm.empty(); break; case 'x': if (!mine.empty() && pm.get(mine.back()) == NULL) throw pbt::Fail("plug-in that was added is not there"); break;
            case 'd': if (http::types::get_date_string(784111777) != "Sun, 06 Nov 1994 08:49:37 GMT") throw pbt::Fail("wrong date " + http::types::get_date_string(784111777)); break; case 'b': { std::string e, d; algorithm::base64_encode("some text", e); algorithm::base64_decode(e, d); if (d != "some text") throw pbt::Fail("base64"); break; }
            case 'c': ++posted; s1.post([&] { ++ran; }); break; case 't': s2.get_io_service(); s2.is_running(); break; case 'S': ++posted; s2.post([&] { ++ran; }); break; case 'A': s1.add_active_user(); ++held1; break; case 'P': { std::string f; plugin::find_plugin_file(f, "none"); break; } case 'Q': plugin::add_plugin_directory(pbt::scratch_dir()); break; case 'q': plugin::reset_plugin_directories(); break; case 'G': { std::vector<std::string> v; plugin::get_all_plugin_names(v); break; }
            case 'g': if (pm.get_statistic([](const Thing *x) { return (boost::uint64_t)x->value; }) < 7) throw pbt::Fail("statistic"); if (pm.get_statistic("/base", [](const Thing *x) { return (boost::uint64_t)x->value; }) != 7) throw pbt::Fail("statistic of one"); break; case 'W': pm.run("/base", [](Thing *x) { if (x->value != 7) throw pbt::Fail("plug-in is gone"); }); break;
            case 'L': { std::string id = "/l" + std::to_string(++fresh); Thing *x = pm.load(id, "StaticThing"); if (!x || x->value != 7) throw pbt::Fail("load"); mine.push_back(id); break; } case 'l': { plugin_ptr<Thing> l; l.open("StaticThing"); Thing *x = l.create(); if (x->value != 7) throw pbt::Fail("create"); l.destroy(x); break; } case 'C': if (!mine.empty() && mine.back()[1] == 'l') { Thing *x = pm.clone(mine.back()); if (!x || x->value != 7) throw pbt::Fail("clone"); delete x; } break;
            case 'w': if (!mine.empty() && mine.back()[1] == 't') pm.replace(mine.back(), new Thing); break; case 'j': if (!mine.empty()) { plugin_ptr<Thing> l(pm.get_lib_ptr(mine.back())); if ((mine.back()[1] == 'l') != l.is_open()) throw pbt::Fail("library of a plug-in"); } break; case 'n': { plugin_ptr<Thing> a, b; a.open("StaticThing"); b = a; a.close(); if (!b.is_open() || a.is_open()) throw pbt::Fail("copy of a plug-in"); plugin_ptr<Thing> d(b); if (d.get_plugin_name() != "StaticThing") throw pbt::Fail("name of a plug-in"); break; }
            case 'k': um.add_user_hash("x", "1eb0d3b6b8a1f0a1d1ac6aaf5bc3b1ee08b6b0a1"); break; case 'K': um.update_user_hash("x", "1eb0d3b6b8a1f0a1d1ac6aaf5bc3b1ee08b6b0a1"); break;
            case 'O': { plugin_ptr<Thing> l; try { l.open_file("/nonexistent/thing.so"); throw pbt::Fail("a missing file is opened"); } catch (error::plugin_not_found&) {} catch (error::open_plugin&) {} break; } case 'E': plugin::add_static_entry_point("Static" + std::to_string(getpid()) + "." + std::to_string(++fresh), (void*)make_thing, (void*)destroy_thing); break;
            case 'Y': switch (++fresh % 4) { case 3: try { pm2.add("/z", new Thing); } catch (error::duplicate_plugin&) {} break; case 0: pm2.clear(); break; case 1: pm2.empty(); pm2.get("/z"); break; default: pm2.clear(); pm2.run([](Thing *x) { if (x->value != 7) throw pbt::Fail("plug-in is gone"); }); } break;
            case 'D': if (held1) { s1.remove_active_user(); --held1; } break;
        } while (held1--) s1.remove_active_user(); });
    s1.add_active_user(); s2.add_active_user(); try { t.run(); } catch (...) { s1.remove_active_user(); s2.remove_active_user(); s1.shutdown(); s2.shutdown(); throw; } for (int i = 0; ran < posted && i < 20000; ++i) usleep(1000); s1.remove_active_user(); s2.remove_active_user(); s1.shutdown(); s2.shutdown(); PBT_EQ((int)ran, (int)posted, "posted work that ran");
}

/// plug-ins from shared libraries, opened, copied, used and released by several threads
static std::atomic<int> g_loaded[2], g_objects; static std::atomic<bool> g_twice;
extern "C" void verif_loaded(const char *name, int, int d) { int n = (g_loaded[name[0] == 'b'] += d); if (n < 0 || n > 1) g_twice = true; }
extern "C" void verif_object(const char *, int, void *, int d) { g_objects += d; }
static void libraries(pbt::Src& s, pbt::Case& c) {
    static std::string dir; if (dir.empty()) { char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0; std::string src = exe; src = src.substr(0, src.rfind('/')); src = src.substr(0, src.rfind('/')) + "/plugins/"; dir = pbt::scratch_dir() + "/lib" + std::to_string(getpid()); mkdir(dir.c_str(), 0755); for (const char *nm : {"alpha", "beta"}) { std::ifstream i((src + nm + "_0").c_str(), std::ios::binary); std::ofstream o((dir + "/" + nm + ".so").c_str(), std::ios::binary); o << i.rdbuf(); } std::ofstream((dir + "/junk.so").c_str()) << "no library"; }
    plugin::reset_plugin_directories(); plugin::add_plugin_directory(dir); size_t threads = 2 + s.choose(4); std::vector<std::string> scripts(threads); std::string few; for (size_t i = 3 + s.choose(4); i; --i) few += "abfFcdmxjSgn"[s.choose(12)]; for (auto& x : scripts) { size_t n = 4 + s.choose(40); while (n--) x += few[s.choose(few.size())]; } std::string note; for (auto& x : scripts) note += x + " "; c.note(note); c.key(note); c.nontrivial();
    plugin_manager<Obj> pm; static std::atomic<int> fresh(0); Team t; g_objects = 0; g_twice = false;
    for (auto& script : scripts) t.add([&, script] { plugin_ptr<Obj> h; std::vector<std::string> mine;
        for (char o : script) switch (o) {
            case 'a': h.open("alpha"); break; case 'b': h.open("beta"); break; case 'f': h.open_file(dir + "/alpha.so"); break; case 'F': h.open_file(dir + "/beta.so"); break; case 'S': h.open("StaticThing"); break;
            case 'c': h.close(); break; case 'd': { plugin_ptr<Obj> k(h), l; l = k; if (l.is_open() != h.is_open() || (h.is_open() && l.get_plugin_name() != h.get_plugin_name())) throw pbt::Fail("a copy differs"); break; }
            case 'm': if (h.is_open() && h.get_plugin_name() != "StaticThing") { Obj *x = h.create(); std::string nm = x->name(); h.destroy(x); if (nm != h.get_plugin_name()) throw pbt::Fail("object of " + nm + " from " + h.get_plugin_name()); } break;
            case 'x': { std::string id = "/o" + std::to_string(++fresh); Obj *x = pm.load(id, fresh % 2 ? "alpha" : "beta"); if (!x || x->tag() != 0) throw pbt::Fail("object of another library"); mine.push_back(id); break; }
            case 'n': if (!mine.empty()) { pm.remove(mine.back()); mine.pop_back(); } break;
            case 'j': { plugin_ptr<Obj> k; try { k.open_file(dir + "/junk.so"); throw pbt::Fail("junk is opened"); } catch (error::open_plugin&) {} break; }
            case 'g': { std::vector<std::string> v; plugin::get_all_plugin_names(v); break; }
        } });
    t.run(); pm.clear(); PBT_CHECK(!g_twice, "a library is in memory twice, or was unloaded twice: " << note); PBT_EQ((int)g_objects, 0, "objects that were not destroyed: " << note); PBT_CHECK(g_loaded[0] == 0 && g_loaded[1] == 0, "libraries that nobody uses stay in memory: " << note);
}

/// schedulers that are started, used, joined and shut down by several threads
static void life(pbt::Src& s, pbt::Case& c) {
    std::unique_ptr<multi_thread_scheduler> sc; bool one = s.flip(); if (one) sc.reset(new one_to_one_scheduler); else sc.reset(new single_service_scheduler); sc->set_num_threads(1 + s.choose(3)); size_t threads = 2 + s.choose(4), joiners = s.choose(3); std::vector<std::string> scripts(threads); for (auto& x : scripts) { size_t n = 1 + s.choose(12); while (n--) x += "sswwwdirg"[s.choose(9)]; } std::string note = std::string(one ? "one-to-one " : "single ") + std::to_string(joiners) + " joiners"; for (auto& x : scripts) note += " " + x; c.note(note); c.key(note); c.nontrivial();
    Team t; std::atomic<bool> going(true); boost::thread_group j; for (size_t i = 0; i < joiners; ++i) j.create_thread([&] { while (going) { sc->join(); boost::this_thread::yield(); } });
    for (auto& script : scripts) t.add([&, script] { for (char o : script) switch (o) {
        case 's': sc->startup(); break; case 'd': sc->shutdown(); break; case 'i': sc->is_running(); sc->get_num_threads(); break;
        case 'w': case 'g': { sc->add_active_user(); std::atomic<int> ran(0); size_t n = o == 'w' ? 1 : 5; for (size_t i = 0; i < n; ++i) { if (o == 'g') sc->get_io_service().post([&] { ++ran; }); else sc->post([&] { ++ran; }); } for (int i = 0; ran < (int)n && i < 20000; ++i) usleep(i < 50 ? 20 : 1000); bool ok = ran == (int)n; if (!ok) { usleep(100000); throw pbt::Fail("work is not done while a user is registered"); } sc->remove_active_user(); break; }
        case 'r': sc->add_active_user(); sc->remove_active_user(); break;
    } });
    struct End { multi_thread_scheduler& sc; std::atomic<bool>& going; boost::thread_group& j; ~End() { going = false; sc.shutdown(); j.join_all(); } } end = {*sc, going, j}; t.run();
}

/// readers with timeouts, on an I/O service run by several threads; the timers fire while data arrives
static void timers(pbt::Src& s, pbt::Case& c) {
    boost::asio::io_service io; std::unique_ptr<boost::asio::io_service::work> work(new boost::asio::io_service::work(io)); size_t threads = 2 + s.choose(3), n = 1 + s.choose(12); boost::thread_group g; for (size_t i = 0; i < threads; ++i) g.create_thread([&] { io.run(); });
    struct One { net::Pair pair; net::Client cl; tcp::connection_ptr conn; boost::shared_ptr<tcp::timer> t; std::atomic<int> events; One() : events(0) {} void got(const boost::system::error_code& ec, size_t) { ++events; t->cancel(); } }; std::vector<std::unique_ptr<One> > v; std::string plan; for (size_t i = 0; i < n; ++i) { plan += "dcDsx"[s.choose(5)]; v.push_back(std::unique_ptr<One>(new One)); } unsigned wait = s.choose(500); c.note(plan + " " + std::to_string(threads) + " threads"); c.key(plan + std::to_string(threads) + "/" + std::to_string(wait)); c.nontrivial();
    for (auto& p : v) { p->conn = tcp::connection_ptr(new tcp::connection(io)); net::adopt(*p->conn, p->pair.fd[0]); p->cl.fd = p->pair.fd[1]; p->pair.fd[1] = -1; p->t.reset(new tcp::timer(p->conn)); }
    for (size_t i = 0; i < n; ++i) { One& p = *v[i]; p.t->start(plan[i] == 's' ? 60 : 0); p.conn->async_read_some(boost::bind(&One::got, &p, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)); } if (wait) usleep(wait);
    for (size_t i = 0; i < n; ++i) { One& p = *v[i]; switch (plan[i]) { case 'd': case 's': p.cl.send("x"); break; case 'D': p.cl.send("xx"); p.t->cancel(); break; case 'c': p.t->cancel(); p.cl.send("y"); break; case 'x': p.cl.half_close(); break; } }
    for (int i = 0; i < 5000; ++i) { bool all = true; for (auto& p : v) if (!p->events) all = false; if (all) break; usleep(1000); } std::string bad; for (size_t i = 0; i < n; ++i) if (v[i]->events != 1) bad = "read of kind " + plan.substr(i, 1) + " ends " + std::to_string((int)v[i]->events) + " times"; work.reset(); for (auto& p : v) p->cl.drop(); g.join_all(); if (!bad.empty()) throw pbt::Fail(bad);
}

/// each end of a stream used by its own thread
static void streams(pbt::Src& s, pbt::Case& c) {
    size_t n = 1 + s.choose(5), size = 1 + s.choose(s.flip() ? 100 : 30000), piece = 1 + s.choose(3000); std::string text = s.blob(size, "abcdefgh"); c.note(std::to_string(n) + " streams of " + std::to_string(size) + " bytes"); c.key(std::to_string(n) + "/" + std::to_string(size) + "/" + std::to_string(piece)); c.nontrivial(); single_service_scheduler sc; sc.set_num_threads(2);
    boost::asio::io_service aio; boost::asio::ip::tcp::acceptor acc(aio, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)); unsigned port = acc.local_endpoint().port(); Team t;
    for (size_t i = 0; i < n; ++i) { t.add([&] { tcp::stream in(sc.get_io_service()); if (in.connect(boost::asio::ip::address_v4::loopback(), port)) throw pbt::Fail("connect"); for (size_t p = 0; p < text.size(); p += piece) { in << text.substr(p, piece); in.flush(); } in << '\n'; in.flush(); std::string back; std::getline(in, back); if (back != text) throw pbt::Fail("stream returns " + std::to_string(back.size()) + " of " + std::to_string(text.size()) + " bytes"); in.close(); });
        t.add([&] { tcp::stream out(sc.get_io_service()); static boost::mutex mx; { boost::mutex::scoped_lock l(mx); if (out.accept(acc)) throw pbt::Fail("accept"); } std::string line; std::getline(out, line); out << line << '\n'; out.flush(); char x; out.get(x); out.close(); }); }
    sc.add_active_user(); try { t.run(); } catch (...) { sc.remove_active_user(); sc.shutdown(); throw; } sc.remove_active_user(); sc.shutdown();
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P30"; cfg.level = "exploration"; cfg.rule = "at least two threads used the same object at once; distinct by the scripts of the threads";
    cfg.assumptions = {"options, handlers, ports and authentication are set before a server starts", "start() and stop() are not called concurrently with each other", "the password of a user object is read through the user manager only", "a socket that is being accepted while its server stops is left to Asio", "ThreadSanitizer sees accesses made by pion and Boost headers, not those inside shared libraries"};
    cfg.subs = {{"server", server, 900, 15000, 120, 30, 1, 0}, {"sessions", sessions, 500, 10000, 90, 30, 1, 0}, {"shared", shared, 5000, 40000, 90, 30, 1, 0}, {"libraries", libraries, 6000, 100000, 90, 30, 1, 0}, {"life", life, 6000, 100000, 90, 30, 1, 0}, {"timers", timers, 1500, 20000, 90, 30, 1, 0}, {"streams", streams, 500, 5000, 90, 30, 1, 0}};
    plugin::add_static_entry_point("StaticThing", (void*)make_thing, (void*)destroy_thing);
    // boost::call_once synchronises inside libboost_thread, where ThreadSanitizer does not see it: done once before any thread exists
    http::parser::get_error_category(); std::string f; plugin::find_plugin_file(f, "none");
    return pbt::main(argc, argv, cfg);
}
