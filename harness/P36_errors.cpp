// BUILD: services
// BUILD: plugins
// Errors: every failing call throws the kind of exception it names, which tells what failed, however it is caught,
// copied, carried to other threads or reported to an error handler.
#include "ask.hpp"
#include <pion/error.hpp>
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/user.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <boost/exception_ptr.hpp>
#include <boost/exception/enable_current_exception.hpp>
#include <boost/thread.hpp>
#include <FileService.hpp>
#include <algorithm>
#include <fstream>
#include <functional>
#include <memory>
#include <sys/stat.h>
using namespace pion;

static std::string name(pbt::Src& s) { static const char *W[] = {"option", "a b", "caf\xc3\xa9", "%41", "x:y", "[z]", "foo.so", "q\"uote", "line\nbreak", ".."}; std::string r = "no" + std::string(s.chance(2, 3) ? s.pick(W) : "") ; size_t n = s.choose(12); while (n--) { char c = (char)(1 + s.choose(255)); if (c != '/') r += c; } return r; }
struct Only : boost::exception {}; struct Plain : std::exception { const char *what() const throw() { return "plain failure"; } };

/// what every error object must satisfy
static void described(const pion::exception& e, const std::string& kind, const std::string *what, const std::string& d) {
    std::string w = e.what(); PBT_CHECK(!w.empty(), "an error says nothing: " << d); PBT_EQ(w, what ? kind + ": " + *what : kind, "what(): " << d); PBT_EQ(std::string(dynamic_cast<const std::exception&>(e).what()), w, "what() changes: " << d); PBT_CHECK(dynamic_cast<const boost::exception*>(&e) != NULL, "not a boost::exception: " << d);
}
template <typename E> static std::string kind() { static std::string k = E().what(); return k; }
/// "what [file:line]"; the file is known for errors thrown here
static void located(const std::string& di, const std::string& what, const std::string& file, const std::string& d) {
    PBT_CHECK(di.compare(0, what.size(), what) == 0, "diagnostic information " << pbt::show(di) << " lacks " << pbt::show(what) << ": " << d); std::string rest = di.substr(what.size()); size_t k = file.empty() ? rest.rfind(':') : rest.rfind(file + ":");
    PBT_CHECK(k != std::string::npos && k > 0 && rest.size() > k + file.size() + 1 && isdigit((unsigned char)rest[file.empty() ? k + 1 : k + file.size() + 1]), "diagnostic information " << pbt::show(di) << " names no place: " << d);
}

// ---- error objects
template <typename E, typename I> static void object(pbt::Src& s, const char *cls, std::set<std::string>& kinds, std::string& d) {
    d += std::string(" ") + cls; kinds.insert(kind<E>()); E e; bool has = s.chance(4, 5), msg = s.flip(), first = s.flip(); std::string n = name(s), m = "message " + name(s);
    if (msg && first) e << error::errinfo_message(m); if (has) e << I(n); if (msg && !first) e << error::errinfo_message(m); if (has) d += "(" + n + ")"; if (msg) d += first ? " message first" : " message last";
    if (const std::string *x = boost::get_error_info<I>(e)) { PBT_CHECK(has, "information appears by itself: " << d); PBT_EQ(*x, n, "name in the error:" << d); } else PBT_CHECK(!has, "name is not in the error:" << d);
    if (const std::string *x = boost::get_error_info<error::errinfo_message>(e)) { PBT_CHECK(msg, "a message appears by itself:" << d); PBT_EQ(*x, m, "message in the error:" << d); } else PBT_CHECK(!msg, "message is not in the error:" << d);
    const std::string k = kind<E>(), *w = has ? &n : NULL;
    switch (s.choose(4)) {
        case 0: described(e, k, w, d); break;
        case 1: { E c(e); if (s.flip()) described(e, k, w, d); described(c, k, w, "copy:" + d); E a; a = c; described(a, k, w, "assigned:" + d); break; }
        case 2: try { BOOST_THROW_EXCEPTION(E(e)); } catch (std::exception& x) { PBT_CHECK(dynamic_cast<E*>(&x) != NULL, "caught as another type:" << d); described(dynamic_cast<pion::exception&>(x), k, w, "thrown:" + d); located(pion::diagnostic_information(x), x.what(), "P36_errors.cpp", d); located(pion::diagnostic_information(dynamic_cast<pion::exception&>(x)), x.what(), "P36_errors.cpp", d); } break;
        default: { boost::exception_ptr p; try { BOOST_THROW_EXCEPTION(boost::enable_current_exception(E(e))); } catch (...) { p = boost::current_exception(); } std::string trouble; bool caught = false;   // to another thread
            boost::thread t([&] { try { boost::rethrow_exception(p); } catch (pion::exception& x) { caught = true; try { described(x, k, w, "in another thread:" + d); } catch (pbt::Fail& f) { trouble = f.msg; } } catch (...) {} }); t.join(); PBT_CHECK(caught, "not caught in another thread:" << d); if (!trouble.empty()) throw pbt::Fail(trouble); }
    }
}
static void objects(pbt::Src& s, pbt::Case& c) {
    std::set<std::string> kinds; std::string d; size_t n = 1 + s.choose(5); typedef boost::error_info<struct verif_other_, std::string> other;
    for (size_t i = 0; i < n; ++i) switch (s.choose(14)) {
        case 0: object<error::bad_arg, error::errinfo_arg_name>(s, "bad_arg", kinds, d); break; case 1: object<error::bad_config, error::errinfo_file_name>(s, "bad_config", kinds, d); break; case 2: object<error::open_file, error::errinfo_file_name>(s, "open_file", kinds, d); break;
        case 3: object<error::open_plugin, error::errinfo_plugin_name>(s, "open_plugin", kinds, d); break; case 4: object<error::read_file, error::errinfo_file_name>(s, "read_file", kinds, d); break; case 5: object<error::file_not_found, error::errinfo_file_name>(s, "file_not_found", kinds, d); break;
        case 6: object<error::directory_not_found, error::errinfo_dir_name>(s, "directory_not_found", kinds, d); break; case 7: object<error::plugin_not_found, error::errinfo_plugin_name>(s, "plugin_not_found", kinds, d); break; case 8: object<error::duplicate_plugin, error::errinfo_plugin_name>(s, "duplicate_plugin", kinds, d); break;
        case 9: object<error::plugin_missing_symbol, error::errinfo_symbol_name>(s, "plugin_missing_symbol", kinds, d); break;
        case 10: { std::string m = name(s); d += " text(" + m + ")"; pion::exception e(m), f(m.c_str()), g(e); described(e, m, NULL, d); described(f, m, NULL, d); described(g, m, NULL, d); break; }
        case 11: { d += " plain"; Plain p; PBT_EQ(pion::diagnostic_information(p), std::string("plain failure"), ""); try { BOOST_THROW_EXCEPTION(std::runtime_error("run " + d)); } catch (std::exception& x) { located(pion::diagnostic_information(x), "run " + d, "P36_errors.cpp", d); } Only o; PBT_CHECK(pion::diagnostic_information(o).find("Only") != std::string::npos, "no type in " << pion::diagnostic_information(o)); break; }
        case 12: { d += " all information"; error::plugin_missing_symbol e; std::string v[6]; std::vector<unsigned> todo; for (unsigned k = 0; k < 6; ++k) { v[k] = std::to_string(k) + name(s); if (s.chance(3, 4)) todo.insert(todo.begin() + s.choose(todo.size() + 1), k); }   // each kind of information stays, in any order
            for (unsigned k : todo) switch (k) { case 0: e << error::errinfo_message(v[0]); break; case 1: e << error::errinfo_arg_name(v[1]); break; case 2: e << error::errinfo_file_name(v[2]); break; case 3: e << error::errinfo_dir_name(v[3]); break; case 4: e << error::errinfo_plugin_name(v[4]); break; default: e << error::errinfo_symbol_name(v[5]); }
            const std::string *g[6] = {boost::get_error_info<error::errinfo_message>(e), boost::get_error_info<error::errinfo_arg_name>(e), boost::get_error_info<error::errinfo_file_name>(e), boost::get_error_info<error::errinfo_dir_name>(e), boost::get_error_info<error::errinfo_plugin_name>(e), boost::get_error_info<error::errinfo_symbol_name>(e)};
            for (unsigned k = 0; k < 6; ++k) { bool has = std::count(todo.begin(), todo.end(), k) > 0; d += has ? "+" : "-"; PBT_EQ(g[k] != NULL, has, "information " << k << d); if (has) PBT_EQ(*g[k], v[k], "information " << k << d); }
            described(e, kind<error::plugin_missing_symbol>(), g[5] ? &v[5] : NULL, d); break; }
        default: { d += " none"; error::plugin_undefined u; described(u, kind<error::plugin_undefined>(), NULL, d); error::bad_password_hash b; described(b, kind<error::bad_password_hash>(), NULL, d); }
    }
    std::set<std::string> all = {kind<error::bad_arg>(), kind<error::bad_config>(), kind<error::open_file>(), kind<error::open_plugin>(), kind<error::read_file>(), kind<error::file_not_found>(), kind<error::directory_not_found>(), kind<error::plugin_not_found>(), kind<error::duplicate_plugin>(), kind<error::plugin_missing_symbol>(), kind<error::plugin_undefined>(), kind<error::bad_password_hash>()};
    PBT_EQ(all.size(), (size_t)12, "kinds of errors that can be told apart"); c.note(d); c.key(d); c.nontrivial(d.size() > 20);
}

extern "C" void verif_loaded(const char*, int, int) {}
extern "C" void verif_object(const char*, int, void*, int) {}   // called by the plug-ins of P18

// ---- calls that fail
struct Rec : http::plugin_service { void operator()(const http::request_ptr&, const tcp::connection_ptr& k) { k->finish(); } };
typedef std::function<void()> Call;
template <typename E, typename I> static void fails(const Call& f, const std::string& n, const std::string& d) {
    for (int i = 0; i < 2; ++i) { // and the same way again
        bool threw = false; try { f(); } catch (E& e) { threw = true; described(e, kind<E>(), &n, d); const std::string *x = boost::get_error_info<I>(e); PBT_CHECK(x && *x == n, "name in the error: " << d); located(pion::diagnostic_information(e), e.what(), "", d); }
        catch (std::exception& e) { throw pbt::Fail("another error (" + std::string(e.what()) + "): " + d); }
        PBT_CHECK(threw, "no error: " << d);
    }
}
static std::string g_dir;
static void put(const std::string& p, const std::string& t) { std::ofstream o(p.c_str(), std::ios::binary); o << t; }
static void calls(pbt::Src& s, pbt::Case& c) {
    if (g_dir.empty()) { g_dir = pbt::scratch_dir() + "/e" + std::to_string(getpid()); mkdir(g_dir.c_str(), 0755); }
    std::string n = name(s), d, path = g_dir + "/" + n; plugin::reset_plugin_directories(); plugin_manager<Rec> pm; http::plugin_server srv(0); srv.add_service("/here", new Rec); plugins::FileService *fs = new plugins::FileService; srv.add_service("/files", fs); bool slash = s.flip();
    switch (s.choose(18)) {
        case 0: d = "add_plugin_directory " + n; fails<error::directory_not_found, error::errinfo_dir_name>([&] { plugin::add_plugin_directory(path); }, path, d); break;
        case 1: d = "open " + n; fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { plugin_ptr<Rec> p; p.open(n); }, n, d); break;
        case 2: { std::string b = "Bad" + std::to_string(s.choose(5)); d = "open_file garbage " + b; put(g_dir + "/" + b + ".so", "this is not a library"); fails<error::open_plugin, error::errinfo_plugin_name>([&] { plugin_ptr<Rec> p; p.open_file(g_dir + "/" + b + ".so"); }, b, d);
            try { plugin_ptr<Rec> p; p.open_file(g_dir + "/" + b + ".so"); } catch (error::open_plugin& e) { const std::string *m = boost::get_error_info<error::errinfo_message>(e); PBT_CHECK(m && m->find(g_dir + "/" + b + ".so") != std::string::npos, "the message does not name the file: " << d); } break; }
        case 3: { std::string b = "Lib" + std::to_string(s.choose(5)); bool full = s.flip(); d = "library without functions " + b; char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k < 0 ? 0 : k] = 0; std::string src = exe; src = src.substr(0, src.rfind('/')); src = src.substr(0, src.rfind('/')) + "/plugins/alpha_0"; std::ifstream in(src.c_str(), std::ios::binary); std::ostringstream t; t << in.rdbuf(); if (t.str().empty()) throw pbt::Discard(); std::string f = g_dir + "/" + b + ".so"; struct stat st; if (stat(f.c_str(), &st)) put(f, t.str()); if (!full) plugin::add_plugin_directory(g_dir);
            fails<error::plugin_missing_symbol, error::errinfo_symbol_name>([&] { plugin_ptr<Rec> p; if (full) p.open_file(f); else p.open(b); }, "pion_create_" + b, d); break; }
        case 4: d = "remove " + n; fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { pm.remove(n); }, n, d); break;
        case 5: d = "replace " + n; { std::unique_ptr<Rec> r(new Rec); fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { pm.replace(n, r.get()); }, n, d); } break;
        case 6: d = "clone " + n; fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { pm.clone(n); }, n, d); break;
        case 7: d = "run " + n; fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { pm.run(n, [](Rec*) {}); }, n, d); break;
        case 8: d = "load duplicate " + n; pm.add(n, new Rec); fails<error::duplicate_plugin, error::errinfo_plugin_name>([&] { pm.load(n, "whatever"); }, n, d); break;
        case 9: d = "load_service " + n; fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { srv.load_service("/new", n); }, n, d); break;
        case 10: d = "load_service twice"; fails<error::duplicate_plugin, error::errinfo_plugin_name>([&] { srv.load_service(slash ? "/here/" : "/here", n); }, "/here", d); break;
        case 11: d = "option of a missing service " + n; fails<error::plugin_not_found, error::errinfo_plugin_name>([&] { srv.set_service_option("/" + n + (slash ? "/" : ""), "a", "b"); }, "/" + n, d); break;
        case 12: d = "unknown option " + n; fails<error::bad_arg, error::errinfo_arg_name>([&] { srv.set_service_option(slash ? "/here/" : "/here", n, "b"); }, n, d); break;
        case 13: d = "missing configuration " + n; fails<error::file_not_found, error::errinfo_file_name>([&] { srv.load_service_config(slash ? n : path); }, slash ? n : path, d); break;
        case 14: { std::string f = g_dir + "/broken" + std::to_string(s.choose(4)) + ".conf"; const char *T[] = {"nonsense x y\n", "path\n", "service /x\n", "option /here novalue\n", "option /here =\n", "user\n", "auth nosuch\n", "restrict\n", "service /x EchoService more\nfoo\n"}; std::string t = s.pick(T); d = "broken configuration " + t; put(f, t);
            bool threw = false; try { srv.load_service_config(f); } catch (error::bad_config& e) { threw = true; described(e, kind<error::bad_config>(), &f, d); located(pion::diagnostic_information(e), e.what(), "", d); } catch (pion::exception&) { threw = true; } PBT_CHECK(threw, "no error: " << d); break; }
        case 15: { d = "authentication option " + n; user_manager_ptr um(new user_manager); std::unique_ptr<http::auth> a; if (slash) a.reset(new http::basic_auth(um)); else a.reset(new http::cookie_auth(um)); fails<error::bad_arg, error::errinfo_arg_name>([&] { a->set_option(n, "x"); }, n, d); break; }
        case 16: { static const char *O[] = {"cache", "scan", "writable"}; unsigned k = s.choose(5); d = "file service option " + std::to_string(k) + n; if (k < 3) fails<error::bad_arg, error::errinfo_arg_name>([&] { fs->set_option(O[k], n); }, O[k], d); else if (k == 3) fails<error::directory_not_found, error::errinfo_dir_name>([&] { fs->set_option("directory", g_dir + "/none"); }, g_dir + "/none", d); else fails<error::file_not_found, error::errinfo_file_name>([&] { fs->set_option("file", path); }, path, d); break; }
        default: { std::string h = s.flip() ? n : s.of("0123456789abcdefABCDEF", s.choose(70)); bool good = (h.size() == 40 || h.size() == 64) && h.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; d = "password hash " + h + (slash ? "" : " undefined plug-in"); user u("name"); bool threw = false; try { u.set_password_hash(h); } catch (error::bad_password_hash& e) { threw = true; described(e, kind<error::bad_password_hash>(), NULL, d); located(pion::diagnostic_information(e), e.what(), "", d); } PBT_EQ(threw, !good, d);
            if (!slash) { threw = false; try { plugin_ptr<Rec> p; p.create(); } catch (error::plugin_undefined& e) { threw = true; described(e, kind<error::plugin_undefined>(), NULL, d); located(pion::diagnostic_information(e), e.what(), "", d); } PBT_CHECK(threw, "an instance of nothing"); } }
    }
    c.note(d); c.key(d); c.nontrivial(); c.label(d.substr(0, d.find(' ')));
}

/// what a failing request handler says reaches the error handler, which runs once
struct Server : http::server {
    int handled; std::string told; boost::asio::io_service io; Server() : http::server(0), handled(0) { set_error_handler([this](const http::request_ptr&, const tcp::connection_ptr&, const std::string& m) { ++handled; told = m; }); }
    void ask(const std::string& p) { http::request_ptr r(new http::request); r->set_resource(p); r->set_is_valid(true); tcp::connection_ptr k(new tcp::connection(io)); handled = 0; told = "none"; handle_request(r, k, boost::system::error_code()); }
};
static void handlers(pbt::Src& s, pbt::Case& c) {
    Server srv; std::string n = name(s), want, d; unsigned k = s.choose(6); bool exact = true;
    srv.add_resource("/x", [&](const http::request_ptr&, const tcp::connection_ptr&) { switch (k) {
        case 0: BOOST_THROW_EXCEPTION(error::bad_arg() << error::errinfo_arg_name(n)); case 1: throw error::read_file() << error::errinfo_file_name(n); case 2: throw std::runtime_error(n); case 3: BOOST_THROW_EXCEPTION(pion::exception(n)); case 4: throw Only(); default: BOOST_THROW_EXCEPTION(std::logic_error(n)); } });
    switch (k) { case 0: want = kind<error::bad_arg>() + ": " + n; break; case 1: want = kind<error::read_file>() + ": " + n; break; case 4: want = "Only"; exact = false; break; default: want = n; }
    size_t times = 1 + s.choose(3); d = std::to_string(k) + n; for (size_t i = 0; i < times; ++i) { srv.ask("/x/y"); PBT_EQ(srv.handled, 1, "calls of the error handler: " << d); if (exact) PBT_EQ(srv.told, want, "message for the error handler: " << d); else PBT_CHECK(srv.told.find(want) != std::string::npos, "message for the error handler: " << srv.told); }
    c.note(d); c.key(d); c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P36"; cfg.level = "exploration";
    cfg.rule = "objects: more than one error or one with a name; calls and handlers: all; distinct by kinds and names";
    cfg.assumptions = {"names contain no zero byte", "what() of an error without further information is taken as the text of its kind, which must differ from kind to kind"};
    cfg.subs = {{"objects", objects, 60000, 2000000, 20, 3, 3, 0}, {"calls", calls, 30000, 1000000, 20, 3, 3, 0}, {"handlers", handlers, 30000, 1000000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
