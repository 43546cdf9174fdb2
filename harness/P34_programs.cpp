// BUILD: services
// BUILD: programs
// The bundled programs piond and helloserver, run in child processes of the check with generated command lines.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/config.hpp>
#include <pion/plugin.hpp>
#include <boost/filesystem.hpp>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <openssl/ssl.h>
#include <fstream>
#include <memory>
int piond_main(int, char **); int helloserver_main(int, char **);
#define SERVICE(n) extern "C" void *pion_create_##n(void); extern "C" void pion_destroy_##n(void*);
SERVICE(EchoService) SERVICE(FileService) SERVICE(HelloService) SERVICE(LogService) SERVICE(CookieService) SERVICE(AllowNothingService)
typedef std::vector<std::string> Args;

static std::string pem() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/test.pem"; }
static std::string show(const Args& a) { std::string r; for (auto& x : a) r += (r.empty() ? "" : " ") + (x.empty() ? "''" : x); return r; }
static std::string b64(const std::string& s) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16, n = 1; if (i + 1 < s.size()) { v |= (unsigned char)s[i + 1] << 8; ++n; } if (i + 2 < s.size()) { v |= (unsigned char)s[i + 2]; ++n; } for (unsigned k = 0; k < 4; ++k) r += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='; } return r; }
/// a port outside the range for outgoing connections that nobody uses; each worker has its own block
static unsigned next_port() { static unsigned n = 0; for (int i = 0; i < 200; ++i) { unsigned p = 12000 + (getpid() % 100) * 190 + (n++ % 190); int f = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); int one = 1; setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); bool ok = bind(f, (sockaddr*)&a, sizeof a) == 0 && listen(f, 1) == 0; close(f); if (ok) return p; } throw pbt::Discard(); }

/// a program in a child process of its own
struct Program {
    pid_t pid = -1; std::string dir, err; int status = 0; Args args;
    void start(const Args& a, const std::string& d) {
        args = a; dir = d; err = d + "/stderr"; pid = fork(); if (pid < 0) throw pbt::Discard();
        if (!pid) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); for (int sig : {SIGINT, SIGTERM, SIGHUP, SIGPIPE, SIGTSTP, SIGTTOU, SIGTTIN, SIGCHLD, SIGABRT}) signal(sig, SIG_DFL); std::set_terminate(abort); sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, 0); rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
            int o = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), in = open("/dev/null", O_RDONLY); dup2(in, 0); dup2(o, 1); dup2(o, 2); for (int f = 3; f < 64; ++f) close(f); if (chdir(dir.c_str())) _exit(99);
#define REGISTER(n) pion::plugin::add_static_entry_point(#n, (void*)pion_create_##n, (void*)pion_destroy_##n);
            REGISTER(EchoService) REGISTER(FileService) REGISTER(HelloService) REGISTER(LogService) REGISTER(CookieService) REGISTER(AllowNothingService)
            std::vector<char*> v; for (auto& x : args) v.push_back((char*)x.c_str()); v.push_back(0); int rc = (args[0].find("helloserver") != std::string::npos ? helloserver_main : piond_main)((int)args.size(), v.data()); _exit(rc);
        }
    }
    ~Program() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, &status, 0); } }
    bool ended() { if (pid <= 0) return true; if (waitpid(pid, &status, WNOHANG) != pid) return false; pid = 0; return true; }
    bool ends(double secs) { for (double i = 0; !ended(); ++i) { if (i * 0.005 > secs) return false; usleep(5000); } return true; }
    std::string said() { std::ifstream f(err.c_str()); std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); return t.size() > 1500 ? t.substr(0, 1500) : t; }
    std::string how() { return (WIFEXITED(status) ? "exit status " + std::to_string(WEXITSTATUS(status)) : "signal " + std::to_string(WTERMSIG(status))) + ", said " + pbt::show(said(), 800); }
};
struct Dir { std::string path; Dir() { static int n = 0; path = pbt::scratch_dir() + "/run" + std::to_string(getpid()) + "_" + std::to_string(n++); mkdir(path.c_str(), 0700); } ~Dir() { boost::system::error_code ec; boost::filesystem::remove_all(path, ec); } };
static void put(const std::string& f, const std::string& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }

/// one request on a connection of its own
static net::Response ask(unsigned port, bool tls, const std::string& path, const std::string& who, const std::string& d) {
    std::string text = "GET " + path + " HTTP/1.1\r\nConnection: close\r\n" + (who.empty() ? "" : "Authorization: Basic " + b64(who) + "\r\n") + "\r\n", in; net::Client cl; PBT_CHECK(cl.connect(port), "cannot connect: " << d);
    if (!tls) { PBT_CHECK(cl.send(text), d); PBT_CHECK(cl.wait_eof(), "no answer to " << path << ": " << d); in = cl.in; }
    else {
        static SSL_CTX *ctx = SSL_CTX_new(TLS_client_method()); timeval tv = {20, 0}; setsockopt(cl.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); int fl = fcntl(cl.fd, F_GETFL); fcntl(cl.fd, F_SETFL, fl & ~O_NONBLOCK); std::unique_ptr<SSL, void(*)(SSL*)> ssl(SSL_new(ctx), SSL_free); SSL_set_fd(ssl.get(), cl.fd); signal(SIGPIPE, SIG_IGN);
        PBT_CHECK(SSL_connect(ssl.get()) == 1, "no encrypted connection for " << path << ": " << d); SSL_write(ssl.get(), text.data(), (int)text.size()); char b[20000]; int n; while ((n = SSL_read(ssl.get(), b, sizeof b)) > 0) in.append(b, n);
    }
    net::Response r = net::parse(in, false, true); PBT_CHECK(r.complete && !r.bad, "answer to " << path << ": " << pbt::show(in, 400) << " " << r.why << ": " << d); return r;
}

struct Service { std::string path, name, dir, user; std::map<std::string, std::string> files; };
static void probe(pbt::Src& s, const std::vector<Service>& v, unsigned port, bool tls, const std::string& d) {
    size_t n = 1 + s.choose(3); while (n--) {
        if (s.chance(1, 5)) { std::string p = s.pick({"/nowhere", "/", "/other/page"}); bool served = false; for (auto& x : v) if (p.compare(0, x.path.size(), x.path) == 0 && (p.size() == x.path.size() || x.path.empty() || p[x.path.size()] == '/')) served = true; if (!served) { PBT_EQ(ask(port, tls, p, "", d).status, 404, p << ": " << d); continue; } }
        const Service& x = s.pick(v); std::string p = x.path + (s.flip() ? "" : "/sub"), who; if (x.name == "FileService") { auto i = x.files.begin(); std::advance(i, s.choose(x.files.size())); p = x.path + "/" + (s.chance(1, 4) ? "missing" : i->first); }
        if (!x.user.empty()) switch (s.choose(4)) { case 0: PBT_EQ(ask(port, tls, p, "", d).status, 401, p << " without a user: " << d); continue; case 1: PBT_EQ(ask(port, tls, p, x.user + ":wrong", d).status, 401, p << " with a wrong password: " << d); continue; default: who = x.user + ":pass"; }
        net::Response r = ask(port, tls, p, who, d); std::string what = x.name + " at " + p + " answers " + std::to_string(r.status) + " " + pbt::show(r.body, 300) + ": " + d;
        if (x.name == "FileService") { auto i = x.files.find(p.substr(x.path.size() + 1)); PBT_EQ(r.status, i == x.files.end() ? 404 : 200, what); if (i != x.files.end()) PBT_EQ(r.body, i->second, what); }
        else { PBT_EQ(r.status, x.name == "AllowNothingService" ? 405 : 200, what); std::string mark = x.name == "EchoService" ? "Resource delivered: " + p + "\r\n" : x.name == "HelloService" ? "Hello World!" : x.name == "CookieService" ? "<h1>Cookie Service</h1>" : x.name == "AllowNothingService" ? "No, you can't." : ""; PBT_CHECK(r.body.find(mark) != std::string::npos, what); }
    }
}
static Service make(pbt::Src& s, const std::string& dir, size_t i, const std::string& path) {
    Service x; x.path = path; x.name = s.pick({"EchoService", "HelloService", "CookieService", "LogService", "FileService", "FileService", "AllowNothingService"});
    if (x.name == "FileService") { x.dir = dir + "/" + s.pick({"files", "a=b", "d.x", "with blank"}) + std::to_string(i); mkdir(x.dir.c_str(), 0700); size_t n = 1 + s.choose(3); for (size_t k = 0; k < n; ++k) { std::string nm = s.pick({"a.txt", "b.html", "c", "d.bin"}); x.files[nm] = s.blob(s.choose(200)); put(x.dir + "/" + nm, x.files[nm]); } }
    return x;
}

/// ignored signals, clients that stay, then the request to end
static void finish(pbt::Src& s, pbt::Case& c, Program& p, unsigned port, const std::function<void()>& again, const std::string& d) {
    size_t n = s.choose(4); bool any = n > 0; while (n--) kill(p.pid, s.pick({SIGHUP, SIGPIPE, SIGCHLD, SIGTSTP, SIGTTOU, SIGTTIN})); if (any) { usleep(s.chance(1, 3) ? 250000 : 3000); PBT_CHECK(!p.ended(), "ended without being asked to (" << p.how() << "): " << d); again(); c.label("ignored signals"); }
    std::vector<std::unique_ptr<net::Client> > stay; n = s.choose(4); while (n--) { stay.emplace_back(new net::Client); if (!stay.back()->connect(port)) continue; if (s.flip()) stay.back()->send(s.pick({"GET /", "GET / HTTP/1.1\r\nHo", "\x16\x03\x01"})); c.label("clients stay"); } if (s.flip()) usleep(s.choose(3000));
    PBT_CHECK(!p.ended(), "ended without being asked to (" << p.how() << "): " << d); n = 1 + s.choose(2); std::string sig; while (n--) { int x = s.pick({SIGINT, SIGTERM}); kill(p.pid, x); sig += x == SIGINT ? " INT" : " TERM"; if (s.flip()) usleep(s.choose(2000)); }
    PBT_CHECK(p.ends(20), "does not end after" << sig << " with " << stay.size() << " clients connected: " << d); PBT_CHECK(WIFEXITED(p.status) && WEXITSTATUS(p.status) == 0, "ends with " << p.how() << " after" << sig << ": " << d);
    for (auto& k : stay) PBT_CHECK(k->fd < 0 || k->wait_eof(5), "a connection outlives the program: " << d); net::Client cl; int f = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bool open = ::connect(f, (sockaddr*)&a, sizeof a) == 0; close(f); PBT_CHECK(!open, "the port is still open: " << d);
}
static bool listening(unsigned port, Program& p) { for (int i = 0; i < 6000; ++i) { if (p.ended()) return false; int f = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bool ok = ::connect(f, (sockaddr*)&a, sizeof a) == 0; linger l = {1, 0}; setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(f); if (ok) return !p.ended(); usleep(3000); } return false; }
static std::string argv0(pbt::Src& s, const std::string& n) { return s.pick({"", "./", "/usr/bin/", "/nonexistent/dir/"}) + n; }

static void served(pbt::Src& s, pbt::Case& c) {
    Dir dir; bool tls = s.chance(1, 4), config = s.chance(2, 5); std::vector<Service> v; Args opts; std::string conf; std::vector<Args> groups; c.nontrivial(true);
    if (config) {
        size_t n = 1 + s.choose(3); static const char *P[] = {"/one", "/two", "/two/three"}; bool auth = s.chance(1, 2); std::string users, rest; if (s.flip()) conf += "# services\n"; if (s.flip()) conf += "path " + dir.path + "\n";
        for (size_t i = 0; i < n; ++i) { Service x = make(s, dir.path, i, P[i]); if (x.dir.find(' ') != std::string::npos && x.name == "FileService") c.label("blank"); conf += "service " + x.path + " " + x.name + "\n"; if (!x.dir.empty()) conf += "option " + x.path + " directory=" + x.dir + "\n"; v.push_back(x); }
        if (auth) { conf += "auth basic\nuser ann pass\nuser bob pass\n"; bool all = false; for (size_t i = 0; i < n; ++i) if (s.flip()) { conf += "restrict " + v[i].path + "\n"; v[i].user = s.pick({"ann", "bob"}); if (i == 1) all = true; } if (all && n == 3 && v[2].user.empty()) v[2].user = "ann"; c.label("auth"); }
        std::string f = s.pick({"my.conf", "other.conf", "plain", "with blank.conf"}); put(dir.path + "/" + f, conf); groups.push_back({"-c", s.flip() ? f : dir.path + "/" + f}); c.label("config");
    } else { Service x = make(s, dir.path, 0, s.pick({"/one", "/a/b", "/x.y", "/one"})); if (!x.dir.empty()) { if (s.chance(1, 4)) { std::string other = dir.path + "/other"; mkdir(other.c_str(), 0700); groups.push_back({"-o", "directory=" + other, "-o", "directory=" + x.dir}); } else groups.push_back({"-o", "directory=" + x.dir}); if (s.chance(1, 3)) groups.push_back({"-o", s.pick({"cache=0", "cache=1", "scan=0", "max_chunk_size=10", "writable=false"})}); } v.push_back(x); }
    if (tls) { groups.push_back({"-ssl", pem()}); c.label("tls"); } if (s.chance(1, 3)) groups.push_back({"-v"}); if (s.chance(1, 3)) groups.push_back({"-i", s.pick({"127.0.0.1", "0.0.0.0"})}); if (s.chance(1, 4)) groups.push_back({"-d", dir.path}); size_t at = groups.size(); groups.push_back({"-p", ""}); std::vector<size_t> order; for (size_t i = 0; i < groups.size(); ++i) order.push_back(i); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.choose(i)]); std::string zero = argv0(s, "piond"); bool both = config && s.chance(1, 6);
    Program p; unsigned port = 0; for (int i = 0;; ++i) {
        port = next_port(); groups[at][1] = std::to_string(port); Args a = {zero}; for (size_t k : order) a.insert(a.end(), groups[k].begin(), groups[k].end()); if (!config || both) { a.push_back(v[0].path + (!config && port % 7 == 0 ? "/" : "")); a.push_back(v[0].name); }
        p.start(a, dir.path); if (listening(port, p)) break; PBT_CHECK(i < 3 && p.pid <= 0, show(a) << (p.pid > 0 ? " serves nothing" : " ends with " + p.how()) << (config ? "; configuration: " + conf : ""));
    }
    std::string d = show(p.args) + (config ? "; configuration: " + conf : ""); c.note(d); std::string k; for (auto& g : groups) for (auto& x : g) if (x != std::to_string(port)) k += x + " "; c.key(k.substr(0, 3) + conf + v[0].name + v[0].path + std::to_string(groups.size()) + zero); c.label(v[0].name);
    probe(s, v, port, tls, d); finish(s, c, p, port, [&] { probe(s, v, port, tls, d); }, d);
}

static void hello(pbt::Src& s, pbt::Case& c) {
    Dir dir; Program p; unsigned port = 0; std::string zero = argv0(s, "helloserver"); c.nontrivial(true); for (int i = 0;; ++i) { port = next_port(); p.start({zero, std::to_string(port)}, dir.path); if (listening(port, p)) break; PBT_CHECK(i < 3 && p.pid <= 0, show(p.args) << (p.pid > 0 ? " serves nothing" : " ends with " + p.how())); }
    std::string d = show(p.args); auto greet = [&] { size_t n = 1 + s.choose(5); std::vector<std::unique_ptr<net::Client> > v; for (size_t i = 0; i < n; ++i) { v.emplace_back(new net::Client); PBT_CHECK(v.back()->connect(port), "cannot connect: " << d); if (s.chance(1, 4)) v.back()->half_close(); } while (!v.empty()) { size_t i = s.choose(v.size()); PBT_CHECK(v[i]->wait_eof(), "the connection is not closed: " << d); PBT_EQ(v[i]->in, "Hello there!\r\n", d); v.erase(v.begin() + i); } };
    greet(); size_t w = s.choose(3); std::string key = zero + std::to_string(w); while (w--) { net::Client x; x.connect(port); } greet(); c.key(key); c.note(d); finish(s, c, p, port, greet, d);
}

/// command lines that say too little or something unknown
static void refused(pbt::Src& s, pbt::Case& c) {
    Dir dir; Args a; bool h = s.chance(1, 6); unsigned port = next_port(); std::string missing = dir.path + "/missing"; bool usage = true;
    if (h) { a = {argv0(s, "helloserver"), std::to_string(port)}; size_t n = 1 + s.choose(3); while (n--) a.push_back(s.pick({"x", "80", "-v"})); c.label("helloserver"); }
    else {
        Args good = {"-p", std::to_string(port)}; if (s.flip()) good.push_back("-v"); if (s.chance(1, 3)) { good.push_back("-i"); good.push_back("127.0.0.1"); } Args last = {"/one", s.pick({"EchoService", "HelloService"})}; a = {argv0(s, "piond")};
        switch (s.choose(9)) {
            case 0: a.insert(a.end(), good.begin(), good.end()); c.label("nothing to serve"); break;
            case 1: a.insert(a.end(), good.begin(), good.end()); a.push_back(last[s.choose(2)]); c.label("one name only"); break;
            case 2: a.insert(a.end(), good.begin(), good.end()); a.push_back(s.pick({"-x", "-", "--port", "-pp", "-sslx", "-ss", "--help", "-h", "-vv", "-oo", "-C"})); a.insert(a.end(), last.begin(), last.end()); c.label("unknown option"); break;
            case 3: a.insert(a.end(), good.begin(), good.end()); a.insert(a.end(), last.begin(), last.end()); a.push_back("more"); c.label("too many names"); break;
            case 4: a.insert(a.end(), last.begin(), last.end()); a.insert(a.end(), good.begin(), good.end()); c.label("options after names"); break;
            case 5: a.insert(a.end(), good.begin(), good.end()); a.push_back(s.pick({"-p", "-i", "-c", "-d", "-o", "-ssl"})); c.label("option without value"); break;
            case 6: a.insert(a.end(), good.begin(), good.end()); a.push_back("-o"); a.push_back(s.pick({"directory", "", "x:y"})); a.insert(a.end(), last.begin(), last.end()); c.label("-o without ="); break;
            case 7: a.insert(a.end(), good.begin(), good.end()); a.push_back("-d"); a.push_back(missing); a.insert(a.end(), last.begin(), last.end()); usage = false; c.label("-d of no directory"); break;
            default: a.push_back("-i"); a.push_back(s.pick({"nonsense", "1.2.3", "1.2.3.400", "", "127.0.0.1:80", "localhost"})); a.insert(a.end(), good.begin(), good.begin() + 2); a.insert(a.end(), last.begin(), last.end()); c.label("-i of no address"); break;
        }
    }
    std::string d = show(a); c.note(d); c.key(d.substr(d.find(' '))); c.nontrivial(true); Program p; p.start(a, dir.path); bool e = p.ends(20); PBT_CHECK(e, "does not end: " << d); PBT_CHECK(WIFEXITED(p.status) && WEXITSTATUS(p.status) == 1, "ends with " << p.how() << ": " << d); PBT_CHECK(p.said().find("AddressSanitizer") == std::string::npos, d << " said " << p.said()); std::string t = p.said(); for (auto& ch : t) if (ch >= 'A' && ch <= 'Z') ch += 32; PBT_CHECK(usage ? t.find("usage") != std::string::npos : t.find(missing) != std::string::npos || t.find("director") != std::string::npos, "says " << pbt::show(t) << ": " << d);
}

/// what cannot be served ends the program
static void failing(pbt::Src& s, pbt::Case& c) {
    Dir dir; Args a = {argv0(s, "piond"), "-p"}; unsigned port = next_port(); int held = -1; struct Close { int& f; ~Close() { if (f >= 0) close(f); } } guard = {held}; a.push_back(std::to_string(port)); Args last = {"/one", "HelloService"}; bool names = true; int kind = s.choose(7);
    switch (kind) {
        case 0: last[1] = s.pick({"NoService", "helloservice", "Hello", "../HelloService"}); c.label("unknown service"); break;
        case 1: a.push_back("-c"); a.push_back("missing.conf"); names = false; c.label("no configuration"); break;
        case 2: put(dir.path + "/bad.conf", s.pick({"nonsense\n", "service /one\n", "service /one NoService\n", "option /one a=b\n", "service /one HelloService\noption /one x=y\n", "restrict /one\n", "auth magic\n", "\x01\x02"})); a.push_back("-c"); a.push_back("bad.conf"); names = false; c.label("bad configuration"); break;
        case 3: a.push_back("-o"); a.push_back("nonsense=1"); c.label("unknown service option"); break;
        case 4: a.push_back("-ssl"); if (s.flip()) { put(dir.path + "/bad.pem", s.blob(s.choose(200))); a.push_back("bad.pem"); } else a.push_back("missing.pem"); c.label("bad key file"); break;
        case 5: { held = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(port); int one = 1; setsockopt(held, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (bind(held, (sockaddr*)&x, sizeof x) || listen(held, 10)) throw pbt::Discard(); if (s.chance(1, 3)) { a = {argv0(s, "helloserver"), std::to_string(port)}; names = false; } c.label("port in use"); break; }
        default: last[1] = "FileService"; a.push_back("-o"); a.push_back(s.pick({"directory=", "file="}) + dir.path + "/missing"); c.label("no such directory"); break;
    }
    if (names) a.insert(a.end(), last.begin(), last.end()); std::string d = show(a); c.note(d); { std::string k = std::to_string(kind); for (auto& x : a) if (x != std::to_string(port)) k += " " + x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/')); c.key(k); } c.nontrivial(true); Program p; p.start(a, dir.path);
    PBT_CHECK(p.ends(20), "keeps running: " << d); PBT_CHECK(WIFEXITED(p.status) && WEXITSTATUS(p.status) <= 1, "ends with " << p.how() << ": " << d); PBT_CHECK(p.said().find("AddressSanitizer") == std::string::npos, d << " said " << p.said());
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P34"; cfg.level = "exploration"; cfg.rule = "a program was run and judged; distinct by command line and configuration";
    cfg.assumptions = {"the programs run in child processes of the check, with the services linked in", "loopback TCP, ports picked by the check"};
    cfg.subs = {{"served", served, 1400, 20000, 90, 5, 2, 16}, {"hello", hello, 300, 5000, 90, 5, 2, 16}, {"refused", refused, 800, 8000, 60, 3, 3, 0}, {"failing", failing, 600, 8000, 60, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
