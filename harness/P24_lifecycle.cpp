// Server life cycle: histories of start and stop with idle, busy, waiting and vanished clients.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/tcp/server.hpp>
#include <pion/http/server.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/scheduler.hpp>
#include <boost/thread.hpp>
#include <sys/resource.h>
#include <atomic>
#include <memory>
using namespace pion;

/// an address of its own for each process, so that ports are not taken by the connections of others
static uint32_t my_addr() { uint32_t p = (uint32_t)getpid(); return (127u << 24) | (1 + ((p >> 15) & 63)) << 16 | ((p >> 8) & 127) << 8 | (1 + (p & 127)) | ((p >> 7) & 1) << 15; }
static std::string pem() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/test.pem"; }

/// reads requests of one line ("<id> <kind>\n"), answers "<id> <kind>.\n"; kinds: f fast, s slow, l finished by another thread, c closes, t throws
struct Counters { std::atomic<int> entered, answered; std::atomic<bool> busy; Counters() : entered(0), answered(0), busy(false) {} };
struct Later { boost::mutex mx; std::vector<boost::shared_ptr<boost::thread> > t; void run(std::function<void()> f) { boost::mutex::scoped_lock l(mx); t.push_back(boost::shared_ptr<boost::thread>(new boost::thread(f))); } void wait() { for (;;) { std::vector<boost::shared_ptr<boost::thread> > v; { boost::mutex::scoped_lock l(mx); v.swap(t); } if (v.empty()) return; for (auto& x : v) x->join(); } } };

struct LineServer : tcp::server {
    Counters& n; Later& later;
    LineServer(scheduler& s, const boost::asio::ip::tcp::endpoint& e, Counters& c, Later& l) : tcp::server(s, e), n(c), later(l) {}
    LineServer(const boost::asio::ip::tcp::endpoint& e, Counters& c, Later& l) : tcp::server(e), n(c), later(l) {}
    ~LineServer() { if (is_listening()) stop(); }
    struct State { std::string in; }; std::map<tcp::connection*, std::string> part; boost::mutex mx;
    void handle_connection(const tcp::connection_ptr& c) { c->async_read_some(boost::bind(&LineServer::got, this, c, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)); }
    void got(const tcp::connection_ptr& c, const boost::system::error_code& ec, size_t k) {
        if (ec) { { boost::mutex::scoped_lock l(mx); part.erase(c.get()); } c->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); c->finish(); return; }
        std::string line; { boost::mutex::scoped_lock l(mx); std::string& p = part[c.get()]; p.append(c->get_read_buffer().data(), k); size_t e = p.find('\n'); if (e == std::string::npos) { handle_connection(c); return; } line = p.substr(0, e); p.clear(); }
        ++n.entered; char kind = line[line.size() - 1]; if (kind == 's') usleep(3000); std::string *a = new std::string(line + ".\n"); if (kind == 't') throw std::runtime_error("handler fails");
        auto finish = [this, c, kind, a] { boost::shared_ptr<std::string> keep(a); c->set_lifecycle(kind == 'c' ? tcp::connection::LIFECYCLE_CLOSE : tcp::connection::LIFECYCLE_KEEPALIVE); c->async_write(boost::asio::buffer(*keep), boost::bind(&LineServer::sent, this, c, keep, boost::asio::placeholders::error)); };
        if (kind == 'l') { boost::shared_ptr<std::function<void()> > f(new std::function<void()>(finish)); later.run([f] { usleep(3000); (*f)(); *f = nullptr; }); } else finish();
    }
    void sent(const tcp::connection_ptr& c, boost::shared_ptr<std::string>, const boost::system::error_code& ec) { if (ec) c->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); else ++n.answered; c->finish(); }
};
static void http_handler(Counters& n, Later& later, const http::request_ptr& q, const tcp::connection_ptr& c) {
    ++n.entered; std::string line = q->get_query("q"); char kind = line.empty() ? 'f' : line[line.size() - 1]; if (kind == 's') usleep(3000); if (kind == 't') throw std::runtime_error("handler fails");
    auto finish = [&n, q, c, line] { http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c))); w << line << ".\n"; w->send(); ++n.answered; };
    if (kind == 'l') { boost::shared_ptr<std::function<void()> > f(new std::function<void()>(finish)); later.run([f] { usleep(3000); (*f)(); *f = nullptr; }); } else finish();
}

struct World {
    Counters n; Later later; std::unique_ptr<single_service_scheduler> sched; std::unique_ptr<one_to_one_scheduler> sched2; bool http, ssl; std::unique_ptr<tcp::server> srv; std::unique_ptr<LineServer> other; uint32_t addr; int next;
    struct Cl { net::Client c; std::string id; bool pending, garbage; Cl() : pending(false), garbage(false) {} }; std::vector<std::unique_ptr<Cl> > cl;
    World(pbt::Src& s, pbt::Case& c) : http(s.flip()), ssl(s.chance(1, 8)), addr(my_addr()), next(0) {
        boost::asio::ip::tcp::endpoint ep(boost::asio::ip::address_v4(addr), 0); int how = s.choose(3); scheduler *sc = NULL; if (how == 1) { sched.reset(new single_service_scheduler); sc = sched.get(); } else if (how == 2) { sched2.reset(new one_to_one_scheduler); sc = sched2.get(); } if (sc) sc->set_num_threads(1 + s.choose(3));
        if (ssl) http = true; if (http) { http::server *h = sc ? new http::server(*sc, ep) : new http::server(ep); h->add_resource("/", [this](const http::request_ptr& q, const tcp::connection_ptr& t) { http_handler(n, later, q, t); }); srv.reset(h); } else srv.reset(sc ? new LineServer(*sc, ep, n, later) : new LineServer(ep, n, later));
        if (ssl) srv->set_ssl_key_file(pem()); if (sc && s.chance(1, 3)) { other.reset(new LineServer(*sc, ep, n, later)); other->start(); c.label("two servers share a scheduler"); } c.label(ssl ? "SSL" : http ? "HTTP" : "TCP"); c.label(how == 0 ? "own scheduler" : how == 1 ? "single service" : "one to one");
    }
    std::string request(Cl& k, char kind) { k.id = std::to_string(++next) + " " + kind; std::string e = std::to_string(next) + "%20" + kind; if (!http) return k.id + "\n"; return "GET /?q=" + e + " HTTP/1.1\r\nHost: h\r\n" + (kind == 'c' ? "Connection: close\r\n" : "") + "\r\n"; }
    bool answered(Cl& k) { if (!http) return k.c.in.find('\n') != std::string::npos; return net::parse(k.c.in, false, false).complete; }
    void take(Cl& k, char kind, const std::string& log) { std::string got = k.c.in, body; if (http) { net::Response r = net::parse(k.c.in, false, false); PBT_CHECK(r.complete && !r.bad, "malformed response " << pbt::show(k.c.in) << " after" << log); PBT_EQ(r.used, got.size(), "bytes of the response after" << log); body = r.body; if (kind == 't') { PBT_EQ(r.status, 500, "status for a handler that fails"); body = k.id + ".\n"; } } else body = got; PBT_EQ(body, k.id + ".\n", "answer after" << log); k.c.in.clear(); k.pending = false; }
    bool try_connect(net::Client& k) { return k.connect(srv->get_port(), addr); }
    ~World() { cl.clear(); later.wait(); srv->stop(); later.wait(); srv.reset(); if (other) { other->stop(); other.reset(); } if (sched) sched->shutdown(); if (sched2) sched2->shutdown(); later.wait(); }
};

/// (a connection request that meets the closing of the listening socket may be left half open by the kernel: sending shows it)
static bool really_gone(net::Client& k) { if (k.wait_eof(1)) return true; return !k.send("x") || k.wait_eof(5); }

static void history(pbt::Src& s, pbt::Case& c) {
    World w(s, c); std::string log; bool running = false; size_t stops = 0, served = 0, open_at_stop = 0; size_t ops = 3 + s.choose(22);
    for (size_t o = 0; o < ops; ++o) {
        c.set_note(log); PBT_EQ(w.srv->is_listening(), running, "is_listening() after" << log);
        switch (running ? s.weighted({1, 4, 3, 4, 3, 2, 2}) : 0) {
            case 0: w.srv->start(); running = true; log += " start"; break;
            case 1: { if (w.cl.size() > 8) break; std::unique_ptr<World::Cl> k(new World::Cl); PBT_CHECK(w.try_connect(k->c), "cannot connect to a started server after" << log); log += " connect"; w.cl.push_back(std::move(k)); break; }
            case 2: { bool wait = s.chance(1, 3); std::vector<std::unique_ptr<boost::thread> > joiners; bool join = s.chance(1, 4); if (join) { size_t n = 1 + s.choose(3); while (n--) joiners.emplace_back(new boost::thread([&] { w.srv->join(); })); if (s.flip()) usleep(s.choose(2000)); } for (auto& k : w.cl) if (!k->c.eof) ++open_at_stop;
                if (wait) { log += " stop(true)"; std::atomic<bool> over(false); boost::thread t([&] { usleep(2000); for (auto& k : w.cl) if (!k->pending) { k->c.drop(); k->c.eof = true; } while (!over) { for (auto& k : w.cl) if (k->pending && k->c.fd >= 0 && !k->c.eof && !w.answered(*k)) { k->c.read_some(1); if (w.answered(*k)) k->c.half_close(); } usleep(200); } }); w.srv->stop(true); over = true; t.join(); } else { log += " stop(false)"; w.srv->stop(false); } c.set_note(log); running = false; ++stops; if (join) { for (auto& j : joiners) j->join(); log += "+join" + std::to_string(joiners.size()); c.label(joiners.size() > 1 ? "several joiners" : "one joiner"); }
                PBT_CHECK(!w.srv->is_listening(), "server still listens after" << log); PBT_EQ(w.srv->get_connections(), (size_t)0, "connections after" << log); { net::Client x; PBT_CHECK(!w.try_connect(x), "the port still accepts connections after" << log); }
                for (auto& k : w.cl) if (k->c.fd >= 0) { bool gone = really_gone(k->c); PBT_CHECK(gone, "a connection is still open after" << log); if (wait && k->pending) { PBT_CHECK(w.answered(*k), "a request that was being handled has no answer (" << pbt::show(k->c.in) << ") after" << log); w.take(*k, k->id[k->id.size() - 1], log); } }
                w.cl.clear(); w.later.wait(); if (w.other) { net::Client x; PBT_CHECK(x.connect(w.other->get_port(), w.addr) && x.send("7 f\n") && x.wait([&] { return x.in == "7 f.\n"; }), "another server on the same scheduler does not answer after" << log); } break; }
            case 3: { std::vector<World::Cl*> v; for (auto& k : w.cl) if (!k->pending && !k->garbage && !k->c.eof) v.push_back(k.get()); if (v.empty() || w.ssl) break; World::Cl& k = *s.pick(v); char kind = s.pick(w.http ? "ffsct" : "ffscl"); if (kind == '\0') kind = 'f'; log += std::string(" ask-") + kind; PBT_CHECK(k.c.send(w.request(k, kind)), "cannot send after" << log); PBT_CHECK(k.c.wait([&] { return w.answered(k); }), "no answer (" << pbt::show(k.c.in) << ") after" << log); w.take(k, kind, log); ++served; if (kind == 'c') { PBT_CHECK(k.c.wait_eof(), "connection is not closed after" << log); } break; }
            case 4: { std::vector<World::Cl*> v; for (auto& k : w.cl) if (!k->pending && !k->garbage && !k->c.eof) v.push_back(k.get()); if (v.empty() || w.ssl) break; World::Cl& k = *s.pick(v); int before = w.n.entered; char kind = s.flip() ? 's' : 'l'; log += std::string(" begin-") + kind; PBT_CHECK(k.c.send(w.request(k, kind)), "cannot send after" << log); k.pending = true; for (int i = 0; w.n.entered == before && i < 20000; ++i) usleep(100); PBT_CHECK(w.n.entered != before, "request is not handled after" << log); break; }
            case 5: { if (w.cl.empty()) break; size_t i = s.choose(w.cl.size()); log += " drop"; w.cl.erase(w.cl.begin() + i); break; }
            case 6: { std::vector<World::Cl*> v; for (auto& k : w.cl) if (!k->pending && !k->garbage && !k->c.eof) v.push_back(k.get()); if (v.empty()) break; World::Cl& k = *s.pick(v); log += " part"; k.garbage = true; k.c.send(w.ssl ? (s.flip() ? "\x16\x03\x01" : "GET / HTTP/1.0\r\n\r\n") : w.http ? "GET / HT" : "77"); break; }
        }
        for (auto& k : w.cl) if (k->pending && k->c.fd >= 0) { k->c.read_some(0); if (w.answered(*k)) w.take(*k, k->id[k->id.size() - 1], log); }
    }
    if (running && s.flip() && !w.ssl) { std::unique_ptr<World::Cl> k(new World::Cl); PBT_CHECK(w.try_connect(k->c), "cannot connect after" << log); PBT_CHECK(k->c.send(w.request(*k, 'f')) && k->c.wait([&] { return w.answered(*k); }), "no answer after" << log); w.take(*k, 'f', log); }
    c.note(log); c.key(log + (w.http ? "h" : "") + std::to_string((bool)w.sched)); c.nontrivial(stops > 0 && (open_at_stop > 0 || served > 0));
}

/// stop() while clients are connecting: it returns, and no client keeps a connection
static void storm(pbt::Src& s, pbt::Case& c) {
    World w(s, c); size_t rounds = 1 + s.choose(3), clients = 1 + s.choose(12); unsigned delay = s.choose(1500); bool busy = s.flip() && !w.ssl; c.note(std::to_string(rounds) + "x" + std::to_string(clients) + " delay " + std::to_string(delay) + (busy ? " busy" : "")); c.key(std::to_string(rounds) + "x" + std::to_string(clients) + "d" + std::to_string(delay) + std::to_string(w.http) + std::to_string(busy)); c.nontrivial();
    for (size_t r = 0; r < rounds; ++r) {
        w.srv->start(); std::vector<std::unique_ptr<net::Client> > v(clients); std::vector<char> ok(clients, 0); for (auto& k : v) k.reset(new net::Client);
        World::Cl slow; if (busy) { PBT_CHECK(w.try_connect(slow.c), "connect"); slow.c.send(w.request(slow, 's')); }
        boost::thread t([&] { for (size_t i = 0; i < clients; ++i) ok[i] = w.try_connect(*v[i]); }); if (delay) usleep(delay); w.srv->stop(false); t.join();
        PBT_EQ(w.srv->get_connections(), (size_t)0, "connections after stop()"); for (size_t i = 0; i < clients; ++i) if (ok[i]) PBT_CHECK(really_gone(*v[i]), "a connection made while the server was stopped stays open (round " << r << ")");
    }
}

/// a port that is taken: start() fails and works once the port is free
static void taken(pbt::Src& s, pbt::Case& c) {
    World w(s, c); int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(w.addr); socklen_t l = sizeof a; if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 5) || getsockname(fd, (sockaddr*)&a, &l)) throw pbt::Discard();
    std::string log; size_t before = s.choose(3); unsigned port = ntohs(a.sin_port); for (size_t i = 0; i < before; ++i) { w.srv->start(); w.srv->stop(); log += " start stop"; } w.srv->set_port(port); size_t tries = 1 + s.choose(3); for (size_t i = 0; i < tries; ++i) { bool threw = false; try { w.srv->start(); } catch (std::exception&) { threw = true; } log += " start(taken)"; PBT_CHECK(threw, "start() on a port that is taken succeeds after" << log); PBT_CHECK(!w.srv->is_listening(), "server claims to listen after" << log); if (s.flip()) { w.srv->stop(); log += " stop"; } PBT_EQ(w.srv->get_connections(), (size_t)0, "connections after" << log); }
    close(fd); if (s.chance(1, 4)) w.srv->set_port(0); w.srv->start(); log += " start"; c.note(log); c.key(log + std::to_string(w.http)); c.nontrivial(); if (!w.ssl) { World::Cl k; PBT_CHECK(w.try_connect(k.c), "cannot connect after" << log); PBT_CHECK(k.c.send(w.request(k, 'f')) && k.c.wait([&] { return w.answered(k); }), "no answer after" << log); w.take(k, 'f', log); k.c.drop(); } w.srv->stop(); PBT_CHECK(!w.srv->is_listening(), "stop after" << log);
}

/// no descriptors left for a while: connections wait, and are served when there are some again
static void scarce(pbt::Src& s, pbt::Case& c) {
    World w(s, c); if (w.ssl) throw pbt::Discard(); w.srv->start(); { World::Cl k; PBT_CHECK(w.try_connect(k.c) && k.c.send(w.request(k, 'f')) && k.c.wait([&] { return w.answered(k); }), "no answer"); }
    size_t clients = 2 + s.choose(8), spare = s.choose(clients); std::vector<std::unique_ptr<World::Cl> > v; for (size_t i = 0; i < clients; ++i) { v.push_back(std::unique_ptr<World::Cl>(new World::Cl)); v[i]->c.fd = socket(AF_INET, SOCK_STREAM, 0); }
    int top = dup(0); close(top); rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = top + spare; setrlimit(RLIMIT_NOFILE, &lim);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((unsigned short)w.srv->get_port()); a.sin_addr.s_addr = htonl(w.addr); bool ok = true; for (auto& k : v) ok = ok && ::connect(k->c.fd, (sockaddr*)&a, sizeof a) == 0; usleep(s.choose(3000)); setrlimit(RLIMIT_NOFILE, &old); PBT_CHECK(ok, "connect");
    c.note(std::to_string(clients) + " clients, " + std::to_string(spare) + " descriptors"); c.key(std::to_string(clients) + "/" + std::to_string(spare) + std::to_string(w.http) + std::to_string((bool)w.sched) + std::to_string((bool)w.sched2)); c.nontrivial();
    for (auto& k : v) { PBT_CHECK(k->c.send(w.request(*k, 'f')) && k->c.wait([&] { return w.answered(*k); }), "a connection made while descriptors were scarce is not served"); w.take(*k, 'f', ""); } w.srv->stop(false); for (auto& k : v) PBT_CHECK(k->c.wait_eof(), "connection is open after stop()");
}

/// services are started and stopped with the server they belong to, and are gone when it is cleared
struct Tally { int started, stopped, id; bool gone; std::atomic<int> calls; std::string options; Tally() : started(0), stopped(0), id(0), gone(false), calls(0) {} };
struct Recorder : http::plugin_service {
    boost::shared_ptr<Tally> t; Recorder(const boost::shared_ptr<Tally>& x) : t(x) {} ~Recorder() { t->gone = true; }
    void start() { ++t->started; } void stop() { ++t->stopped; } void set_option(const std::string& n, const std::string& v) { t->options += n + "=" + v + ";"; }
    void operator()(const http::request_ptr& q, const tcp::connection_ptr& k) { ++t->calls; http::response_writer_ptr w(http::response_writer::create(k, *q, boost::bind(&tcp::connection::finish, k))); w << "service " << t->id << " at " << get_resource(); w->send(); }
};
static void services(pbt::Src& s, pbt::Case& c) {
    std::unique_ptr<multi_thread_scheduler> sched; if (s.chance(2, 3)) { if (s.flip()) sched.reset(new single_service_scheduler); else sched.reset(new one_to_one_scheduler); sched->set_num_threads(1 + s.choose(3)); } boost::asio::ip::tcp::endpoint ep(boost::asio::ip::address_v4(my_addr()), 0); std::unique_ptr<http::plugin_server> srv(sched ? new http::plugin_server(*sched, ep) : new http::plugin_server(ep));
    struct Down { std::unique_ptr<http::plugin_server>& srv; std::unique_ptr<multi_thread_scheduler>& sched; ~Down() { if (srv) srv->stop(); if (sched) sched->shutdown(); srv.reset(); } } down = {srv, sched};
    static const char *NAMES[] = {"/a", "/a/b", "/c", "/d.e", "/f"}; std::map<std::string, boost::shared_ptr<Tally> > m; std::vector<boost::shared_ptr<Tally> > gone; std::map<Tally*, std::pair<int, int> > want; bool running = false; int ids = 0; size_t n = 2 + s.choose(14), starts = 0; std::string log; std::vector<std::unique_ptr<net::Client> > open;
    for (size_t i = 0; i <= n; ++i) {
        switch (i == n ? 3 : s.weighted({4, 4, 5, 3, 1, 2})) {
            case 0: { std::string r = NAMES[s.choose(5)]; if (m.count(r)) break; boost::shared_ptr<Tally> t(new Tally); t->id = ++ids; srv->add_service(r + (s.flip() ? "/" : ""), new Recorder(t)); m[r] = t; want[t.get()] = std::make_pair(0, 0); log += " add:" + r; break; }
            case 1: srv->start(); if (!running) { for (auto& e : m) ++want[e.second.get()].first; ++starts; } running = true; log += " start"; break;
            case 2: { std::string q = std::string(NAMES[s.choose(5)]) + (s.flip() ? "/x" : ""); bool keep = s.flip(); log += " GET:" + q; std::unique_ptr<net::Client> k(new net::Client); bool ok = k->connect(srv->get_port(), my_addr()); if (!running) { PBT_CHECK(!ok, "a connection is accepted by a server that was stopped:" << log); break; } PBT_CHECK(ok, "cannot connect after" << log);
                PBT_CHECK(k->send("GET " + q + " HTTP/1.1\r\nHost: x\r\n" + (keep ? "" : "Connection: close\r\n") + "\r\n"), "send"); k->wait([&] { net::Response r = net::parse(k->in, false, k->eof); return r.complete || r.bad; }); net::Response r = net::parse(k->in, false, k->eof); PBT_CHECK(r.complete && !r.bad, "no answer after" << log << ": " << pbt::show(k->in));
                std::string best; for (auto& e : m) if ((q == e.first || q.compare(0, e.first.size() + 1, e.first + "/") == 0) && e.first.size() > best.size()) best = e.first; if (best.empty()) PBT_EQ(r.status, 404, "answer after" << log); else { PBT_EQ(r.status, 200, "answer after" << log); PBT_EQ(r.body, "service " + std::to_string(m[best]->id) + " at " + best, "answer after" << log); } if (keep) open.push_back(std::move(k)); break; }
            case 3: { bool wait = s.chance(1, 3); if (wait) open.clear(); srv->stop(wait); if (running) for (auto& e : m) ++want[e.second.get()].second; running = false; log += wait ? " stop(wait)" : " stop"; for (auto& k : open) PBT_CHECK(k->wait_eof(), "a connection is open after" << log); open.clear(); break; }
            case 4: srv->clear(); if (running) for (auto& e : m) ++want[e.second.get()].second; running = false; log += " clear"; for (auto& e : m) { PBT_CHECK(e.second->gone, "service " << e.first << " still exists after" << log); gone.push_back(e.second); } m.clear(); for (auto& k : open) PBT_CHECK(k->wait_eof(), "a connection is open after" << log); open.clear(); PBT_CHECK(!srv->is_listening(), "the server listens after" << log); break;
            case 5: if (!m.empty()) { auto e = m.begin(); std::advance(e, s.choose(m.size())); std::string v = std::to_string(s.choose(9)), was = e->second->options; srv->set_service_option(e->first, "o", v); log += " option:" + e->first; for (auto& f : m) PBT_EQ(f.second->options, f.first == e->first ? was + "o=" + v + ";" : f.second->options, "options after" << log); } break;
        }
        for (auto& e : m) { PBT_CHECK(!e.second->gone, "service " << e.first << " is gone after" << log); PBT_EQ(e.second->started, want[e.second.get()].first, "start() of " << e.first << " after" << log); PBT_EQ(e.second->stopped, want[e.second.get()].second, "stop() of " << e.first << " after" << log); }
        for (auto& t : gone) { PBT_EQ(t->started, want[t.get()].first, "start() of a cleared service after" << log); PBT_EQ(t->stopped, want[t.get()].second, "stop() of a cleared service after" << log); }
    }
    c.note(log); c.key(log); c.nontrivial(starts > 0 && ids > 0); srv.reset(); for (auto& e : m) PBT_CHECK(e.second->gone, "service " << e.first << " outlives the server:" << log);
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P24"; cfg.level = "exploration"; cfg.rule = "the server was stopped with connections open or after serving some, or could not start, or was stopped while clients connected; distinct by history";
    cfg.assumptions = {"start() and stop() are not called concurrently with each other, nor from request handlers", "with stop(true) clients that have no request under way close their connections", "a request is under way once its handler was entered"};
    cfg.subs = {{"history", history, 2500, 60000, 30, 3, 2, 0}, {"storm", storm, 1500, 40000, 30, 6, 2, 0}, {"taken", taken, 300, 4000, 40, 3, 3, 0}, {"services", services, 5000, 100000, 30, 3, 3, 0}, {"scarce", scarce, 300, 6000, 30, 3, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
