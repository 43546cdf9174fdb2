// A listening HTTP server and several clients: every request gets one answer, in order, correctly framed.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/http/server.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/http/request.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <memory>
#include <mutex>
using namespace pion;
using net::Client;

static std::string pattern(unsigned id, size_t n) { std::string s; s.reserve(n); uint64_t st = id * 7919u + 1; while (s.size() < n) { uint64_t r = pbt::splitmix(st); for (int i = 0; i < 8 && s.size() < n; ++i, r >>= 8) s += (char)(r & 0xff); } return s; }

enum Kind { SEND, CHUNKS, BLOCKING, POSTED, THROW, NOT_FOUND, NO_CONTENT, SPLIT_WRITE, N_KINDS };
static const char *NAMES[] = {"send", "chunks", "blocking", "posted", "throw", "notfound", "nocontent", "nocopy"};

struct Req {
    unsigned id; Kind kind; std::string method, content, text; bool v11, close, chunked_request, malformed; size_t size, chunks; int status;
    Req() : id(0), kind(SEND), v11(true), close(false), chunked_request(false), malformed(false), size(0), chunks(1), status(200) {}
    bool persists() const { return v11 && !close && !malformed; }
    bool head() const { return method == "HEAD"; }
};

struct World {
    single_service_scheduler sched; std::unique_ptr<http::server> srv; std::vector<std::unique_ptr<std::atomic<int> > > calls; std::mutex m; std::string trouble; std::atomic<long> live;
    World() : live(0) {}
    void complain(const std::string& t) { std::lock_guard<std::mutex> l(m); if (trouble.empty()) trouble = t; }
};
static std::map<unsigned, Req> *g_reqs; static World *g_world;

struct Chunker : boost::enable_shared_from_this<Chunker> {
    http::response_writer_ptr w; tcp::connection_ptr conn; std::vector<std::string> parts; size_t next; Chunker() : next(0) {}
    void step(const boost::system::error_code& ec, std::size_t) {
        if (ec) { conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); conn->finish(); return; }
        w->clear(); if (next + 1 < parts.size()) { w->write(parts[next++]); w->send_chunk(boost::bind(&Chunker::step, shared_from_this(), _1, _2)); }
        else { if (next < parts.size()) w->write(parts[next++]); w->send_final_chunk(); }
    }
};
static std::string body_of(const Req& q) { std::ostringstream o; o << q.id << '|' << q.method << '|' << q.content.size() << '|' << pbt::fnv(q.content) << '|'; return o.str() + pattern(q.id, q.size); }

static void respond(const http::request_ptr& r, const tcp::connection_ptr& conn, Kind kind, unsigned id, const std::string& body, size_t chunks) {
    switch (kind) {
        case BLOCKING: {    // written and finished before the handler returns
            http::response resp(*r); resp.set_content(body); boost::system::error_code ec; resp.send(*conn, ec); if (ec) conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); else if (!resp.check_keep_alive()) conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); conn->finish(); return; }
        case CHUNKS: {
            boost::shared_ptr<Chunker> k(new Chunker); k->conn = conn; k->w = http::response_writer::create(conn, *r, boost::bind(&tcp::connection::finish, conn)); size_t p = 0; for (size_t i = 0; i < chunks; ++i) { size_t e = i + 1 == chunks ? body.size() : body.size() * (i + 1) / chunks; k->parts.push_back(body.substr(p, e - p)); p = e; }
            k->w->get_response().add_header("X-Id", std::to_string(id)); k->step(boost::system::error_code(), 0); return; }
        default: {
            http::response_writer_ptr w(http::response_writer::create(conn, *r, boost::bind(&tcp::connection::finish, conn))); w->get_response().add_header("X-Id", std::to_string(id));
            if (kind == NO_CONTENT) { w->get_response().set_status_code(204); w->get_response().set_status_message("No Content"); }
            else if (kind == SPLIT_WRITE) { size_t h = body.size() / 2; w->write((const void*)body.data(), h); w << body.substr(h); }
            else w->write((const void*)body.data(), body.size());
            w->send(); }
    }
}
static void handler(Kind kind, const http::request_ptr& r, const tcp::connection_ptr& conn) {
    World& w = *g_world; unsigned id = (unsigned)strtoul(r->get_query("id").c_str(), NULL, 10); auto it = g_reqs->find(id); if (it == g_reqs->end()) { w.complain("the handler was called with unknown id " + r->get_query("id")); conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); conn->finish(); return; }
    const Req& q = it->second; ++*w.calls[id];
    Req got; got.id = id; got.method = r->get_method(); got.content.assign(r->get_content() ? r->get_content() : "", r->get_content_length()); got.size = q.size; std::string body = body_of(got);
    if (kind == THROW) throw std::runtime_error("handler of " + std::to_string(id) + " failed");
    if (kind == POSTED) { size_t n = q.chunks; w.sched.post([=] { respond(r, conn, SEND, id, body, n); }); return; }
    respond(r, conn, kind, id, body, q.chunks);
}

static Req gen_req(pbt::Src& s, unsigned id, bool last) {
    Req q; q.id = id; q.kind = (Kind)s.weighted({6, 3, 2, 2, 1, 1, 1, 1}); q.method = s.pick({"GET", "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "XYZZY"}); q.v11 = !s.chance(1, 10); q.close = s.chance(1, 10); if (last && s.chance(1, 3)) q.close = true;
    q.size = s.pick({(size_t)0, (size_t)1, (size_t)10, (size_t)100, (size_t)1000, (size_t)8192, (size_t)8193}); if (s.chance(1, 8)) q.size = s.choose(60000); if (s.chance(1, 60)) q.size = 300000 + s.choose(400000); q.chunks = 1 + s.choose(4);
    if (q.method == "POST" || q.method == "PUT" || s.chance(1, 6)) { size_t n = s.len(300); if (s.chance(1, 6)) n = s.choose(20000); if (s.chance(1, 40)) n = 8192 * (1 + s.choose(3)) - s.choose(200); q.content = s.blob(n); q.chunked_request = q.v11 && s.chance(1, 3); }
    std::ostringstream o; o << q.method << " /" << NAMES[q.kind]; if (s.chance(1, 4)) o << "/sub/path"; o << "?id=" << id << " HTTP/1." << (q.v11 ? 1 : 0) << "\r\nHost: x\r\n";
    if (q.close) o << s.pick({"Connection", "connection"}) << ": " << s.pick({"close", "close", "Close"}) << "\r\n"; else if (s.chance(1, 8)) o << "Connection: " << s.pick({"keep-alive", "Keep-Alive"}) << "\r\n";
    if (s.chance(1, 8)) o << "X-Long: " << std::string(s.choose(3000), 'l') << "\r\n";
    if (q.chunked_request) { o << "Transfer-Encoding: chunked\r\n\r\n"; size_t p = 0; while (p < q.content.size()) { size_t n = 1 + s.choose(std::min<size_t>(q.content.size() - p, 5000)); o << std::hex << n << std::dec << "\r\n" << q.content.substr(p, n) << "\r\n"; p += n; } o << "0\r\n\r\n"; }
    else { if (!q.content.empty() || s.chance(1, 4)) o << "Content-Length: " << q.content.size() << "\r\n"; o << "\r\n" << q.content; }
    q.text = o.str(); q.status = q.kind == THROW ? 500 : q.kind == NOT_FOUND ? 404 : q.kind == NO_CONTENT ? 204 : 200; return q;
}
static Req gen_bad(pbt::Src& s, unsigned id) {
    Req q; q.id = id; q.malformed = true; q.status = 400; q.method = "?"; q.text = s.pick({std::string("GET\x01 / HTTP/1.1\r\n\r\n"), std::string("GET / HTTQ/1.1\r\n\r\n"), std::string("GET / HTTP/1.x\r\n\r\n"), std::string("GET /a HTTP/1.1\r\nBad\x02Name: x\r\n\r\n"), std::string("GET /a HTTP/1.1\r\n: novalue\r\n\r\n"),
        std::string("POST /a HTTP/1.1\r\nContent-Length: 12x\r\n\r\n"), std::string("POST /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"), std::string("POST /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcd\r\n0\r\n\r\n"), std::string("(GET) / HTTP/1.1\r\n\r\n"), "GET /" + std::string(300 * 1024, 'u') + " HTTP/1.1\r\n\r\n", std::string(2000, 'M') + " / HTTP/1.1\r\n\r\n"});
    return q;
}

struct Conn { Client cl; std::vector<Req> reqs; std::vector<std::string> pieces; std::vector<size_t> wait_for_responses; size_t next; int ending; size_t seen, offset; bool gone; Conn() : next(0), ending(0), seen(0), offset(0), gone(false) {} };
enum { STAY, HALF_CLOSE, ABORT, TRUNCATED };

/// takes the answers that have arrived; checks them
static void take(Conn& k, const std::string& d) {
    while (k.seen < k.reqs.size()) {
        const Req& q = k.reqs[k.seen]; std::string rest = k.cl.in.substr(k.offset); net::Response r = net::parse(rest, q.head(), k.cl.eof); if (q.malformed && q.text.size() > 8000 && k.cl.eof && r.bad) { k.offset = k.cl.in.size(); ++k.seen; return; } PBT_CHECK(!r.bad, "answer to request " << q.id << " (" << NAMES[q.kind] << "): " << r.why << " in " << pbt::show(rest, 300) << " after " << d);
        if (!r.complete) { if (q.malformed && q.text.size() > 8000 && k.cl.eof) { k.offset = k.cl.in.size(); ++k.seen; } return; }
        PBT_EQ(r.odd_reason(), std::string(), "status text \"" << r.reason << "\" of answer " << r.status << " after " << d);
        PBT_EQ(r.status, q.status, "answer to request " << q.id << " " << q.method << " " << NAMES[q.kind] << ": " << pbt::show(rest, 200) << " after " << d);
        if (q.status == 200) { if (q.kind != BLOCKING) PBT_EQ(r.header("X-Id"), std::to_string(q.id), "answers out of order after " << d); if (q.head()) { PBT_EQ(r.body.size(), 0u, ""); if (r.has_length && q.kind != CHUNKS) PBT_EQ(r.length, body_of(q).size(), "announced length of a HEAD answer"); } else PBT_CHECK(r.body == body_of(q), "body of answer to request " << q.id << " (" << NAMES[q.kind] << "): " << r.body.size() << " bytes " << pbt::show(r.body, 80) << " instead of " << body_of(q).size() << " " << pbt::show(body_of(q), 80) << " after " << d); }
        if (!q.malformed && !q.v11) PBT_CHECK(!r.chunked, "answer to HTTP/1.0 request " << q.id << " (" << NAMES[q.kind] << ") is sent in chunks, which such a client does not know: " << pbt::show(rest, 200) << " after " << d);
        std::string co = net::Response::low(r.header("Connection")); bool announces_close = co == "close" || (r.vmaj == 1 && r.vmin == 0 && co != "keep-alive");
        if (!q.malformed) { if (q.persists()) PBT_CHECK(!announces_close && !r.to_eof, "answer to persistent request " << q.id << " (" << NAMES[q.kind] << ") announces that the connection closes"); else PBT_CHECK(co != "keep-alive", "answer to the last request " << q.id << " announces that the connection stays open"); }
        k.offset += r.used; ++k.seen; if (!q.persists() || r.to_eof) { PBT_CHECK(k.cl.wait_eof(), "the connection stays open after the answer to request " << q.id << " (" << (q.malformed ? "malformed" : q.v11 ? "Connection: close" : "HTTP/1.0") << ") of " << d); PBT_EQ(k.cl.in.size(), k.offset, "data after the last answer: " << pbt::show(k.cl.in.substr(k.offset)) << " of " << d); return; }
    }
}

static void run(pbt::Src& s, pbt::Case& c, size_t max_conns) {
    World w; std::map<unsigned, Req> reqs; g_world = &w; g_reqs = &reqs; unsigned threads = 1 + s.choose(4); w.sched.set_num_threads(threads); w.srv.reset(new http::server(w.sched, 0)); for (int k = 0; k < N_KINDS; ++k) if (k != NOT_FOUND) { Kind kk = (Kind)k; w.srv->add_resource(std::string("/") + NAMES[k], [kk](const http::request_ptr& r, const tcp::connection_ptr& t) { handler(kk, r, t); }); }
    size_t n = 1 + s.choose(max_conns); std::vector<std::unique_ptr<Conn> > conns; unsigned id = 0; std::ostringstream d; d << threads << " threads"; size_t total = 0;
    for (size_t i = 0; i < n; ++i) {
        conns.emplace_back(new Conn); Conn& k = *conns.back(); size_t m = 1 + s.choose(s.chance(1, 6) ? 20 : 5); d << "; conn " << i << ":"; bool closed = false; k.ending = s.weighted({6, 2, 1, 1}); if (k.ending == ABORT && n == 1) k.ending = STAY;
        bool lockstep = s.chance(1, 3); int mixed = s.choose(3); std::vector<std::string> units; size_t live = 0;
        for (size_t j = 0; j < m; ++j) { bool bad = s.chance(1, j + 1 == m ? 6 : 25); Req q = bad ? gen_bad(s, id) : gen_req(s, id, j + 1 == m); w.calls.emplace_back(new std::atomic<int>(0)); reqs[id] = q; ++id; d << ' ' << (q.malformed ? "BAD" : q.method + ":" + NAMES[q.kind] + (q.v11 ? "" : ":1.0") + (q.close ? ":close" : "") + (q.chunked_request ? ":chunked" : "") + ":" + std::to_string(q.content.size()) + ">" + std::to_string(q.size)); if (!closed) { k.reqs.push_back(q); ++live; } if (lockstep && closed) break; units.push_back(q.text); if (!q.persists()) closed = true; }
        // what follows a request that ends the connection must be taken off the socket in the same read, or else closing resets it
        bool care = units.size() > live; for (auto& q : k.reqs) if (q.malformed) care = true; if (care && !lockstep) { size_t sum = 0; for (auto& u : units) sum += u.size(); if (sum <= 8000) mixed = 0; else { lockstep = true; units.resize(live); } }
        total += live; if (k.ending == TRUNCATED && !closed) { std::string t = gen_req(s, 0, false).text; t.resize(t.size() > 1 ? 1 + s.choose(t.size() - 1) : 1); if (t.find("\r\n\r\n") != std::string::npos) t = "GET /tru"; units.push_back(t); } else if (k.ending == TRUNCATED) k.ending = STAY;
        d << (lockstep ? " (one by one)" : mixed == 0 ? " (at once)" : " (pipelined)") << (k.ending == HALF_CLOSE ? " half-close" : k.ending == ABORT ? " abort" : k.ending == TRUNCATED ? " truncated" : "");
        std::string acc; for (size_t u = 0; u < units.size(); ++u) { acc += units[u]; bool flush = lockstep || u + 1 == units.size() || (mixed == 1 && s.chance(1, 3)); if (!flush) continue; size_t cuts = s.choose(4); if (mixed == 0 || (lockstep && u < k.reqs.size() && k.reqs[u].malformed)) cuts = 0; std::set<size_t> at; for (size_t b = 0; b < cuts; ++b) at.insert(s.choose(acc.size() + 1)); if (cuts && acc.size() < 400 && s.chance(1, 12)) for (size_t b = 1; b < acc.size(); ++b) at.insert(b); size_t p = 0; for (size_t a : at) if (a > p && a < acc.size()) { k.pieces.push_back(acc.substr(p, a - p)); k.wait_for_responses.push_back(lockstep ? u : 0); p = a; } k.pieces.push_back(acc.substr(p)); k.wait_for_responses.push_back(lockstep ? u : 0); acc.clear(); }
        if (k.ending == ABORT) { size_t keep = s.choose(k.pieces.size() + 1); k.pieces.resize(keep); }
    }
    c.note(d.str()); c.key(d.str()); c.nontrivial(total >= 2); if (n > 1) c.label("concurrent connections"); if (total > 8) c.label("more than 8 requests");
    w.srv->start(); unsigned port = w.srv->get_port(); std::string hist = d.str();
    for (auto& k : conns) PBT_CHECK(k->cl.connect(port), "cannot connect");
    for (;;) {
        std::vector<Conn*> ready; for (auto& k : conns) if (!k->gone && k->next < k->pieces.size()) ready.push_back(k.get()); if (ready.empty()) break; Conn& k = *s.pick(ready);
        size_t want = std::min(k.wait_for_responses[k.next], k.reqs.size()); if (k.seen < want) { bool ok = k.cl.wait([&] { take(k, hist); return k.seen >= want || k.cl.eof; }); PBT_CHECK(ok && k.seen >= want, "only " << k.seen << " of " << want << " answers arrived " << (k.cl.eof ? "before the connection was closed" : "in time") << ", sent " << pbt::show(k.pieces[k.next ? k.next - 1 : 0], 60) << " after " << hist); }
        if (!k.cl.send(k.pieces[k.next])) { k.gone = true; continue; } ++k.next; if (s.chance(1, 5)) usleep(s.pick({0, 50, 500}));
        if (k.next == k.pieces.size() && k.ending == ABORT) { k.cl.drop(); k.gone = true; }
    }
    for (auto& kp : conns) {
        Conn& k = *kp; if (k.ending == ABORT) continue; if (!k.gone && (k.ending == HALF_CLOSE || k.ending == TRUNCATED)) k.cl.half_close();
        bool ok = k.cl.wait([&] { take(k, hist); return k.seen >= k.reqs.size(); }); take(k, hist); PBT_CHECK(ok && k.seen >= k.reqs.size(), "only " << k.seen << " of " << k.reqs.size() << " answers arrived " << (k.cl.eof ? "before the connection was closed" : "in time") << ": " << pbt::show(k.cl.in.substr(k.offset), 100) << " after " << hist);
        if (k.ending == HALF_CLOSE || k.ending == TRUNCATED) { PBT_CHECK(k.cl.wait_eof(), "the server does not close its side of a connection that the client has finished: " << hist); if (k.ending == HALF_CLOSE) PBT_EQ(k.cl.in.size(), k.offset, "data after the last answer: " << pbt::show(k.cl.in.substr(k.offset)) << " of " << hist); }
        else { take(k, hist); bool persists = k.reqs.back().persists(); if (persists && k.cl.in.size() == k.offset) { k.cl.read_some(0); PBT_CHECK(!k.cl.eof, "the connection was closed after a persistent request: " << hist); } PBT_EQ(k.cl.in.size(), k.offset, "data after the last answer: " << pbt::show(k.cl.in.substr(k.offset)) << " of " << hist); }
        for (auto& q : k.reqs) if (!q.malformed && q.kind != NOT_FOUND) PBT_EQ((int)*w.calls[q.id], 1, "calls of the handler for request " << q.id << " of " << hist);
    }
    // requests after the one that ends the connection are not answered, and so not handled
    { std::set<unsigned> due; bool aborted = false; for (auto& k : conns) { if (k->ending == ABORT) aborted = true; for (auto& q : k->reqs) due.insert(q.id); } for (auto& e : reqs) if (!due.count(e.first)) PBT_EQ((int)*w.calls[e.first], 0, "request " << e.first << " was handled although an earlier one ended the connection: " << hist); (void)aborted; }
    for (auto& k : conns) k->cl.drop();
    w.srv->stop(true); w.sched.shutdown(); PBT_CHECK(w.trouble.empty(), w.trouble << " " << hist); for (auto& e : w.calls) PBT_CHECK(*e <= 1, "a request was handled " << *e << " times: " << hist); w.srv.reset();
}
static void single(pbt::Src& s, pbt::Case& c) { run(s, c, 1); }
static void several(pbt::Src& s, pbt::Case& c) { run(s, c, 8); }

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P15"; cfg.level = "exploration"; cfg.rule = "at least two requests that must be answered; distinct by the sequence of requests, cuts and handlers";
    cfg.assumptions = {"HTTP/1.1 connections persist unless the request says Connection: close, HTTP/1.0 ones never do (as documented in check_keep_alive)", "loopback TCP; the operating system picks the port", "handlers call finish() once"};
    cfg.subs = {{"single", single, 4000, 60000, 40, 3, 2, 0}, {"several", several, 1500, 20000, 40, 5, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
