// Encrypted connections: a server configured for TLS serves TLS clients as it would serve others, and nobody else; pion
// as a TLS client exchanges exactly the messages it was given.  The other side is OpenSSL driven by the harness, which
// sees every byte on the wire.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/http/server.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
#include <openssl/ssl.h>
#include <boost/thread.hpp>
#include <atomic>
#include <memory>
using namespace pion;

static std::string pem() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/test.pem"; }
static const std::string SECRET = "open sesame, this is the secret";

/// one end of a TLS connection over a socket; what is sent may be cut anywhere
struct Tls {
    net::Client& c; SSL_CTX *ctx; SSL *ssl; std::string in, raw_in, raw_out; bool ready, failed, eof; size_t piece;
    Tls(net::Client& k, bool server, int version, size_t cut) : c(k), ready(false), failed(false), eof(false), piece(cut) {
        ctx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method()); if (server) { SSL_CTX_use_certificate_file(ctx, pem().c_str(), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(ctx, pem().c_str(), SSL_FILETYPE_PEM); }
        SSL_CTX_set_min_proto_version(ctx, version); SSL_CTX_set_max_proto_version(ctx, version); ssl = SSL_new(ctx); SSL_set_bio(ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
    }
    ~Tls() { SSL_free(ssl); SSL_CTX_free(ctx); }
    void flush() { char b[32768]; int n; while ((n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) { raw_out.append(b, n); for (int p = 0; p < n;) { size_t k = std::min<size_t>(piece, n - p); if (!c.send(std::string(b + p, k))) return; p += k; } } }
    /// makes progress; waits up to ms for bytes
    void step(int ms) {
        ERR_clear_error(); if (!ready && !failed) { int r = SSL_do_handshake(ssl); if (r == 1) ready = true; else if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) failed = true; } flush(); c.read_some(ms); if (!c.in.empty()) { raw_in += c.in; BIO_write(SSL_get_rbio(ssl), c.in.data(), (int)c.in.size()); c.in.clear(); }
        if (!ready && !failed) { int r = SSL_do_handshake(ssl); if (r == 1) ready = true; else if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) failed = true; flush(); }
        if (ready) { char b[20000]; int n; while ((n = SSL_read(ssl, b, sizeof b)) > 0) in.append(b, n); int e = SSL_get_error(ssl, n); if (e == SSL_ERROR_ZERO_RETURN) eof = true; else if (e == SSL_ERROR_SSL) failed = true; flush(); } if (c.eof) eof = true;
    }
    bool handshake() { for (int i = 0; i < 2000 && !ready && !failed && !eof; ++i) step(10); return ready; }
    void send(const std::string& t) { for (size_t p = 0; p < t.size();) { int n = SSL_write(ssl, t.data() + p, (int)(t.size() - p)); if (n <= 0) return; p += n; } flush(); }
    void bye() { SSL_shutdown(ssl); flush(); }
    template <typename F> bool wait(F f) { for (int i = 0; i < 2000; ++i) { if (f()) return true; if (failed) return false; if (eof) { return f(); } step(10); } return f(); }
};
static int version(pbt::Src& s) { return s.flip() ? TLS1_3_VERSION : TLS1_2_VERSION; }
static size_t cut(pbt::Src& s) { return s.chance(1, 3) ? 1 + s.choose(100) : 100000; }

// ---- pion as the server ----
static std::atomic<int> g_calls(0);
static std::string pattern(size_t n) { std::string t; while (t.size() < n) t += SECRET + std::to_string(t.size()); t.resize(n); return t; }
struct Chunks : boost::enable_shared_from_this<Chunks> { http::response_writer_ptr w; std::string text; size_t pos, each; void step(const boost::system::error_code& ec, std::size_t) { if (ec) { w->get_connection()->finish(); return; } w->clear(); size_t k = std::min(each, text.size() - pos); w->write(text.substr(pos, k)); pos += k; if (pos < text.size()) w->send_chunk(boost::bind(&Chunks::step, shared_from_this(), _1, _2)); else w->send_final_chunk(); } };
static void handler(const http::request_ptr& q, const tcp::connection_ptr& conn) {
    ++g_calls; size_t n = strtoul(q->get_query("n").c_str(), NULL, 10), each = strtoul(q->get_query("each").c_str(), NULL, 10); std::string text = q->get_method() + "|" + std::string(q->get_content() ? q->get_content() : "", q->get_content_length()) + "|" + (conn->get_ssl_flag() ? "tls" : "clear") + "|" + pattern(n);
    http::response_writer_ptr w(http::response_writer::create(conn, *q, boost::bind(&tcp::connection::finish, conn))); if (each) { boost::shared_ptr<Chunks> c(new Chunks); c->w = w; c->text = text; c->pos = 0; c->each = each; c->step(boost::system::error_code(), 0); } else { w->write(text); w->send(); }
}
struct Ask { std::string text, want; bool close; };
static Ask ask(pbt::Src& s, bool last) { Ask a; a.close = last && s.flip(); size_t n = s.choose(3) ? s.choose(200) : s.choose(60000), each = s.choose(3) ? 0 : 1 + s.choose(s.flip() ? 50 : 20000); if (each && n / each > 200) each = n / 200 + 1; std::string body = s.choose(2) ? s.of("abc\r\n", s.choose(40)) + SECRET : s.blob(s.choose(30000), "xyz"); bool post = s.flip(); if (!post) body.clear(); a.text = std::string(post ? "POST" : "GET") + " /x?n=" + std::to_string(n) + (each ? "&each=" + std::to_string(each) : "") + " HTTP/1.1\r\nHost: h\r\n" + (post ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : "") + (a.close ? "Connection: close\r\n" : "") + "\r\n" + body; a.want = std::string(post ? "POST" : "GET") + "|" + body + "|tls|" + pattern(n); return a; }

static void server(pbt::Src& s, pbt::Case& c) {
    g_calls = 0; single_service_scheduler one; one.set_num_threads(1 + s.choose(3)); std::unique_ptr<http::server> srv(new http::server(one, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0))); srv->set_ssl_key_file(pem()); srv->add_resource("/", handler); struct Down { scheduler& sc; std::unique_ptr<http::server>& srv; ~Down() { if (srv) srv->stop(); sc.shutdown(); srv.reset(); } } down = {one, srv}; PBT_CHECK(srv->get_ssl_flag(), "flag"); srv->start(); unsigned port = srv->get_port();
    // T encrypted, P clear request, G garbage, H stops in the handshake, D leaves after the handshake, V vanishes in a request
    struct Peer { char kind; net::Client c; std::unique_ptr<Tls> tls; std::vector<Ask> asks; size_t sent, got; bool pipeline; std::string text; }; size_t n = 1 + s.choose(5), answered = 0, maybe = 0; std::vector<std::unique_ptr<Peer> > v; std::string note = std::to_string(one.get_num_threads()) + " threads";
    for (size_t i = 0; i < n; ++i) { std::unique_ptr<Peer> p(new Peer); p->kind = "TPGHDV"[s.weighted({8, 3, 1, 1, 1, 1})]; p->sent = p->got = 0; p->pipeline = s.chance(1, 3); size_t k = 1 + s.choose(4); int ver = version(s); size_t ct = cut(s); p->tls.reset(new Tls(p->c, false, ver, ct)); note += std::string(" ") + p->kind + (ver == TLS1_3_VERSION ? "3" : "2") + "/" + std::to_string(ct) + (p->pipeline ? "p" : ""); if (p->kind == 'T' || p->kind == 'V') for (size_t j = 0; j < k; ++j) { p->asks.push_back(ask(s, j + 1 == k)); note += " " + std::to_string(p->asks.back().want.size()) + "b" + std::to_string(p->asks.back().text.size()); }
        if (p->kind == 'P') { p->text = ask(s, false).text; if (s.flip()) p->text += p->text; } if (p->kind == 'G') p->text = "\x16\x03\x01" + s.bytes(20 + s.choose(300)); v.push_back(std::move(p)); }
    c.note(note); c.key(note); c.nontrivial(); for (auto& p : v) c.label(std::string("peer ") + p->kind);
    // in any order, one step each
    for (auto& p : v) PBT_CHECK(p->c.connect(port), "cannot connect"); std::vector<Peer*> todo; for (auto& p : v) todo.push_back(p.get());
    while (!todo.empty()) {
        size_t i = s.choose(todo.size()); Peer& p = *todo[i]; bool finished = false;
        switch (p.kind) {
            case 'P': case 'G': p.c.send(p.text); finished = true; break;
            case 'H': { p.tls->c.read_some(0); SSL_do_handshake(p.tls->ssl); char b[4096]; int k = BIO_read(SSL_get_wbio(p.tls->ssl), b, sizeof b); if (k > 1) p.c.send(std::string(b, 1 + s.choose(k - 1))); finished = true; break; }
            case 'D': PBT_CHECK(p.tls->handshake(), "handshake fails"); if (s.flip()) p.tls->bye(); p.c.drop(); finished = true; break;
            default:
                if (!p.tls->ready) { PBT_CHECK(p.tls->handshake(), "handshake fails " << p.kind << " of " << note); break; }
                if (p.kind == 'V') { std::string t = p.asks[0].text; size_t k = s.choose(t.size()); if (k) p.tls->send(t.substr(0, k)); p.c.drop(); finished = true; break; }
                do { p.tls->send(p.asks[p.sent].text); ++p.sent; } while (p.pipeline && p.sent < p.asks.size());
                if (p.pipeline || s.flip() || p.sent == p.asks.size()) while (p.got < p.sent) {
                    net::Response r; p.tls->wait([&] { r = net::parse(p.tls->in, false, p.tls->eof); return r.complete || r.bad; }); PBT_CHECK(!r.bad && r.complete, "no answer to request " << p.got << (r.bad ? ": " + r.why : std::string()) << (p.tls->failed ? " (TLS error)" : "") << (p.tls->eof ? " (closed)" : "") << ", got " << p.tls->in.size() << " bytes"); PBT_EQ(r.status, 200, "status"); PBT_CHECK(r.body == p.asks[p.got].want, "wrong content of " << r.body.size() << " bytes, want " << p.asks[p.got].want.size()); p.tls->in.erase(0, r.used); ++p.got; ++answered;
                }
                if (p.got == p.asks.size()) { PBT_CHECK(p.tls->in.empty(), "bytes after the last answer"); if (p.asks.back().close) PBT_CHECK(p.tls->wait([&] { return p.tls->eof; }), "the connection stays open"); finished = true; }
        }
        if (finished) todo.erase(todo.begin() + i);
    }
    for (auto& p : v) { if (p->kind == 'P' || p->kind == 'G') { if (p->kind == 'P') PBT_CHECK(p->c.wait_eof(), "a clear connection is not closed"); else p->c.read_some(0); for (const char *bad : {"HTTP/", "secret", "html"}) PBT_CHECK(p->c.in.find(bad) == std::string::npos, "answer in clear: " << pbt::show(p->c.in)); }
        if (p->kind == 'T') for (const std::string *raw : {&p->tls->raw_in, &p->tls->raw_out}) for (const char *bad : {"HTTP/1.", "secret"}) PBT_CHECK(raw->find(bad) == std::string::npos, "clear text on the wire"); if (p->kind == 'V') ++maybe; }
    srv->stop(); one.shutdown(); srv.reset(); PBT_CHECK((size_t)g_calls >= answered && (size_t)g_calls <= answered + maybe, "the handler was called " << g_calls << " times for " << answered << " requests");
}

// ---- pion as the client ----
static void client(pbt::Src& s, pbt::Case& c) {
    bool async = s.flip(); int ver = version(s); size_t ct = cut(s), k = 1 + s.choose(4); struct X { std::string path, body, reply, want; bool chunked, to_eof; }; std::vector<X> xs; std::string note = std::string(async ? "async " : "sync ") + (ver == TLS1_3_VERSION ? "1.3" : "1.2") + " cut " + std::to_string(ct);
    for (size_t i = 0; i < k; ++i) { X x; x.path = "/" + s.of("abc", 1 + s.choose(5)); x.body = s.choose(3) ? s.of("abc", s.choose(40)) + SECRET : s.blob(s.choose(50000), "xyz"); x.want = s.choose(3) ? SECRET + s.of("abc", s.choose(40)) : s.blob(s.choose(50000), "xyz\r\n"); x.chunked = s.chance(1, 3); x.to_eof = i + 1 == k && !x.chunked && s.chance(1, 3); std::string h = "HTTP/1.1 200 OK\r\n"; if (x.to_eof) x.reply = h + "\r\n" + x.want; else if (x.chunked) { x.reply = h + "Transfer-Encoding: chunked\r\n\r\n"; for (size_t p = 0; p < x.want.size();) { size_t m = std::min<size_t>(x.want.size() - p, 1 + s.choose(20000)); char b[20]; snprintf(b, sizeof b, "%zx\r\n", m); x.reply += b + x.want.substr(p, m) + "\r\n"; p += m; } x.reply += "0\r\n\r\n"; } else x.reply = h + "Content-Length: " + std::to_string(x.want.size()) + "\r\n\r\n" + x.want; note += " " + std::to_string(x.body.size()) + "/" + std::to_string(x.want.size()) + (x.chunked ? "c" : x.to_eof ? "e" : ""); xs.push_back(x); }
    bool refuse = s.chance(1, 10); bool abrupt = s.flip(); if (refuse) note += " refused"; c.note(note); c.key(note); c.nontrivial(); c.label(refuse ? "refused" : async ? "async" : "sync");
    boost::asio::io_service io; net::Pair pair; tcp::connection_ptr conn(new tcp::connection(io, true)); net::adopt(*conn, pair.fd[0]); net::Client peer(pair.fd[1]); pair.fd[1] = -1; std::string trouble; std::vector<std::string> seen;
    Tls tls(peer, true, ver, ct); boost::thread t([&] {
        if (refuse) { peer.send("HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n"); peer.read_some(100); peer.half_close(); while (!peer.eof) { peer.read_some(10); if (peer.in.size() > 200000) break; } return; }
        if (!tls.handshake()) { trouble = "handshake"; peer.drop(); return; }
        for (size_t i = 0; i < k; ++i) { net::Response r; tls.wait([&] { r = net::parse(tls.in, false, tls.eof, true); return r.complete || r.bad; }); if (!r.complete || r.bad) { trouble = "request " + std::to_string(i) + " does not arrive: " + r.why; peer.drop(); return; } seen.push_back(r.reason + "|" + r.body); tls.in.erase(0, r.used); tls.send(xs[i].reply); }
        if (xs.back().to_eof) { if (!abrupt) tls.bye(); peer.half_close(); } tls.wait([&] { return tls.eof; });
    });
    struct Join { boost::thread& t; tcp::connection_ptr& c; ~Join() { c->close(); t.join(); } } join = {t, conn}; boost::system::error_code ec; std::string log;
    if (async) { int done = 0; conn->async_handshake_client([&](const boost::system::error_code& e) { ++done; ec = e; }); io.run(); PBT_EQ(done, 1, "handshake handler calls"); } else ec = conn->handshake_client();
    if (refuse) { PBT_CHECK(ec, "handshake with a peer that does not speak TLS"); conn->close(); t.join(); PBT_CHECK(peer.in.find("secret") == std::string::npos, "clear text on the wire"); t = boost::thread([] {}); return; }
    PBT_CHECK(!ec, "handshake: " << ec.message()); PBT_CHECK(conn->get_ssl_flag(), "flag");
    for (size_t i = 0; i < k; ++i) {
        X& x = xs[i]; std::string got; http::request q(x.path); q.set_method("POST");
        if (async) { int w = 0, r = 0; boost::system::error_code we, re; http::response_ptr m; http::request_writer_ptr wr(http::request_writer::create(conn, [&](const boost::system::error_code& e) { ++w; we = e; })); wr->get_request().set_method("POST"); wr->get_request().set_resource(x.path); wr->write(x.body); wr->send(); io.reset(); io.run(); PBT_CHECK(w == 1 && !we, "request is not sent: " << we.message()); http::response_reader::create(conn, wr->get_request(), [&](http::response_ptr a, tcp::connection_ptr, const boost::system::error_code& e) { ++r; re = e; m = a; })->receive(); io.reset(); io.run(); PBT_CHECK(r == 1 && !re, "response is not read: " << re.message()); got.assign(m->get_content() ? m->get_content() : "", m->get_content_length()); PBT_EQ(m->get_status_code(), 200u, "status"); }
        else { q.set_content(x.body); q.send(*conn, ec); PBT_CHECK(!ec, "send: " << ec.message()); http::response m("POST"); m.receive(*conn, ec); PBT_CHECK(!ec, "receive: " << ec.message()); PBT_EQ(m.get_status_code(), 200u, "status"); got.assign(m.get_content() ? m.get_content() : "", m.get_content_length()); }
        PBT_CHECK(got == x.want, "response " << i << " has " << got.size() << " bytes of content, want " << x.want.size());
    }
    conn->close(); t.join(); PBT_CHECK(trouble.empty(), trouble); PBT_EQ(seen.size(), k, "requests"); for (size_t i = 0; i < k; ++i) PBT_CHECK(seen[i] == "POST " + xs[i].path + " HTTP/1.1|" + xs[i].body, "request " << i << " arrives as " << pbt::show(seen[i], 100)); for (const std::string *raw : {&tls.raw_in, &tls.raw_out}) for (const char *bad : {"HTTP/1.", "secret"}) PBT_CHECK(raw->find(bad) == std::string::npos, "clear text on the wire"); t = boost::thread([] {});
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P32"; cfg.level = "exploration"; cfg.rule = "every case (at least one connection that is or should be encrypted); distinct by the peers, versions, cuts and sizes";
    cfg.assumptions = {"TLS 1.2 and 1.3 as OpenSSL has them, certificates are not verified (pion leaves that to the application)", "clear text is recognised by parts of the HTTP messages"};
    cfg.subs = {{"server", server, 1200, 30000, 60, 3, 2, 0}, {"client", client, 1500, 40000, 60, 3, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
