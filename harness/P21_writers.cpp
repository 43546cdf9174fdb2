// Writers: any mix of pieces sent at once or in chunks must arrive as one correctly framed message with exactly that content.
#include "net.hpp"
#include "httpgen.hpp"
#include <pion/http/response_writer.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/parser.hpp>
#include <iomanip>
#include <list>
#include <memory>
using namespace pion;

struct Rig {
    boost::asio::io_service io; net::Pair p; net::Client cl; tcp::connection_ptr conn; int finished; boost::system::error_code fin_ec;
    Rig(bool keep) : cl(p.fd[1]), conn(new tcp::connection(io)), finished(0) { p.fd[1] = -1; net::adopt(*conn, p.fd[0]); conn->set_lifecycle(keep ? tcp::connection::LIFECYCLE_KEEPALIVE : tcp::connection::LIFECYCLE_CLOSE); }
    void run() { for (int idle = 0; idle < 200000; ++idle) { io.reset(); size_t n = io.poll(); cl.read_some(0); if (n == 0 && io.stopped()) return; if (n) idle = 0; else usleep(50); } PBT_CHECK(false, "the write never completes"); }
    void end() { conn->close(); while (!cl.eof) cl.read_some(10); }
};
static std::string payload(pbt::Src& s) { switch (s.choose(5)) { case 0: return s.of("abc xyz\r\n0;", s.len(60)); case 1: return s.bytes(s.len(80)); case 2: return std::string(1 + s.choose(4), '\0') + s.of("ab", s.choose(5)); case 3: return s.blob(s.pick({255, 256, 257, 4095, 4096, 4097, 8192, 65535, 65536, 70000, 200000}) + s.choose(3)); default: return s.of("0123456789abcdef\r\n", s.len(40)); } }

/// keeps referenced data alive until everything is sent
struct Store { std::list<std::string> d; std::string& add(const std::string& x) { d.push_back(x); return d.back(); } };

/// one write of any kind; returns what must be sent for it (the stream state of the writer is mirrored)
template <typename W> static std::string write_piece(pbt::Src& s, W& w, Store& st, std::ostringstream& mirror, std::string& log) {
    mirror.str("");
    switch (s.choose(9)) {
        case 0: { std::string d = payload(s); w.write(d); mirror << d; log += " text:" + std::to_string(d.size()); return mirror.str(); }
        case 1: { std::string d = payload(s); { std::string copy(d); w.write((const void*)copy.data(), copy.size()); for (auto& ch : copy) ch = '!'; } log += " copy:" + std::to_string(d.size()); return d; }
        case 2: { std::string& d = st.add(payload(s)); w.write_no_copy(d); log += " ref:" + std::to_string(d.size()); return d; }
        case 3: { std::string& d = st.add(payload(s)); w.write_no_copy((void*)d.data(), d.size()); log += " refptr:" + std::to_string(d.size()); return d; }
        case 4: { int v = (int)s.range(-100000, 100000); w.write(v); mirror << v; log += " int"; return mirror.str(); }
        case 5: { double v = (double)s.range(-1000, 1000) / 7; w.write(v); mirror << v; log += " double"; return mirror.str(); }
        case 6: w.write(std::endl); mirror << std::endl; log += " endl"; return mirror.str();
        case 7: if (s.flip()) { w.write(std::hex); mirror << std::hex; log += " hex"; } else { w.write('c'); mirror << 'c'; log += " char"; } return mirror.str();
        default: { const char *t = s.pick({"", "x", "hello <b>&\r\n", "0\r\n\r\n"}); w.write(t); mirror << t; log += " cstr"; return mirror.str(); }
    }
}
template <typename W> static std::string pieces(pbt::Src& s, W& w, Store& st, std::ostringstream& m, std::string& log) { std::string want; size_t n = s.weighted({2, 3, 3, 2, 1}); if (n == 4) n = 3 + s.choose(30); while (n--) want += write_piece(s, w, st, m, log); return want; }

template <typename W> static std::string drive(pbt::Src& s, Rig& r, boost::shared_ptr<W>& w, std::string have, Store& st, bool& chunked, std::string& log, size_t& sends) {
    std::ostringstream m; std::string want = have + pieces(s, *w, st, m, log); chunked = s.chance(1, 2);
    if (s.chance(1, 8)) { w->clear(); want = pieces(s, *w, st, m, log); std::string x = write_piece(s, *w, st, m, log); want += x; if (want.empty()) { w->write("z"); want = "z"; } log += " cleared"; }
    PBT_CHECK(w->get_content_length() <= want.size(), "content length so far");
    if (!chunked) { sends = 1; if (s.flip()) w->send(); else w->send([&](const boost::system::error_code& ec, std::size_t) { ++r.finished; r.fin_ec = ec; }); log += " send"; r.run(); return want; }
    size_t n = s.choose(5); sends = n + 1;
    for (size_t i = 0; i < n; ++i) { int called = 0; size_t bytes = 0; boost::system::error_code e; w->send_chunk([&](const boost::system::error_code& ec, std::size_t b) { ++called; bytes = b; e = ec; }); r.run(); PBT_EQ(called, 1, "calls of the chunk handler"); PBT_CHECK(!e, "chunk not sent: " << e.message()); log += " chunk"; w->clear(); st.d.clear(); want += pieces(s, *w, st, m, log); }
    log += " final"; if (s.flip()) w->send_final_chunk(); else w->send_final_chunk([&](const boost::system::error_code& ec, std::size_t) { ++r.finished; r.fin_ec = ec; }); r.run(); return want;
}

static void response(pbt::Src& s, pbt::Case& c) {
    bool keep = s.chance(2, 3), preset = s.chance(1, 4); http::request q; std::string method = s.pick({std::string("GET"), std::string("GET"), std::string("POST"), std::string("HEAD"), std::string("PUT")}); q.set_method(method); bool old = s.chance(1, 4); if (old) { q.set_version_major(1); q.set_version_minor(0); }
    std::string log = method + (old ? " 1.0" : " 1.1") + (keep ? " keep" : " close"); Store st; Rig r(keep); auto fin = [&](const boost::system::error_code& ec) { ++r.finished; r.fin_ec = ec; }; boost::shared_ptr<http::response_writer> w; std::string have;
    int status = s.chance(3, 4) ? 200 : s.pick({100, 199, 201, 204, 205, 206, 302, 304, 404, 500}); log += " " + std::to_string(status);
    if (preset) { http::response_ptr rp(new http::response(q)); have = payload(s); if (s.chance(1, 8)) have.clear(); rp->set_content_length(have.size()); rp->create_content_buffer(); memcpy(rp->get_content(), have.data(), have.size()); log += " preset:" + std::to_string(have.size()); w = http::response_writer::create(r.conn, rp, fin); } else w = http::response_writer::create(r.conn, q, fin);
    w->get_response().set_status_code(status); w->get_response().set_status_message("Fine"); std::vector<std::pair<std::string, std::string> > hs; size_t nh = s.choose(4); for (size_t i = 0; i < nh; ++i) { hs.push_back(std::make_pair("X-H" + std::to_string(i), "v" + s.of("abc =;,", s.choose(12)) + "v")); w->get_response().add_header(hs.back().first, hs.back().second); }
    bool over = s.chance(1, 10), sup = !old; if (over) { sup = s.flip(); w->supports_chunked_messages(sup); log += sup ? " chunks on" : " chunks off"; }
    bool chunked; size_t sends; std::string want = drive(s, r, w, have, st, chunked, log, sends); c.note(log + " = " + std::to_string(want.size()) + " bytes"); c.key(log); c.nontrivial(sends > 1 || want.size() > 0);
    PBT_EQ(r.finished, 1, "calls of the finish handler"); PBT_CHECK(!r.fin_ec, "write failed: " << r.fin_ec.message()); bool still = r.conn->get_keep_alive(); w.reset(); r.end();
    bool head = method == "HEAD", none = head || status == 204 || status == 304 || status / 100 == 1 || status == 205; c.label(none ? "no content allowed" : chunked ? (sup ? "chunks" : "chunks not supported") : "at once");
    // what follows the message on the same connection
    net::Response a = net::parse(r.cl.in, head, true); PBT_CHECK(!a.bad && a.complete, "the peer cannot read the response: " << a.why << " in " << pbt::show(r.cl.in, 500)); PBT_EQ(a.used, r.cl.in.size(), "bytes after the end of the message: " << pbt::show(r.cl.in, 500));
    PBT_EQ(a.status, status, "status"); PBT_EQ(a.reason, "Fine", "status message"); PBT_CHECK(a.body == (none ? std::string() : want), "content of " << a.body.size() << " bytes instead of " << want.size() << ": " << pbt::show(a.body) << " instead of " << pbt::show(want));
    for (auto& h : hs) PBT_EQ(a.header(h.first), h.second, "header " << h.first); PBT_EQ(a.count("Connection"), 1u, "Connection headers"); bool says_keep = net::Response::low(a.header("Connection")) == "keep-alive"; PBT_EQ(says_keep, still, "Connection header"); if (keep && !(chunked && !sup)) PBT_CHECK(still, "the connection is not kept alive");
    if (!none && a.to_eof) PBT_CHECK(!says_keep, "neither length nor chunks, but the connection stays open"); if (!none && !chunked) PBT_CHECK(a.has_length && a.length == want.size(), "Content-Length " << a.length); if (!sup) PBT_CHECK(!a.chunked, "chunked although the peer does not support it");
    if (!none && chunked && sup) PBT_CHECK(a.chunked, "not chunked");
}

static void request(pbt::Src& s, pbt::Case& c) {
    bool preset = s.chance(1, 4), keep = s.chance(2, 3); std::string log = preset ? "preset" : "request"; Store st; Rig r(keep); auto fin = [&](const boost::system::error_code& ec) { ++r.finished; r.fin_ec = ec; }; boost::shared_ptr<http::request_writer> w; std::string have;
    if (preset) { http::request_ptr rp(new http::request("/x")); have = payload(s); rp->set_content_length(have.size()); rp->create_content_buffer(); memcpy(rp->get_content(), have.data(), have.size()); log += ":" + std::to_string(have.size()); w = http::request_writer::create(r.conn, rp, fin); } else w = http::request_writer::create(r.conn, fin);
    std::string method = s.pick({std::string("POST"), std::string("PUT"), std::string("GET")}); w->get_request().set_method(method); w->get_request().set_resource("/res"); w->get_request().add_header("X-A", "b c");
    bool chunked; size_t sends; std::string want = drive(s, r, w, have, st, chunked, log, sends); c.note(log + " = " + std::to_string(want.size()) + " bytes"); c.key(log); c.nontrivial(sends > 1 || want.size() > 0); c.label(chunked ? "chunks" : "at once");
    PBT_EQ(r.finished, 1, "calls of the finish handler"); PBT_CHECK(!r.fin_ec, "write failed"); w.reset(); r.end();
    net::Response a = net::parse(r.cl.in, false, true, true); PBT_CHECK(!a.bad && a.complete, "the peer cannot read the request: " << a.why << " in " << pbt::show(r.cl.in, 500)); PBT_EQ(a.used, r.cl.in.size(), "bytes after the end of the message: " << pbt::show(r.cl.in, 500)); PBT_EQ(a.reason, method + " /res HTTP/1.1", "start line"); PBT_CHECK(a.body == want, "content " << pbt::show(a.body) << " instead of " << pbt::show(want)); PBT_EQ(a.header("X-A"), "b c", "header");
    // pion's own reader agrees
    http::request q; std::istringstream in(r.cl.in); boost::system::error_code ec; q.read(in, ec); PBT_CHECK(!ec, "pion refuses the request: " << ec.message()); PBT_CHECK(std::string(q.get_content(), q.get_content_length()) == want, "content read back by pion");
}

/// a message that was received is sent on (proxy): same content, same framing, nothing read outside the content
static void forward(pbt::Src& s, pbt::Case& c) {
    bool head = s.chance(1, 4); std::string body = payload(s); int status = s.chance(3, 4) ? 200 : s.pick({204, 304, 205, 404}); bool none = head || status == 204 || status == 304 || status == 205; size_t framing = s.choose(3); std::string t = "HTTP/1.1 " + std::to_string(status) + " OK\r\n";
    if (framing == 0) t += "Content-Length: " + std::to_string(status == 205 ? 0 : body.size()) + "\r\n\r\n" + (none ? std::string() : body); else if (framing == 1) { t += "Transfer-Encoding: chunked\r\n\r\n"; if (!none) { if (!body.empty()) { char b[32]; sprintf(b, "%zx\r\n", body.size()); t += b + body + "\r\n"; } t += "0\r\n\r\n"; } } else t += "\r\n" + (none ? std::string() : body);
    http::request q; if (head) q.set_method("HEAD"); bool callback = s.chance(1, 4), only = s.chance(1, 8); http::response m(q); std::string seen; boost::system::error_code ec; http::parser p(false); if (callback) { http::parser::payload_handler_t ph = [&](const char *d, std::size_t n) { seen.append(d, n); }; p.set_payload_handler(ph); } if (only) p.parse_headers_only(true); p.set_read_buffer(t.data(), t.size()); boost::tribool res = p.parse(m, ec); if (boost::indeterminate(res) && !only) p.check_premature_eof(m); PBT_CHECK(!ec, "refused");
    c.note(std::string(head ? "HEAD " : "") + std::to_string(status) + " framing " + std::to_string(framing) + " body " + std::to_string(body.size()) + (callback ? " callback" : "") + (only ? " headers only" : "")); c.key(c.m_note); c.nontrivial(!body.empty()); c.label(callback || only ? "content not kept" : none ? "no content allowed" : "content");
    for (int round = 0; round < 2; ++round) {
        std::ostringstream out; std::size_t n; if (s.flip()) { n = m.write(out, ec); seen = out.str(); } else { Rig r(true); n = m.send(*r.conn, ec); r.end(); seen = r.cl.in; } PBT_CHECK(!ec, "sending fails"); PBT_EQ(n, seen.size(), "bytes reported as sent");
        net::Response a = net::parse(seen, head, !callback && !only); if (callback || only) { PBT_EQ(a.status, status, "status"); continue; }
        PBT_CHECK(!a.bad && a.complete, "the peer cannot read the message: " << a.why << " in " << pbt::show(seen, 500)); PBT_EQ(a.used, seen.size(), "bytes after the end of the message: " << pbt::show(seen, 500)); PBT_CHECK(a.body == (none ? std::string() : body), "content " << pbt::show(a.body) << " instead of " << pbt::show(body)); PBT_CHECK(!a.to_eof || none, "neither length nor chunks");
    }
}

/// a writer that is cleared after every chunk does not keep the chunks
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static void memory(pbt::Src& s, pbt::Case& c) {
    bool req = s.flip(); Rig r(true); size_t n = 1000 + s.choose(3000), rounds = 8 + s.choose(20), kind = s.choose(3); std::string d = s.blob(n); http::request q; boost::shared_ptr<http::writer> w; if (req) w = http::request_writer::create(r.conn); else w = http::response_writer::create(r.conn, q); size_t before = 0; bool big = true;
    c.note(std::to_string(rounds) + " chunks of " + std::to_string(n)); c.key(std::to_string(n * 100 + rounds * 10 + kind)); c.nontrivial();
    for (size_t i = 0; i < rounds; ++i) { if (kind == 0) w->write(d); else w->write((const void*)d.data(), d.size()); w->send_chunk([](const boost::system::error_code&, std::size_t) {}); r.run(); r.cl.in.clear(); w->clear(); if (i == 3) before = __sanitizer_get_current_allocated_bytes(); }
    size_t after = __sanitizer_get_current_allocated_bytes(); (void)big; PBT_CHECK(after < before + n * (rounds - 4) / 2 + 500, "memory grew from " << before << " to " << after << " bytes although every chunk was cleared");
}

/// writing to a connection that is closed reports an error, once
static void closed(pbt::Src& s, pbt::Case& c) {
    Rig r(s.flip()); bool req = s.flip(), before = s.flip(); auto fin = [&](const boost::system::error_code& ec) { ++r.finished; r.fin_ec = ec; }; http::request q; boost::shared_ptr<http::writer> w; if (req) w = http::request_writer::create(r.conn, fin); else w = http::response_writer::create(r.conn, q, fin); std::string d = payload(s); size_t how = s.choose(2); c.note(std::string(req ? "request " : "response ") + (before ? "closed here " : "closed by the peer ") + std::to_string(d.size())); c.key(std::to_string(d.size() * 8 + req * 4 + before * 2 + how)); c.nontrivial();
    w->write(d); if (before) r.conn->close(); else r.cl.drop(), r.cl.eof = true; if (how) w->send(); else w->send_final_chunk(); for (int i = 0; i < 20000 && !r.finished; ++i) { r.io.reset(); r.io.poll(); if (r.finished) break; usleep(50); } r.io.reset(); r.io.poll(); PBT_EQ(r.finished, 1, "calls of the finish handler"); PBT_CHECK(r.fin_ec, "no error reported");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P21"; cfg.level = "exploration";
    cfg.rule = "message with content or several sends; distinct by sequence of writes and sizes";
    cfg.assumptions = {"data passed by reference stays alive until the send completes", "the caller clears the writer between chunks, as documented"};
    cfg.subs = {{"response", response, 12000, 500000, 20, 3, 3, 0}, {"request", request, 8000, 300000, 20, 3, 3, 0}, {"forward", forward, 10000, 400000, 20, 3, 3, 0}, {"memory", memory, 300, 5000, 20, 3, 3, 0}, {"closed", closed, 1500, 40000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
