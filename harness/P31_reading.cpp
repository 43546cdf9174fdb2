// A well-formed message is received with every part as it was sent: start line, each header, content; whether it is
// parsed in memory, received from a connection, or read by the asynchronous readers, alone or in a pipeline.
// BUILD: hot
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "httpgen.hpp"
#include "net.hpp"
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
using namespace pion;
typedef http::parser P;

/// a header that decides about the connection, put in after the others
static bool add_connection_header(pbt::Src& s, hg::Msg& m) {
    bool keep = m.vmaj > 1 || (m.vmaj == 1 && m.vmin >= 1); if (!s.chance(1, 5)) return keep;
    static const char *V[] = {"close", "keep-alive", "Close", "CLOSE", "Upgrade", "closed"}; std::string v = s.pick(V), n = s.pick({std::string("Connection"), std::string("connection"), std::string("CONNECTION")}), line = n + ": " + v + m.eol;
    m.headers.push_back(std::make_pair(n, v)); m.wire.insert(m.header_end - m.eol.size(), line); m.header_end += line.size(); return keep && hg::lower(v) != "close";
}

static void parts(pbt::Src& s, pbt::Case& c) {
    bool is_request = s.flip(), raw = s.flip(); hg::Msg m = hg::gen_msg(s, is_request, 60, false); bool keep = add_connection_header(s, m); c.note(pbt::show(m.wire, 700)); c.key(m.wire); c.nontrivial(m.headers.size() > 0); if (m.eol != "\r\n") c.label("lenient line ends");
    P p(is_request); p.set_save_raw_headers(raw); std::unique_ptr<http::message> g(is_request ? (http::message*)new http::request : (http::message*)new http::response(m.head_response ? "HEAD" : "GET"));
    std::string t = m.wire; std::vector<size_t> cut = hg::cuts(s, t.size()); size_t pos = 0; boost::tribool r = boost::indeterminate;
    for (size_t e : cut) { std::unique_ptr<char[]> frag(new char[e - pos]); memcpy(frag.get(), t.data() + pos, e - pos); p.set_read_buffer(frag.get(), e - pos); boost::system::error_code ec; r = p.parse(*g, ec); PBT_CHECK(r != false, "refused: " << ec.message()); pos = e; if (r == true) break; }
    PBT_CHECK(r == true, "message is never finished"); PBT_EQ(pos - p.bytes_available(), t.size(), "end of the message"); PBT_EQ(p.get_total_bytes_read(), t.size(), "bytes read");
    hg::check_message(m, *g, 1024 * 1024, false, "", false); PBT_EQ(g->check_keep_alive(), keep, "keep alive"); if (raw) PBT_EQ(p.get_raw_headers().substr(0, m.footers.empty() ? std::string::npos : m.header_end), m.wire.substr(0, m.header_end), "raw headers");
    // every value of a repeated header, in order
    std::map<std::string, std::vector<std::string> > by; for (auto& h : m.headers) by[hg::lower(h.first)].push_back(h.second); for (auto& f : m.footers) by[hg::lower(f.first)].push_back(f.second);
    for (auto& h : by) { auto range = g->get_headers().equal_range(h.first); std::vector<std::string> got; for (auto i = range.first; i != range.second; ++i) got.push_back(i->second); std::sort(got.begin(), got.end()); std::vector<std::string> want = h.second; std::sort(want.begin(), want.end()); PBT_CHECK(got == want, "values of header " << h.first); if (want.size() == 1) PBT_EQ(g->get_header(h.first), want[0], "value of header " << h.first); }
}

// blocking reads of one connection return at most as much as the generated piece
static int g_fd = -1; static std::vector<size_t> g_reads; static size_t g_read, g_left;
extern "C" ssize_t recvmsg(int fd, msghdr *h, int flags) {
    if (fd != g_fd || g_read >= g_reads.size() || h->msg_iovlen < 1 || h->msg_iov[0].iov_len == 0) return syscall(SYS_recvmsg, fd, h, flags);
    if (g_left == 0) g_left = g_reads[g_read]; iovec v = h->msg_iov[0]; v.iov_len = std::min(v.iov_len, g_left); msghdr k = *h; k.msg_iov = &v; k.msg_iovlen = 1; ssize_t n = syscall(SYS_recvmsg, fd, &k, flags);
    if (n > 0) { g_left -= std::min(g_left, (size_t)n); if (g_left == 0) ++g_read; } h->msg_flags = k.msg_flags; return n;
}
extern "C" ssize_t recv(int fd, void *b, size_t n, int flags) { iovec v = {b, n}; msghdr h; memset(&h, 0, sizeof h); h.msg_iov = &v; h.msg_iovlen = 1; return recvmsg(fd, &h, flags); }
struct Got { bool done; boost::system::error_code ec; std::unique_ptr<http::message> own; http::message *m; http::request_ptr q; http::response_ptr r; Got() : done(false), m(NULL) {} void request(http::request_ptr x, tcp::connection_ptr, const boost::system::error_code& e) { PBT_CHECK(!done, "finished twice"); done = true; q = x; m = x.get(); ec = e; } void response(http::response_ptr x, tcp::connection_ptr, const boost::system::error_code& e) { PBT_CHECK(!done, "finished twice"); done = true; r = x; m = x.get(); ec = e; } };

static void connection(pbt::Src& s, pbt::Case& c) {
    bool is_request = s.flip(), sync = s.chance(1, 3); size_t k = 1 + s.choose(5); std::vector<hg::Msg> ms; std::vector<bool> keep; std::string t; bool big = s.chance(1, 4);
    for (size_t i = 0; i < k; ++i) { ms.push_back(hg::gen_msg(s, is_request, big ? 20000 : 300, true)); hg::Msg& m = ms.back(); keep.push_back(add_connection_header(s, m) && m.framing != hg::Msg::TO_EOF); t += m.wire; if (!keep.back()) { if (m.framing == hg::Msg::TO_EOF) { k = i + 1; break; } } }
    k = ms.size(); bool truncated = s.chance(1, 6); size_t lost = 0; if (truncated) { lost = 1 + s.choose(ms.back().wire.size()); t.resize(t.size() - lost); }
    std::string note = std::string(sync ? "receive " : "reader ") + (is_request ? "requests" : "responses") + (truncated ? " truncated" : "") + " " + std::to_string(k) + " " + pbt::show(t, 500); c.note(note); c.key(note); c.nontrivial(k > 1 || !sync); c.label(sync ? "receive" : "reader"); if (truncated) c.label("truncated");
    boost::asio::io_service io; net::Pair pair; tcp::connection_ptr conn(new tcp::connection(io)); net::adopt(*conn, pair.fd[0]); net::Client peer(pair.fd[1]); pair.fd[1] = -1; std::vector<size_t> cut = sync ? std::vector<size_t>(1, t.size()) : hg::cuts(s, t.size()); size_t next = 0, pos = 0; bool closed = false;
    auto feed = [&] { if (next < cut.size()) { size_t e = cut[next++]; if (e > pos) peer.send(t.substr(pos, e - pos)); pos = e; } else if (!closed) { peer.half_close(); closed = true; } else return false; return true; };
    if (sync) while (feed()) {}
    struct Slow { ~Slow() { g_fd = -1; } } slow; g_reads.clear(); g_read = g_left = 0; if (sync) { size_t p = 0; for (size_t e : hg::cuts(s, t.size())) { if (e > p) g_reads.push_back(e - p); p = e; } g_fd = conn->get_socket().native_handle(); }
    for (size_t i = 0; i < k; ++i) {
        const hg::Msg& m = ms[i]; bool cut_off = truncated && i + 1 == k; Got got; std::string n = " (message " + std::to_string(i) + ")"; http::request q("/"); if (m.head_response) q.set_method("HEAD");
        if (sync) { got.own.reset(is_request ? (http::message*)new http::request : (http::message*)new http::response(m.head_response ? "HEAD" : "GET")); got.m = got.own.get(); size_t used = got.m->receive(*conn, got.ec); got.done = true; if (!cut_off) PBT_EQ(used, m.wire.size(), "bytes received" << n); }
        else {
            if (is_request) http::request_reader::create(conn, boost::bind(&Got::request, &got, _1, _2, _3))->receive(); else http::response_reader::create(conn, q, boost::bind(&Got::response, &got, _1, _2, _3))->receive();
            for (int idle = 0; !got.done && idle < 1000;) { io.reset(); if (io.poll()) { idle = 0; continue; } if (got.done) break; if (!feed()) { ++idle; usleep(1000); } } PBT_CHECK(got.done, "the reader never finishes" << n);
        }
        if (cut_off) {
            if (m.framing == hg::Msg::TO_EOF && lost <= m.body.size()) { hg::Msg part = m; part.body.resize(part.body.size() - lost); PBT_CHECK(!got.ec, "error " << got.ec.message() << n); hg::check_message(part, *got.m, 1024 * 1024, false, "", false); }
            else PBT_CHECK(got.ec, "an incomplete message is received without error" << n);
            return;
        }
        PBT_CHECK(!got.ec, "error " << got.ec.message() << n); hg::check_message(m, *got.m, 1024 * 1024, false, "", false); PBT_EQ(conn->get_keep_alive(), (bool)keep[i], "keep alive" << n); if (!keep[i]) return;
    }
    // nothing but the end is left
    Got got; if (sync) { std::unique_ptr<http::message> x(new http::request); x->receive(*conn, got.ec); PBT_CHECK(got.ec, "a message after the last one"); return; }
    http::request_reader::create(conn, boost::bind(&Got::request, &got, _1, _2, _3))->receive(); for (int idle = 0; !got.done && idle < 1000;) { io.reset(); if (io.poll()) { idle = 0; continue; } if (got.done) break; if (!feed()) { ++idle; usleep(1000); } } PBT_CHECK(got.done && got.ec, "a message after the last one");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P31"; cfg.level = "exploration"; cfg.rule = "parts: a message with headers; connection: several messages or asynchronous reading; distinct by the text and the reader";
    cfg.assumptions = {"one blank after the colon of a header is not part of its value, further ones are", "order of different headers is not kept (a multimap)", "data that follows a message which ends the connection is not judged"};
    cfg.subs = {{"parts", parts, 150000, 4000000, 10, 3, 2, 0}, {"connection", connection, 60000, 1500000, 30, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
