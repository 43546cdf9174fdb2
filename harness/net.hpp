// Sockets for the harnesses: connected pairs (AF_UNIX, so that no ports are used up) wrapped as pion connections,
// and a plain blocking client.  Waits count steps, so that a suspended case does not run into a timeout.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/tcp/connection.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
namespace net {
struct Pair { int fd[2]; Pair() { if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) { fd[0] = fd[1] = -1; throw pbt::Discard(); } int n = 1 << 20; for (int f : fd) { setsockopt(f, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); setsockopt(f, SOL_SOCKET, SO_RCVBUF, &n, sizeof n); } } ~Pair() { for (int f : fd) if (f >= 0) close(f); } };
inline void adopt(pion::tcp::connection& c, int& fd) { c.get_socket().assign(boost::asio::ip::tcp::v4(), fd); fd = -1; }

/// plain client end; all reads have a limit
struct Client {
    int fd; std::string in; bool eof;
    explicit Client(int f = -1) : fd(f), eof(false) {}
    ~Client() { drop(); }
    void drop() { if (fd >= 0) { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); fd = -1; } }
    bool connect(unsigned port, uint32_t addr = INADDR_LOOPBACK) {
        drop(); in.clear(); eof = false; fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((unsigned short)port); a.sin_addr.s_addr = htonl(addr); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        for (int i = 0; i < 50; ++i) { if (::connect(fd, (sockaddr*)&a, sizeof a) == 0) return true; if (errno != EINTR && errno != EAGAIN && errno != EADDRNOTAVAIL) break; usleep(10000); } ::close(fd); fd = -1; return false;
    }
    /// false if the peer has gone
    bool send(const std::string& s) { size_t p = 0; int idle = 0; while (p < s.size()) { ssize_t n = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL | MSG_DONTWAIT); if (n > 0) { p += n; idle = 0; continue; } if (n < 0 && (errno == EAGAIN || errno == EINTR)) { read_some(10); if (++idle > 2000) return false; continue; } return false; } return true; }
    void half_close() { ::shutdown(fd, SHUT_WR); }
    /// reads what is there, waiting up to ms; false at end of stream
    bool read_some(int ms) { if (eof) return false; pollfd p = {fd, POLLIN, 0}; int r = poll(&p, 1, ms); if (r <= 0) return true; char b[65536]; ssize_t n = recv(fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) { in.append(b, n); return true; } if (n < 0 && (errno == EAGAIN || errno == EINTR)) return true; eof = true; return false; }
    template <typename F> bool wait(F f, double secs = 20) { for (double i = 0; !f(); ++i) { if (eof || i * 0.01 > secs) return f(); read_some(10); } return true; }
    bool wait_eof(double secs = 20) { for (double i = 0; !eof; ++i) { if (i * 0.01 > secs) return false; read_some(10); } return true; }
};

/// independent decoder of one HTTP response at the start of a text
struct Response {
    /// the text that goes with the status, if this one has another
    std::string odd_reason() const {
        static const std::pair<int, const char*> T[] = {{200, "OK"}, {201, "Created"}, {202, "Accepted"}, {204, "No Content"}, {302, "Found"}, {304, "Not Modified"}, {400, "Bad Request"}, {401, "Unauthorized"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {500, "Server Error"}, {501, "Not Implemented"}};
        for (auto& e : T) if (status == e.first && reason != e.second && reason != std::string("Internal ") + e.second) return e.second; return "";
    }
    bool complete = false, bad = false; std::string why; int status = 0, vmaj = 0, vmin = 0; std::string reason, body; std::vector<std::pair<std::string, std::string> > headers; size_t used = 0; bool chunked = false, to_eof = false, has_length = false; size_t length = 0, n_chunks = 0;
    static std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
    std::string header(const std::string& n) const { for (auto& h : headers) if (low(h.first) == low(n)) return h.second; return ""; }
    size_t count(const std::string& n) const { size_t k = 0; for (auto& h : headers) if (low(h.first) == low(n)) ++k; return k; }
    void fail(const std::string& s) { bad = true; why = s; }
};
inline bool parse_headers(const std::string& t, size_t& p, Response& r) {
    for (;;) { size_t e = t.find("\r\n", p); if (e == std::string::npos) return false; if (e == p) { p += 2; return true; } std::string l = t.substr(p, e - p); p = e + 2; size_t c = l.find(':'); if (c == std::string::npos || c == 0) { r.fail("malformed header line " + pbt::show(l)); return false; } std::string v = l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (l.find('\r') != std::string::npos || l.find('\n') != std::string::npos) { r.fail("bare line break in header"); return false; } r.headers.push_back(std::make_pair(l.substr(0, c), v)); }
}
/// request: method line is not interpreted; a request without length has no body
inline Response parse(const std::string& t, bool head, bool at_eof, bool request = false) {
    Response r; size_t e = t.find("\r\n"); if (e == std::string::npos) { if (at_eof && !t.empty()) r.fail("no start line"); return r; }
    std::string l = t.substr(0, e); size_t p = e + 2;
    if (!request) { int n = 0; if (sscanf(l.c_str(), "HTTP/%d.%d %d%n", &r.vmaj, &r.vmin, &r.status, &n) < 3) { r.fail("malformed status line " + pbt::show(l)); return r; } r.reason = (size_t)n + 1 <= l.size() ? l.substr(n + 1) : ""; } else r.reason = l;
    if (!parse_headers(t, p, r)) { if (at_eof && !r.bad) r.fail("stream ends inside the headers"); return r; }
    bool te = false; for (auto& h : r.headers) { if (Response::low(h.first) == "transfer-encoding" && Response::low(h.second).find("chunked") != std::string::npos) te = true; if (Response::low(h.first) == "content-length") { if (h.second.empty() || h.second.find_first_not_of("0123456789") != std::string::npos || (r.has_length && strtoull(h.second.c_str(), NULL, 10) != r.length)) { r.fail("bad Content-Length " + pbt::show(h.second)); return r; } r.has_length = true; r.length = strtoull(h.second.c_str(), NULL, 10); } }
    if (te && r.has_length) { r.fail("both Content-Length and chunked transfer encoding"); return r; }
    r.chunked = te;
    bool none = !request && (head || (r.status >= 100 && r.status < 200) || r.status == 204 || r.status == 304);
    if (none) { r.complete = true; r.used = p; return r; }
    if (te) {
        for (;;) {
            size_t q = t.find("\r\n", p); if (q == std::string::npos) { if (at_eof) r.fail("stream ends inside a chunk header"); return r; }
            std::string cl = t.substr(p, q - p); size_t sc = cl.find(';'); if (sc != std::string::npos) cl.resize(sc); if (cl.empty() || cl.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) { r.fail("malformed chunk size " + pbt::show(cl)); return r; }
            size_t n = strtoull(cl.c_str(), NULL, 16); p = q + 2;
            if (n == 0) { Response tr; if (!parse_headers(t, p, tr)) { if (tr.bad) r.fail(tr.why); else if (at_eof) r.fail("stream ends inside the trailer"); return r; } for (auto& h : tr.headers) r.headers.push_back(h); r.complete = true; r.used = p; return r; }
            if (t.size() < p + n + 2) { if (at_eof) r.fail("stream ends inside a chunk"); return r; }
            r.body += t.substr(p, n); ++r.n_chunks; if (t.compare(p + n, 2, "\r\n") != 0) { r.fail("chunk of " + std::to_string(n) + " bytes is not followed by CRLF"); return r; } p += n + 2;
        }
    }
    if (r.has_length || request || r.status == 205) { if (t.size() - p < r.length) { if (at_eof) r.fail("stream ends after " + std::to_string(t.size() - p) + " of " + std::to_string(r.length) + " bytes"); return r; } r.body = t.substr(p, r.length); r.used = p + r.length; r.complete = true; return r; }
    r.to_eof = true; if (at_eof) { r.body = t.substr(p); r.used = t.size(); r.complete = true; } return r;
}
}
#endif
