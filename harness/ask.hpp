// Puts single requests to a pion HTTP server object, without a listening socket: the request is parsed by pion from
// its text and handed to the server together with one end of a socket pair; the other end collects the answer.
#ifndef VERIF_ASK_HPP
#define VERIF_ASK_HPP
#include "net.hpp"
#include <pion/http/server.hpp>
#include <pion/http/request.hpp>
#include <pion/http/parser.hpp>
#include <sstream>
namespace net {
struct Answer { Response r; std::string raw; bool complete() const { return r.complete && !r.bad; } };
template <typename Server> struct Asker : Server {
    boost::asio::io_service io;
    Asker() : Server(0) {}
    /// hands the request over; the answer is empty if the server has not sent anything
    Answer ask_request(const pion::http::request_ptr& q) {
        Pair p; Client cl(p.fd[1]); p.fd[1] = -1; pion::tcp::connection_ptr conn(new pion::tcp::connection(io)); adopt(*conn, p.fd[0]); conn->set_lifecycle(pion::tcp::connection::LIFECYCLE_KEEPALIVE);
        this->handle_request(q, conn, boost::system::error_code()); bool head = q->get_method() == pion::http::types::REQUEST_METHOD_HEAD; Answer a; drain(cl, conn); a.raw = cl.in; if (!a.raw.empty()) a.r = parse(a.raw, head, true); return a;
    }
    void drain(Client& cl, pion::tcp::connection_ptr& conn) { for (;;) { io.reset(); size_t n = io.poll(); cl.read_some(0); if (n == 0 && io.stopped()) break; if (n == 0) usleep(100); } conn->close(); conn.reset(); while (!cl.eof) cl.read_some(10); }
    Answer ask(const std::string& text) { pion::http::request_ptr q = read(text); return ask_request(q); }
    static pion::http::request_ptr read(const std::string& text) { pion::http::request_ptr q(new pion::http::request); std::istringstream in(text); boost::system::error_code ec; q->read(in, ec); PBT_CHECK(!ec, "pion refuses the request " << pbt::show(text) << ": " << ec.message()); return q; }
};
}
#endif
