// Read timeouts: many peers at once that send at their own pace, stall, or vanish.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
#include <boost/thread.hpp>
#include <chrono>
#include <memory>
using namespace pion;
typedef std::chrono::steady_clock Clock;
static double now() { static const Clock::time_point t0 = Clock::now(); return std::chrono::duration<double>(Clock::now() - t0).count(); }

struct Event { char kind; std::string what; double at; };      // m message, e error, v invalid, r raw byte, x raw failure
struct Peer {
    // plan
    bool response; unsigned timeout; std::vector<std::pair<double, std::string> > sends; size_t messages; char end; double tail; std::string desc;
    // state
    net::Pair pair; net::Client client; tcp::connection_ptr conn; boost::mutex mx; std::vector<Event> events; size_t next; double due, last; bool late;
    http::request_ptr req;
    Peer() : messages(0), next(0), due(0), last(0), late(false) {}
    void add(char k, const std::string& w) { boost::mutex::scoped_lock l(mx); Event e = {k, w, now()}; events.push_back(e); }
    size_t count() { boost::mutex::scoped_lock l(mx); return events.size(); }
    void read() {
        if (response) { http::response_reader_ptr r(http::response_reader::create(conn, *req, boost::bind(&Peer::got_response, this, _1, _2, _3))); r->set_timeout(timeout); r->receive(); }
        else { http::request_reader_ptr r(http::request_reader::create(conn, boost::bind(&Peer::got_request, this, _1, _2, _3))); r->set_timeout(timeout); r->receive(); }
    }
    void got_request(http::request_ptr m, tcp::connection_ptr, const boost::system::error_code& ec) { got(m->is_valid(), m->get_resource() + "=" + std::string(m->get_content() ? m->get_content() : "", m->get_content_length()), ec); }
    void got_response(http::response_ptr m, tcp::connection_ptr, const boost::system::error_code& ec) { got(m->is_valid(), m->get_status_message() + "=" + std::string(m->get_content() ? m->get_content() : "", m->get_content_length()), ec); }
    void got(bool valid, const std::string& what, const boost::system::error_code& ec) {
        if (ec) { add('e', ec == boost::asio::error::operation_aborted ? "timeout" : ec == boost::asio::error::eof ? "eof" : ec.message()); return; }
        if (!valid) { add('v', what); return; }
        add('m', what); if (count() < messages) read(); else if (end == 'r') conn->async_read_some(boost::bind(&Peer::raw, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)); else if (end != 'f') read();
    }
    void raw(const boost::system::error_code& ec, size_t n) { if (ec) add('x', ec.message()); else add('r', std::string(conn->get_read_buffer().data(), n)); }
};

static void peers(pbt::Src& s, pbt::Case& c) {
    boost::asio::io_service io; std::unique_ptr<boost::asio::io_service::work> work(new boost::asio::io_service::work(io)); size_t n = 1 + s.choose(60); std::vector<std::unique_ptr<Peer> > v; std::string all;
    for (size_t i = 0; i < n; ++i) {
        std::unique_ptr<Peer> p(new Peer); p->response = s.chance(1, 3); p->timeout = s.weighted({10, 2, 2}); p->timeout = p->timeout == 0 ? 1 : p->timeout == 1 ? 2 : 0; p->req.reset(new http::request("/")); p->messages = s.choose(3);
        // end: s stall inside a message, i idle between messages, r raw byte later, c peer closes, f finished
        p->end = "sirfc"[s.weighted({4, 3, 3, 1, 1})]; if ((p->end == 'r' || p->end == 'f') && !p->messages) p->messages = 1;
        std::string text; for (size_t k = 0; k < p->messages + (p->end == 's'); ++k) { std::string body = s.of("abc\r\n", s.choose(2) ? s.choose(30) : 0); bool chunked = s.chance(1, 3); std::string m = p->response ? "HTTP/1.1 200 r" + std::to_string(k) + "\r\n" : "GET /r" + std::to_string(k) + " HTTP/1.1\r\n"; if (chunked) { m += "Transfer-Encoding: chunked\r\n\r\n"; char b[20]; if (!body.empty()) { snprintf(b, sizeof b, "%x\r\n", (unsigned)body.size()); m += b + body + "\r\n"; } m += "0\r\n\r\n"; } else m += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; if (k == p->messages) m = m.substr(0, 1 + s.choose(m.size() - 1)); text += m; }
        if (p->response && p->end == 's') { /* a response cut inside its headers or content is incomplete as well */ }
        std::string d = std::string(p->response ? "response" : "request") + " t=" + std::to_string(p->timeout) + " ends " + p->end + ":"; size_t pieces = text.empty() ? 0 : 1 + s.choose(5), pos = 0; double total = 0;
        for (size_t k = 0; k < pieces && pos < text.size(); ++k) { size_t len = k + 1 == pieces ? text.size() - pos : 1 + s.choose(text.size() - pos); double gap = s.pick({0, 0, 20, 200, 400, 650}) / 1000.0; if (p->timeout == 2 && s.flip()) gap *= 2; if (total + gap > 2.2) gap = 0; total += gap; p->sends.push_back(std::make_pair(gap, text.substr(pos, len))); pos += len; char b[40]; snprintf(b, sizeof b, " +%.2f", gap); d += b + pbt::show(p->sends.back().second, 30); }
        p->tail = p->end == 'r' ? (p->timeout == 2 ? 2.25 : 1.25) : 0; p->desc = d; all += (i ? "; " : "") + d; v.push_back(std::move(p));
    }
    c.note(all); c.key(all); c.nontrivial(); size_t threads = 1 + s.choose(3); boost::thread_group tg; for (size_t i = 0; i < threads; ++i) tg.create_thread([&] { io.run(); });
    struct Stop { boost::asio::io_service& io; std::unique_ptr<boost::asio::io_service::work>& w; boost::thread_group& g; std::vector<std::unique_ptr<Peer> >& v; bool done; void go() { if (done) return; done = true; for (auto& p : v) p->client.drop(); w.reset(); g.join_all(); } ~Stop() { go(); } } stop = {io, work, tg, v, false};
    for (auto& p : v) { p->conn = tcp::connection_ptr(new tcp::connection(io)); net::adopt(*p->conn, p->pair.fd[0]); p->client.fd = p->pair.fd[1]; p->pair.fd[1] = -1; p->last = now(); p->due = p->last + (p->sends.empty() ? p->tail : p->sends[0].first); p->read(); }
    double end_at = now() + 60; size_t open = v.size(); std::vector<char> over(v.size(), 0); double watch = 0.4;
    while (open && now() < end_at) {
        double t = now(); open = 0; double soonest = t + 0.01;
        for (size_t i = 0; i < v.size(); ++i) { Peer& p = *v[i]; if (over[i]) continue; ++open;
            if (p.next < p.sends.size()) { if (t >= p.due) { t = now(); if (p.timeout && t - p.last > p.timeout * 0.85) p.late = true; p.client.send(p.sends[p.next].second); p.last = now(); ++p.next; p.due = p.last + (p.next < p.sends.size() ? p.sends[p.next].first : p.tail); } if (p.due < soonest) soonest = p.due; continue; }
            if (p.end == 'r') { if (t >= p.due && p.next == p.sends.size()) { p.client.send("!"); ++p.next; } if (p.count() > p.messages) over[i] = 1; else if (t > p.due + 10) over[i] = 1; }
            else if (p.end == 'c') { if (p.client.fd >= 0 && !p.client.eof) { p.client.half_close(); p.client.eof = true; } if (p.count() > p.messages || t > p.due + 10) over[i] = 1; }
            else if (p.end == 'f') { if (p.count() >= p.messages && t > p.due + watch) over[i] = 1; else if (t > p.due + 10) over[i] = 1; }
            else if (p.timeout == 0) { if (t > p.last + 1.6) over[i] = 1; }
            else if (p.count() > p.messages || t > p.last + p.timeout + 8) over[i] = 1;
        }
        t = now(); if (soonest > t) usleep((useconds_t)((soonest - t) * 1e6) + 1);
    }
    std::vector<size_t> seen; for (auto& p : v) seen.push_back(p->count()); stop.go();
    for (size_t i = 0; i < v.size(); ++i) { Peer& p = *v[i]; if (p.late) { c.label("peer delayed by the machine"); continue; } std::string log; for (size_t k = 0; k < seen[i]; ++k) { char b[40]; snprintf(b, sizeof b, "@%.2f", p.events[k].at - p.last); log += std::string(" ") + p.events[k].kind + ":" + pbt::show(p.events[k].what, 40) + b; }
        PBT_CHECK(seen[i] >= p.messages, "only " << seen[i] << " of " << p.messages << " messages are delivered:" << log << " for " << p.desc); for (size_t k = 0; k < p.messages; ++k) { PBT_EQ(p.events[k].kind, 'm', "message " << k << " of a peer that was never silent for as long as the timeout:" << log << " for " << p.desc); PBT_EQ(p.events[k].what.substr(0, p.events[k].what.find('=')), std::string(p.response ? "r" : "/r") + std::to_string(k), "message"); }
        size_t extra = seen[i] - p.messages; c.label(std::string("ends ") + p.end + (p.timeout ? "" : " without timeout"));
        if (p.end == 'r') { PBT_EQ(extra, (size_t)1, "events after the last message:" << log << " for " << p.desc); PBT_EQ(p.events[p.messages].kind, 'r', "a timeout of a message that is complete ends a later operation:" << log << " for " << p.desc); }
        else if (p.end == 'f') PBT_EQ(extra, (size_t)0, "events after the last message:" << log << " for " << p.desc);
        else if (p.end == 'c') { PBT_EQ(extra, (size_t)1, "events after the end of the stream:" << log << " for " << p.desc); PBT_CHECK(p.events[p.messages].what != "timeout", "end of the stream is reported as a timeout:" << log << " for " << p.desc); }
        else if (p.timeout == 0) PBT_EQ(extra, (size_t)0, "a peer is given up although there is no timeout:" << log << " for " << p.desc);
        else { PBT_CHECK(extra >= 1, "a silent peer is not given up after " << p.timeout << " s:" << log << " for " << p.desc); PBT_EQ(extra, (size_t)1, "events after the timeout:" << log << " for " << p.desc); const Event& e = p.events[p.messages]; PBT_CHECK(e.kind == 'e' || (e.kind == 'm' && false), "the timeout is not reported:" << log << " for " << p.desc); PBT_EQ(e.what, "timeout", "error:" << log << " for " << p.desc); PBT_CHECK(e.at - p.last > p.timeout - 0.05, "a peer is given up early:" << log << " for " << p.desc); PBT_CHECK(e.at - p.last < p.timeout + 5, "a peer is given up late:" << log << " for " << p.desc); }
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P29"; cfg.level = "exploration"; cfg.rule = "up to 60 peers were served at once, each with its own sequence of pieces and pauses; distinct by plan";
    cfg.assumptions = {"peers whose pauses the machine stretched to 85% of the timeout are not judged", "a peer must be given up within 5 s after the timeout"};
    cfg.subs = {{"peers", peers, 96, 2400, 80, 4, 2, 24}};
    return pbt::main(argc, argv, cfg);
}
