// Messages built from valid parts, written by pion and read back by pion, over streams and connections.
#include "httpgen.hpp"
#include "net.hpp"
#include <pion/http/message.hpp>
using namespace pion;
typedef std::vector<std::pair<std::string, std::string> > Pairs;

struct Model {
    bool req; std::string method, resource, query; int vmaj, vmin; unsigned status; std::string reason; Pairs headers, cookies, queries; bool use_queries; std::string content; bool has_content, head;
};
static std::string cookie_name(pbt::Src& s) { std::string n = s.of("abcXYZ-_1", 1 + s.choose(8)); return n; }
static std::string cookie_value(pbt::Src& s) { return s.chance(1, 6) ? std::string() : s.of("abcXYZ019-_./:=", s.len(30)); }
static std::string hval(pbt::Src& s) { std::string v = hg::header_value(s); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); return v; }
static Model gen(pbt::Src& s, bool req) {
    Model m; m.req = req; m.head = false; m.use_queries = false; m.status = 200;
    hg::Msg g = hg::gen_msg(s, req, s.chance(1, 8) ? 40000 : 600, false, false);
    m.method = g.method; m.resource = g.resource; m.query = g.has_query ? g.query : ""; m.vmaj = g.vmaj; m.vmin = g.vmin; m.status = g.status; m.reason = g.reason;
    while (!m.reason.empty() && m.reason[0] == ' ') m.reason.erase(0, 1);
    for (auto& h : g.headers) if (!hg::reserved_header(h.first)) { std::string v = hval(s); m.headers.push_back(std::make_pair(h.first, v)); }
    m.content = g.body; m.has_content = !m.content.empty() || s.flip();
    if (req) {
        if (s.chance(1, 3)) { m.use_queries = true; size_t n = 1 + s.choose(4); for (size_t i = 0; i < n; ++i) m.queries.push_back(std::make_pair(s.of("abX=&%+ ?\xe9", 1 + s.len(6)), s.of("abX=&%+ ?/\xe9", 1 + s.len(12)))); }
        size_t n = s.chance(1, 3) ? 1 + s.choose(4) : 0; for (size_t i = 0; i < n; ++i) m.cookies.push_back(std::make_pair(cookie_name(s), cookie_value(s)));
    } else {
        if (m.status < 100 || m.status > 999) m.status = 200;
        m.head = s.chance(1, 8); bool implied = m.head || m.status / 100 == 1 || m.status == 204 || m.status == 205 || m.status == 304; if (implied && !m.head) { m.content.clear(); m.has_content = false; }
        size_t n = s.chance(1, 3) ? 1 + s.choose(3) : 0; for (size_t i = 0; i < n; ++i) m.cookies.push_back(std::make_pair(cookie_name(s), cookie_value(s)));
    }
    return m;
}
static void fill(http::message& g, const Model& m, bool fresh, pbt::Src& s) {
    if (!fresh) { // reuse: either start over or change what is there
        if (s.flip()) g.clear();
        else { for (auto& h : Pairs(m.headers)) (void)h; std::vector<std::string> hn, cn; for (auto& h : g.get_headers()) hn.push_back(h.first); for (auto& n : hn) g.delete_header(n); for (auto& h : g.get_cookies()) cn.push_back(h.first); for (auto& n : cn) g.http::message::delete_cookie(n); }
    }
    g.set_version_major(m.vmaj); g.set_version_minor(m.vmin);
    for (auto& h : m.headers) g.add_header(h.first, h.second);
    for (auto& h : m.cookies) g.add_cookie(h.first, h.second);
    g.set_content_length(m.content.size()); char *p = g.create_content_buffer(); if (!m.content.empty()) memcpy(p, m.content.data(), m.content.size());
    if (http::request *r = dynamic_cast<http::request*>(&g)) {
        r->set_method(m.method); r->set_resource(m.resource); r->set_query_string(m.query); { std::vector<std::string> q; for (auto& e : r->get_queries()) q.push_back(e.first); for (auto& k : q) r->delete_query(k); }
        if (m.use_queries) { for (auto& q : m.queries) r->add_query(q.first, q.second); r->use_query_params_for_query_string(); }
    } else { http::response *q = dynamic_cast<http::response*>(&g); http::request hr; hr.set_method(m.head ? "HEAD" : "GET"); q->update_request_info(hr); q->set_status_code(m.status); q->set_status_message(m.reason); }
}
static std::string lows(Pairs p, bool lower_names) { for (auto& e : p) if (lower_names) e.first = hg::lower(e.first); return hg::dump_pairs(p); }
static Pairs of(const ihash_multimap& m) { Pairs p; for (auto& e : m) p.push_back(e); return p; }
static Pairs own_headers(const ihash_multimap& m) { Pairs p; for (auto& e : m) { std::string l = hg::lower(e.first); if (l != "content-length" && l != "connection" && l != "cookie" && l != "set-cookie" && l != "transfer-encoding") p.push_back(e); } return p; }
static void same(http::message& g, const Model& m, const std::string& ctx) {
    if (http::request *r = dynamic_cast<http::request*>(&g)) {
        PBT_EQ(r->get_method(), m.method, ctx); PBT_EQ(r->get_resource(), m.resource, ctx); if (!m.use_queries) PBT_EQ(r->get_query_string(), m.query, ctx);
        else PBT_EQ(lows(of(r->get_queries()), false), lows(m.queries, false), "query parameters " << ctx);
    } else { http::response *q = dynamic_cast<http::response*>(&g); PBT_EQ(q->get_status_code(), m.status, ctx); PBT_EQ(q->get_status_message(), m.reason, ctx); }
    PBT_EQ((int)g.get_version_major(), m.vmaj, ctx); PBT_EQ((int)g.get_version_minor(), m.vmin, ctx);
    PBT_EQ(lows(own_headers(g.get_headers()), false), lows(m.headers, false), "headers " << ctx);
    PBT_EQ(lows(of(g.get_cookies()), true), lows(m.cookies, true), "cookies " << ctx);
    PBT_EQ(hg::content_of(g), m.head ? std::string() : m.content, "content " << ctx); PBT_CHECK(g.is_valid(), "not valid " << ctx);
}
static std::string brief(const Model& m) { std::ostringstream o; o << (m.req ? m.method + " " + pbt::show(m.resource, 30) + (m.use_queries ? "?params" : "?" + pbt::show(m.query, 20)) : std::to_string(m.status) + " " + m.reason) << (m.head ? " (HEAD)" : "") << " h" << m.headers.size() << " c" << m.cookies.size() << " b" << m.content.size(); return o.str(); }

static bool keeps(const Model& m) { return m.vmaj > 1 || (m.vmaj == 1 && m.vmin >= 1); }

/// a history of messages over one stream or connection; sender and receiver objects may be reused and may change roles
static void roundtrip(pbt::Src& s, pbt::Case& c) {
    bool over_conn = s.chance(1, 3); size_t n = 1 + s.choose(s.chance(1, 4) ? 10 : 3); std::string log; bool reuse = s.flip(), swap_roles = reuse && s.chance(1, 3), resend = false, any_head = false, cookies = false; size_t big = 0;
    std::vector<Model> ms; std::stringstream ss; boost::asio::io_service io; net::Pair pair; tcp::connection a(io), b(io); if (over_conn) { net::adopt(a, pair.fd[0]); net::adopt(b, pair.fd[1]); a.set_lifecycle(tcp::connection::LIFECYCLE_KEEPALIVE); }
    bool req = s.flip(); std::unique_ptr<http::message> out, in; Model cur; bool interleave = swap_roles || s.flip();
    std::vector<size_t> sizes; size_t done = 0;
    auto receive = [&] {
        Model& m = ms[done]; http::request hr; hr.set_method(m.head ? "HEAD" : "GET"); if (!reuse || !in) in.reset(req ? (http::message*)new http::request : (http::message*)new http::response(hr)); else if (!req) static_cast<http::response*>(in.get())->update_request_info(hr);
        boost::system::error_code ec; size_t got; bool pipelined = b.get_pipelined();
        if (over_conn) got = in->receive(b, ec); else { std::streampos p0 = ss.tellg(); got = in->read(ss, ec); PBT_EQ((size_t)(ss.tellg() - p0), sizes[done], "stream position after message " << done << log); }
        PBT_CHECK(!ec, "reading message " << done << " failed: " << ec.message() << log << (pipelined ? " (pipelined)" : ""));
        PBT_EQ(got, sizes[done], "bytes consumed by message " << done << log); same(*in, m, "of message " + std::to_string(done) + log + (over_conn ? " (connection)" : ""));
        if (over_conn) PBT_EQ(b.get_keep_alive(), in->check_keep_alive(), "lifecycle");
        ++done;
    };
    for (size_t i = 0; i < n; ++i) {
        bool again = i && reuse && !swap_roles && s.chance(1, 3) && (!over_conn || i + 1 == n || keeps(cur));
        if (!again) { cur = gen(s, req); if (over_conn && i + 1 < n && !keeps(cur)) { cur.vmaj = 1; cur.vmin = 1; } }
        else { resend = true; // send the same object again, perhaps with another cookie value
            if (!cur.cookies.empty() && s.flip()) { std::string k = cur.cookies[0].first, v = cookie_value(s); Pairs o; for (auto& e : cur.cookies) if (hg::lower(e.first) != hg::lower(k)) o.push_back(e); o.push_back(std::make_pair(k, v)); cur.cookies = o; out->change_cookie(k, v); } }
        bool fresh = !reuse || !out; if (fresh) out.reset(req ? (http::message*)new http::request : (http::message*)new http::response);
        if (!again) fill(*out, cur, fresh, s);
        ms.push_back(cur); log += " | " + brief(cur) + (again ? " (again)" : ""); any_head = any_head || cur.head; cookies = cookies || !cur.cookies.empty(); big = std::max(big, cur.content.size());
        boost::system::error_code ec; bool only = cur.head && s.flip(); size_t w = over_conn ? out->send(a, ec, only) : out->write(ss, ec, only); PBT_CHECK(!ec, "write failed: " << ec.message()); sizes.push_back(w);
        if (interleave) { receive(); if (swap_roles) std::swap(in, out); }
    }
    while (done < n) receive();
    if (over_conn) { PBT_CHECK(!b.get_pipelined(), "bytes left over after the last message" << log); a.close(); boost::system::error_code ec; std::unique_ptr<http::message> x(new http::request); x->receive(b, ec); PBT_CHECK(ec, "a further message was read after the end" << log); }
    c.note(std::string(over_conn ? "connection" : "stream") + (reuse ? " reuse" : "") + (swap_roles ? " swap" : "") + log); c.key(log); c.nontrivial(n > 1 || big > 0);
    c.label(over_conn ? "connection" : "stream"); if (reuse) c.label("reused"); if (swap_roles) c.label("roles swapped"); if (resend) c.label("sent again"); if (any_head) c.label("HEAD"); if (cookies) c.label("cookies"); if (big > 8192) c.label("content larger than the read buffer"); c.label(req ? "request" : "response");
}

/// a message that was received (in any framing) and is passed on arrives with the same content
static void forward(pbt::Src& s, pbt::Case& c) {
    bool req = s.flip(); hg::Msg g = hg::gen_msg(s, req, 3000, true, true); std::stringstream in(g.wire), mid; boost::system::error_code ec; http::request hr; hr.set_method(g.head_response ? "HEAD" : "GET");
    std::unique_ptr<http::message> m(req ? (http::message*)new http::request : (http::message*)new http::response(hr)), r(req ? (http::message*)new http::request : (http::message*)new http::response(hr));
    c.note(pbt::show(g.wire, 300)); c.key(g.wire); c.nontrivial(!g.body.empty()); static const char *F[] = {"no body", "length", "chunked", "to end"}; c.label(F[g.framing]);
    m->read(in, ec); PBT_CHECK(!ec, "reading the generated message: " << ec.message()); PBT_EQ(hg::content_of(*m), g.body, "content");
    size_t w = m->write(mid, ec, g.head_response && s.flip()); PBT_CHECK(!ec, "writing"); std::string wire = mid.str(); PBT_EQ(w, wire.size(), "bytes written");
    std::string next = "NEXT"; mid << next; size_t got = r->read(mid, ec); PBT_CHECK(!ec, "reading the message passed on: " << ec.message() << " from " << pbt::show(wire)); PBT_EQ(got, w, "bytes consumed of " << pbt::show(wire));
    PBT_EQ(hg::content_of(*r), g.body, "content of " << pbt::show(wire)); PBT_EQ(lows(own_headers(r->get_headers()), false), lows(own_headers(m->get_headers()), false), "headers of " << pbt::show(wire)); PBT_CHECK(r->is_valid(), "valid");
    if (req) { http::request *x = static_cast<http::request*>(m.get()), *y = static_cast<http::request*>(r.get()); PBT_EQ(y->get_method(), x->get_method(), ""); PBT_EQ(y->get_resource(), x->get_resource(), ""); PBT_EQ(y->get_query_string(), x->get_query_string(), ""); }
    else { PBT_EQ(static_cast<http::response*>(r.get())->get_status_code(), g.status, ""); }
    net::Response d = net::parse(wire, g.head_response, true, req); PBT_CHECK(!d.bad && d.complete, "independent decoder: " << d.why << " in " << pbt::show(wire)); PBT_EQ(d.body, g.body, "independent decoder"); PBT_EQ(d.used, wire.size(), "independent decoder");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P03"; cfg.level = "exploration";
    cfg.rule = "several messages or a message with content; distinct by message summary / wire text";
    cfg.assumptions = {"valid parts: header values without leading blanks and control characters, reason phrase without leading blank, cookie values without quotes, separators or spaces", "connection tests use a connected pair of sockets"};
    cfg.subs = {{"roundtrip", roundtrip, 30000, 800000, 8, 3, 3, 0}, {"forward", forward, 20000, 500000, 8, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
