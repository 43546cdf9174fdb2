// Body framing: each message of a pipelined stream is delivered exactly, nothing more and nothing less,
// under content caps, payload handlers, footers and headers-only parsing.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;
typedef http::parser P;

using hg::check_message;

static void pipeline(pbt::Src& s, pbt::Case& c) {
    bool is_request = s.flip(); size_t k = 1 + s.choose(4);
    std::vector<hg::Msg> ms; std::string t; std::vector<size_t> ends;
    for (size_t i = 0; i < k; ++i) { ms.push_back(hg::gen_msg(s, is_request, 2500, i + 1 == k)); t += ms.back().wire; ends.push_back(t.size()); }
    size_t total_body = 0; for (auto& m : ms) total_body = std::max(total_body, m.body.size());
    size_t cap = 1024 * 1024;
    if (s.chance(1, 3)) cap = s.choose(total_body + 2);
    bool handler = s.chance(1, 4);
    std::ostringstream n; n << (is_request ? "requests " : "responses ") << k << " cap=" << cap << (handler ? " handler" : "") << " text=" << pbt::show(t, 500); c.note(n.str()); c.key(n.str());
    // HEAD-ness is a property of the response object, so use a fresh object per message
    P p(is_request, cap); std::string payload; P::payload_handler_t h = [&payload](const char *b, std::size_t n2) { payload.append(b, n2); };
    if (handler) p.set_payload_handler(h);
    std::vector<size_t> cut = hg::cuts(s, t.size()); size_t pos = 0, mi = 0;
    std::unique_ptr<http::message> g;
    auto fresh = [&]() { payload.clear(); g.reset(is_request ? (http::message*)new http::request : (http::message*)new http::response(mi < k && ms[mi].head_response ? "HEAD" : "GET")); };
    fresh();
    std::vector<char> keep(t.begin(), t.end());
    for (size_t e : cut) {
        std::unique_ptr<char[]> frag(new char[e - pos]); memcpy(frag.get(), t.data() + pos, e - pos);
        p.set_read_buffer(frag.get(), e - pos); pos = e;
        while (!p.eof()) {
            PBT_CHECK(mi < k, "messages delivered beyond the end of the stream");
            boost::system::error_code ec; boost::tribool r = p.parse(*g, ec);
            size_t at = e - p.bytes_available();
            PBT_CHECK(r != false, "well-formed message " << mi << " rejected at " << at << ": " << ec.message() << " near " << pbt::show(t.substr(at > 20 ? at - 20 : 0, 40)));
            if (boost::indeterminate(r)) {
                PBT_CHECK(at < ends[mi] || ms[mi].framing == hg::Msg::TO_EOF, "message " << mi << " complete at " << ends[mi] << " but not delivered at " << at);
                break;
            }
            PBT_EQ(at, ends[mi], "message " << mi << " delivered at the wrong offset");
            PBT_EQ(p.get_total_bytes_read(), ms[mi].wire.size(), "total byte count of message " << mi);
            check_message(ms[mi], *g, cap, handler, payload, false);
            ++mi; p.reset(); fresh();
        }
    }
    if (mi == k - 1 && ms[mi].framing == hg::Msg::TO_EOF) {
        PBT_CHECK(!p.check_premature_eof(*g), "end of connection not accepted as end of a length-less response");
        if (!handler) check_message(ms[mi], *g, cap, handler, payload, false); else PBT_EQ(payload, ms[mi].body, "payload handler (to EOF)");
        ++mi; c.label("to-eof");
    }
    PBT_EQ(mi, k, "messages delivered");
    for (auto& m : ms) { static const char *F[] = {"no body", "content-length", "chunked", "to-eof"}; c.label(F[m.framing]); if (!m.footers.empty()) c.label("footers"); if (m.body.size() > cap) c.label("over cap"); }
    if (handler) c.label("handler"); if (k > 1) c.label("pipelined");
    c.nontrivial(total_body > 0 || k > 1);
}

static void headers_only(pbt::Src& s, pbt::Case& c) {
    bool is_request = s.flip(); hg::Msg m = hg::gen_msg(s, is_request, 300);
    std::string t = m.wire; c.note(pbt::show(t, 400)); c.key(t);
    P p(is_request); p.parse_headers_only(); bool raw = s.flip(); p.set_save_raw_headers(raw);
    std::unique_ptr<http::message> g(is_request ? (http::message*)new http::request : (http::message*)new http::response(m.head_response ? "HEAD" : "GET"));
    std::vector<size_t> cut = hg::cuts(s, t.size()); size_t pos = 0; bool done = false;
    for (size_t e : cut) {
        p.set_read_buffer(t.data() + pos, e - pos); pos = e;
        boost::system::error_code ec; boost::tribool r = p.parse(*g, ec); size_t at = e - p.bytes_available();
        PBT_CHECK(r != false, "rejected at " << at << ": " << ec.message());
        if (boost::indeterminate(r)) { PBT_CHECK(at < m.header_end, "headers complete at " << m.header_end << " but not delivered at " << at); continue; }
        PBT_EQ(at, m.header_end, "headers-only parse stopped at the wrong offset");
        done = true; break;
    }
    PBT_CHECK(done, "headers never delivered");
    check_message(m, *g, 0, false, "", true);
    if (raw) PBT_EQ(p.get_raw_headers(), t.substr(0, m.header_end), "raw headers");
    c.nontrivial(m.headers.size() > 0); c.label(raw ? "raw kept" : "raw off");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.property = "P04"; cfg.level = "exploration";
    cfg.rule = "streams of 1-4 generated well-formed messages (no body / Content-Length / chunked with extensions and footers / until EOF, strict or tolerant line endings), random cuts, caps at and around the body size, optional payload handler; non-trivial: a body or more than one message";
    cfg.subs = {
        {"pipeline", pipeline, 150000, 5000000, 10, 3, 2, 0},
        {"headers_only", headers_only, 100000, 2000000, 10, 3, 2, 0},
    };
    return pbt::main(argc, argv, cfg);
}
