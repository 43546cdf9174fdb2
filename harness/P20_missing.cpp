// Missing packets: a message with reported losses must parse like the same message with filler bytes in place of the
// losses, or be refused where the losses hit something other than content.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;
typedef http::parser P;
struct Seg { size_t from, to; };
/// ranges of the wire text that are content
static std::vector<Seg> layout(const hg::Msg& m) {
    std::vector<Seg> v; if (m.framing == hg::Msg::LENGTH || m.framing == hg::Msg::TO_EOF) { if (!m.body.empty()) v.push_back(Seg{m.header_end, m.header_end + m.body.size()}); }
    else if (m.framing == hg::Msg::CHUNKED) { size_t p = m.header_end; for (;;) { size_t e = m.wire.find("\r\n", p); size_t n = strtoull(m.wire.c_str() + p, NULL, 16); p = e + 2; if (!n) break; v.push_back(Seg{p, p + n}); p += n + 2; } }
    return v;
}
struct Run {
    std::unique_ptr<http::message> g; P p; std::string payload; bool handler; bool done, failed; size_t end; boost::system::error_code ec;
    Run(bool req, size_t cap, bool h, bool head) : g(req ? (http::message*)new http::request : (http::message*)new http::response(head ? "HEAD" : "GET")), p(req, cap), handler(h), done(false), failed(false), end(0) { P::payload_handler_t f = [this](const char *b, std::size_t n) { payload.append(b, n); }; if (h) p.set_payload_handler(f); }
    void feed(const std::string& t, size_t a, size_t b) { // stops at the end of the message
        std::unique_ptr<char[]> f(new char[b - a]); memcpy(f.get(), t.data() + a, b - a); p.set_read_buffer(f.get(), b - a); boost::tribool r = p.parse(*g, ec); end = b - p.bytes_available(); if (r == true) done = true; else if (r == false) failed = true; }
    void miss(size_t a, size_t n) { boost::tribool r = p.parse_missing_data(*g, n, ec); end = a + n; if (r == true) done = true; else if (r == false) failed = true; }
};
static std::string state(Run& r) {
    http::message::data_status_t st = r.g->get_status(); r.g->set_status(http::message::STATUS_NONE); std::string d = hg::dump(*r.g); r.g->set_status(st); if (r.handler || (!r.done && !r.g->is_valid())) { size_t buf = r.g->get_content_buffer_size(), have = r.handler ? 0 : r.p.get_content_bytes_read(), n = std::min(r.g->get_content_length(), buf); if (have < n) d.resize(d.size() - (n - have)); }   // the rest of the buffer is not filled yet
    std::ostringstream o; o << d << "|total" << r.p.get_total_bytes_read() << "|content" << r.p.get_content_bytes_read() << "|payload" << r.payload << "|end" << r.end << (r.done ? " done" : r.failed ? " failed " + r.ec.message() : " more"); return o.str();
}
static void losses(pbt::Src& s, pbt::Case& c) {
    bool req = s.flip(); hg::Msg m = hg::gen_msg(s, req, s.chance(1, 10) ? 20000 : 300, true);
    if (req && m.framing != hg::Msg::NONE && s.chance(1, 4)) { size_t e = m.wire.find(m.eol + m.eol); std::string ct = m.eol + "Content-Type: application/x-www-form-urlencoded"; if (e != std::string::npos && e + 2 * m.eol.size() == m.header_end) { m.wire.insert(e, ct); m.header_end += ct.size(); c.label("form"); } }
    std::vector<Seg> seg = layout(m); size_t cap = s.chance(1, 2) ? 1024 * 1024 : s.choose(m.body.size() + 3); bool handler = s.chance(1, 4);
    // losses
    std::vector<Seg> lost; size_t k = 1 + s.choose(3), from = 0;
    for (size_t i = 0; i < k; ++i) {
        size_t a, n; if (!seg.empty() && s.chance(5, 6)) { Seg g = s.pick(seg); a = g.from + s.choose(g.to - g.from); n = s.chance(1, 3) ? g.to - a : 1 + s.choose(g.to - a); if (s.chance(1, 8)) n = std::min(m.wire.size() - a, n + 1 + s.choose(20)); } else { a = s.choose(m.wire.size()); n = 1 + s.choose(std::min<size_t>(m.wire.size() - a, 30)); }
        if (a < from && i) continue; lost.push_back(Seg{a, a + n}); from = a + n;
    }
    bool beyond = false; if (s.chance(1, 10) && !lost.empty() && m.framing != hg::Msg::TO_EOF && !seg.empty()) { lost.back().to = m.wire.size() + 1 + s.choose(500); beyond = true; }
    std::string next = m.framing == hg::Msg::TO_EOF ? "" : "GET /next HTTP/1.1\r\n\r\n";
    std::string t = m.wire + next, x = t; for (auto& l : lost) for (size_t i = l.from; i < l.to && i < m.wire.size(); ++i) x[i] = 'X';
    std::ostringstream d; d << (req ? "request" : "response") << " cap=" << cap << (handler ? " handler" : "") << " lost"; for (auto& l : lost) d << " " << l.from << "-" << l.to; d << " content"; for (auto& g : seg) { d << " " << g.from << "-" << g.to; if (&g - &seg[0] > 8) break; } d << " of " << pbt::show(t, 400); c.note(d.str()); c.key(d.str());
    std::vector<size_t> cut = hg::cuts(s, t.size()); std::set<size_t> cs(cut.begin(), cut.end());
    Run a(req, cap, handler, m.head_response), b(req, cap, handler, m.head_response);   // a: losses reported, b: filler bytes
    size_t pos = 0, li = 0; bool any = false, after = false, inside_all = true; size_t hit = 0, fed = 0;
    auto end_of = [&]() { return m.wire.size(); };
    while (pos < t.size() && !a.done && !a.failed) {
        if (li < lost.size() && lost[li].from == pos) {
            Seg l = lost[li++]; size_t n = l.to - l.from; if (m.framing != hg::Msg::TO_EOF && pos >= end_of()) break;
            bool in = false; for (auto& g : seg) if (g.from <= l.from && l.to <= g.to) in = true; if (m.framing == hg::Msg::TO_EOF && l.from >= m.header_end) in = true; any = true; ++hit; inside_all = inside_all && in;
            a.miss(pos, n);
            PBT_CHECK(a.g->has_missing_packets(), "loss not recorded");
            if (!in) {
                PBT_CHECK(a.failed, "loss of " << n << " bytes at " << pos << " hits more than content but was accepted"); PBT_CHECK(!a.g->is_valid(), "refused message is valid");
                bool body = pos >= m.header_end, chunk_part = false; if (body && m.framing == hg::Msg::CHUNKED) chunk_part = true;
                int want = !body ? P::ERROR_MISSING_HEADER_DATA : m.framing == hg::Msg::LENGTH ? P::ERROR_MISSING_TOO_MUCH_CONTENT : P::ERROR_MISSING_CHUNK_DATA;
                PBT_CHECK(a.ec.value() == want || (chunk_part && a.ec.value() == P::ERROR_MISSING_HEADER_DATA && pos >= (seg.empty() ? m.header_end : seg.back().to)), "loss at " << pos << " refused with '" << a.ec.message() << "'");
                c.label("refused"); break;
            }
            PBT_CHECK(!a.failed, "loss of " << n << " bytes of content at " << pos << " was refused: " << a.ec.message());
            b.feed(x, pos, l.to); pos = l.to;
            PBT_EQ(state(a), state(b), "after the loss at " << l.from << ": left with the loss reported, right with filler bytes");
        } else {
            size_t e = *cs.upper_bound(pos); if (li < lost.size() && lost[li].from > pos) e = std::min(e, lost[li].from);
            a.feed(t, pos, e); b.feed(x, pos, e); pos = e; if (any) after = true;
            if (t.size() < 300 || a.done || a.failed || b.done || b.failed || ++fed % 64 == 0) PBT_EQ(state(a), state(b), "after byte " << e << ": left with the loss reported, right with filler bytes");
        }
    }
    if (!a.failed) {
        if (m.framing == hg::Msg::TO_EOF) { PBT_CHECK(!a.done, "done before the end"); PBT_EQ(a.p.check_premature_eof(*a.g), false, "premature end"); b.p.check_premature_eof(*b.g); PBT_EQ(state(a), state(b), "at the end of the stream"); }
        else { PBT_CHECK(a.done, "message is not complete"); PBT_EQ(a.end, m.wire.size(), "end of the message"); }
        PBT_CHECK(a.g->is_valid(), "message is not valid"); PBT_EQ(a.g->has_missing_packets(), any, "missing packets flag");
        if (any) { PBT_EQ((int)a.g->get_status(), (int)(after ? http::message::STATUS_PARTIAL : http::message::STATUS_TRUNCATED), "data status"); PBT_EQ(a.g->has_data_after_missing_packets(), after, "data after missing packets"); c.label(after ? "partial" : "truncated"); }
        else PBT_EQ((int)a.g->get_status(), (int)http::message::STATUS_OK, "data status");
        // received bytes are at their place (checked against the model, not the parser)
        std::string want; for (auto& g : seg) want += x.substr(g.from, g.to - g.from);
        if (m.framing != hg::Msg::TO_EOF || pos == t.size()) { if (handler) PBT_EQ(a.payload, want, "payload"); else PBT_EQ(hg::content_of(*a.g), want.substr(0, std::min(cap, want.size())), "content"); }
        if (a.done && !next.empty() && a.end < t.size()) { P q(true); http::request r; boost::system::error_code ec; std::string rest = t.substr(a.end); std::vector<char> buf(rest.begin(), rest.end()); q.set_read_buffer(&buf[0], buf.size()); PBT_CHECK(q.parse(r, ec) == true && r.get_resource() == "/next", "next message after " << a.end); }
    }
    c.nontrivial(hit && inside_all); if (hit > 1) c.label("several losses"); if (beyond) c.label("loss beyond the end"); if (cap < m.body.size()) c.label("over the limit"); static const char *F[] = {"no body", "length", "chunked", "to end"}; c.label(F[m.framing]);
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P20"; cfg.level = "fault_enumeration";
    cfg.rule = "at least one loss, all of them inside content; distinct by message and losses";
    cfg.assumptions = {"losses are reported at the position where they occur, before the bytes that follow them", "content positions are recomputed from the wire text by the harness"};
    cfg.quick_scale = 1;
    cfg.subs = {{"losses", losses, 150000, 4000000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
