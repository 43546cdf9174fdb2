// Parsing must not depend on how the byte stream is cut into reads: whole-buffer parse vs random cuts.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;
typedef http::parser P;

struct Setup { bool is_request; size_t cap; bool raw, headers_only, handler, head; };

/// parses the stream (several pipelined messages) and returns everything observable
static std::vector<std::string> run(const Setup& u, const std::string& t, const std::vector<size_t>& cut) {
    std::vector<std::string> obs; P p(u.is_request, u.cap); p.set_save_raw_headers(u.raw); if (u.headers_only) p.parse_headers_only();
    std::string payload; P::payload_handler_t h = [&payload](const char *b, std::size_t n) { payload.append(b, n); };
    if (u.handler) p.set_payload_handler(h);
    std::unique_ptr<http::message> m(u.is_request ? (http::message*)new http::request : (http::message*)new http::response(u.head ? "HEAD" : "GET"));
    size_t pos = 0; boost::tribool r = boost::indeterminate; size_t gsum = 0;
    for (size_t e : cut) {
        std::unique_ptr<char[]> frag(new char[e - pos]); memcpy(frag.get(), t.data() + pos, e - pos);
        p.set_read_buffer(frag.get(), e - pos);
        while (!p.eof()) {
            boost::system::error_code ec; size_t before = p.bytes_available();
            r = p.parse(*m, ec);
            size_t at = e - p.bytes_available(); gsum += p.gcount();
            if (r != false) PBT_EQ(p.gcount(), before - p.bytes_available(), "gcount does not match the bytes consumed");
            if (boost::indeterminate(r)) break;
            std::ostringstream o;
            o << hg::tri(r) << "@" << at << " ec=" << ec.value() << " " << (r == true ? hg::dump(*m) : std::string()) << " payload=" << payload << " raw=" << p.get_raw_headers();
            if (r == true) o << " total=" << p.get_total_bytes_read() << " content_read=" << p.get_content_bytes_read() << " gsum=" << gsum;
            obs.push_back(o.str());
            if (r == false) return obs;
            gsum = 0; payload.clear(); p.reset(); if (u.headers_only) { return obs; }
            m->clear();
            if (obs.size() > 50) return obs;
        }
        pos = e;
    }
    // end of stream
    std::ostringstream o; bool pre = p.check_premature_eof(*m); if (pre) p.finish(*m);
    o << "eof " << (pre ? "premature" : "ends") << " " << hg::dump(*m) << " payload=" << payload << " raw=" << p.get_raw_headers() << " total=" << p.get_total_bytes_read() << " gsum=" << gsum;
    obs.push_back(o.str());
    return obs;
}

static void check_cuts(pbt::Src& s, pbt::Case& c, const Setup& u, const std::string& t) {
    if (t.empty()) throw pbt::Discard();
    std::ostringstream n; n << (u.is_request ? "request" : "response") << " cap=" << u.cap << (u.raw ? " raw" : "") << (u.headers_only ? " headers-only" : "") << (u.handler ? " handler" : "") << (u.head ? " head" : "") << " text=" << pbt::show(t, 500);
    c.note(n.str()); c.key(n.str());
    std::vector<std::string> want = run(u, t, std::vector<size_t>(1, t.size()));
    std::vector<size_t> cut = hg::cuts(s, t.size());
    std::ostringstream cn; for (size_t i = 0; i < cut.size() && i < 40; ++i) cn << cut[i] << ","; c.note("cuts=" + cn.str());
    std::vector<std::string> got = run(u, t, cut);
    PBT_EQ(got.size(), want.size(), "number of verdicts differs; whole: " << pbt::show(want.back(), 400) << " cut: " << pbt::show(got.back(), 400));
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(got[i] == want[i], "message " << i << " differs: cut [" << pbt::show(got[i], 900) << "] whole [" << pbt::show(want[i], 900) << "]");
    c.nontrivial(cut.size() > 1 && t.size() > 16); c.label(cut.size() > 1 ? "cut" : "uncut"); c.label(want.size() > 1 ? "pipelined" : "single");
    for (auto& w : want) c.label(w.substr(0, w.find_first_of("@ ")));
}
static Setup gen_setup(pbt::Src& s, bool is_request) {
    Setup u; u.is_request = is_request; u.cap = s.pick({(size_t)1024 * 1024, (size_t)1024 * 1024, (size_t)0, (size_t)7, (size_t)200});
    u.raw = s.chance(1, 4); u.headers_only = s.chance(1, 10); u.handler = s.chance(1, 4); u.head = false; return u;
}
static void wellformed(pbt::Src& s, pbt::Case& c) {
    Setup u = gen_setup(s, s.flip()); std::string t; size_t k = 1 + s.choose(3);
    for (size_t i = 0; i < k; ++i) { hg::Msg m = hg::gen_msg(s, u.is_request, 600, i + 1 == k); t += m.wire; if (m.head_response && k == 1) u.head = true; }
    check_cuts(s, c, u, t);
}
static void malformed(pbt::Src& s, pbt::Case& c) {
    Setup u = gen_setup(s, s.flip()); std::string t; size_t k = 1 + s.choose(2);
    for (size_t i = 0; i < k; ++i) t += hg::gen_msg(s, u.is_request, 200).wire;
    hg::mutate(s, t); check_cuts(s, c, u, t);
}
// every single cut position of one message, exhaustively
static void every_cut(pbt::Src& s, pbt::Case& c) {
    Setup u = gen_setup(s, s.flip()); hg::Msg m = hg::gen_msg(s, u.is_request, 60); std::string t = m.wire; if (t.size() > 700) throw pbt::Discard();
    u.head = m.head_response; c.note(pbt::show(t, 400)); c.key(t); c.nontrivial(t.size() > 16);
    std::vector<std::string> want = run(u, t, std::vector<size_t>(1, t.size()));
    for (size_t p = 1; p < t.size(); ++p) {
        std::vector<size_t> cut; cut.push_back(p); cut.push_back(t.size());
        std::vector<std::string> got = run(u, t, cut);
        PBT_CHECK(got == want, "cut at " << p << " changes the result: [" << pbt::show(got.empty() ? "" : got.back(), 700) << "] whole [" << pbt::show(want.back(), 700) << "]");
    }
    c.label("verdict " + want[0].substr(0, want[0].find_first_of("@ ")));
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.property = "P02"; cfg.level = "exploration";
    cfg.rule = "pipelined well-formed and mutated messages x parser settings x random cut positions (byte-by-byte, small, large) and every single cut position of small messages, compared with one whole-buffer parse; non-trivial: text longer than 16 bytes cut at least once";
    cfg.subs = {
        {"wellformed", wellformed, 120000, 4000000, 10, 3, 2, 0},
        {"malformed", malformed, 120000, 4000000, 10, 3, 2, 0},
        {"every_cut", every_cut, 5000, 150000, 20, 3, 2, 0},
    };
    return pbt::main(argc, argv, cfg);
}
