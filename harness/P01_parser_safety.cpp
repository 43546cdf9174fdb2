// The incremental HTTP parser and its static helpers on arbitrary, mutated and adversarial input:
// memory safety (ASan, exact-size fragments), termination, consistent verdicts, bounded storage.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;
typedef http::parser P;

static std::string gen_text(pbt::Src& s, bool is_request, pbt::Case& c) {
    std::string t;
    switch (s.weighted({6, 2, 2, 1})) {
        case 0: { size_t k = 1 + s.choose(3); for (size_t i = 0; i < k; ++i) t += hg::gen_msg(s, is_request, 400).wire; hg::mutate(s, t); c.label("mutated message"); break; }
        case 1: { size_t n = s.len(40); static const char *F[] = {"GET ", "HTTP/1.1", "\r\n", "\n", "\r", ": ", " ", "/", "?", "a=b", "&", "Content-Length", "Transfer-Encoding", "chunked", "0", "5", "-1", "18446744073709551615", "ffffffffffffffff", "7fffffffffffffff", "Cookie", "a=\"b\"; c", "Content-Type", "multipart/form-data; boundary=b", "application/x-www-form-urlencoded", "--b", "--b--", "name=\"x\"", "200 OK", "204", "POST ", "99999999999", "%", "%2", "\x80", "\t", ";"};
                  for (size_t i = 0; i < n; ++i) t += s.pick(F); c.label("fragment soup"); break; }
        case 2: { hg::Msg m = hg::gen_msg(s, is_request, 400); t = m.wire; c.label("valid message"); break; }
        default: t = s.bytes(s.len(300)); c.label("random bytes");
    }
    return t;
}

static void incremental(pbt::Src& s, pbt::Case& c) {
    bool is_request = s.flip();
    std::string t = gen_text(s, is_request, c);
    P p(is_request, s.pick({(size_t)1024 * 1024, (size_t)0, (size_t)1, (size_t)10, (size_t)100, (size_t)5000}));
    size_t cap = p.get_max_content_length();
    p.set_save_raw_headers(s.chance(1, 4));
    if (s.chance(1, 6)) p.parse_headers_only();
    std::string payload; bool use_handler = s.chance(1, 4);
    P::payload_handler_t h = [&payload](const char *b, std::size_t n) { payload.append(b, n); };
    if (use_handler) p.set_payload_handler(h);
    std::unique_ptr<http::message> m(is_request ? (http::message*)new http::request : (http::message*)new http::response(s.flip() ? "GET" : "HEAD"));
    c.note((is_request ? "request " : "response ") + pbt::show(t, 300)); c.key(t);
    std::vector<size_t> cut = hg::cuts(s, t.size());
    size_t pos = 0; bool missing_used = false; int steps = 0;
    bool dead = false;
    for (size_t e : cut) {
        if (dead) break;
        // a fragment lives in its own exact-size allocation
        std::unique_ptr<char[]> frag(new char[e - pos]); memcpy(frag.get(), t.data() + pos, e - pos);
        size_t frag_len = e - pos; pos = e;
        p.set_read_buffer(frag.get(), frag_len);
        while (!p.eof()) {
            PBT_CHECK(++steps < 100000, "no progress");
            boost::system::error_code ec;
            const char *b0, *e0; p.load_read_pos(b0, e0);
            boost::tribool r = p.parse(*m, ec);
            const char *b1, *e1; p.load_read_pos(b1, e1);
            PBT_CHECK(b1 >= b0 && b1 <= e1 && e1 == e0, "read position left the buffer");
            c.label(hg::tri(r));
            if (boost::indeterminate(r)) { PBT_CHECK(p.eof(), "asked for more data with input left"); PBT_CHECK(!ec, "error code without failure: " << ec.message()); }
            else if (r == true) {
                PBT_CHECK(!ec, "success with error code " << ec.message());
                PBT_CHECK(m->is_valid(), "complete message is not marked valid");
                if (!p.get_parse_headers_only()) PBT_CHECK(m->get_content_length() <= std::max(cap, (size_t)0) || use_handler, "stored content exceeds the configured maximum");
                if (!p.get_parse_headers_only() && !use_handler) PBT_CHECK(m->get_content_buffer_size() >= m->get_content_length(), "content buffer smaller than the content length");
                std::string d = hg::dump(*m);   // touches everything
                c.nontrivial();
                if (b1 == b0) { dead = true; break; }   // parser was already finished
                if (s.flip()) { p.reset(); m->clear(); } else { dead = true; break; }
            } else {
                PBT_CHECK(ec && &ec.category() == &P::get_error_category(), "failure without a parser error code");
                PBT_CHECK(!ec.message().empty() && ec.message() != "parser error", "unknown error value " << ec.value());
                c.nontrivial();
                if (s.chance(1, 4)) { p.reset(); m->clear(); if (!p.eof()) { const char *q, *qe; p.load_read_pos(q, qe); p.set_read_buffer(q + 1, qe - q - 1); } }
                else { dead = true; break; }
            }
        }
        if (dead) break;
        // faults between fragments: lost packets, early questions about EOF
        if (s.chance(1, 12)) {
            missing_used = true; boost::system::error_code ec;
            boost::tribool r = p.parse_missing_data(*m, s.pick({(size_t)1, (size_t)5, (size_t)100, (size_t)0, (size_t)70000}), ec);
            c.label("missing " + hg::tri(r));
            if (r == false) PBT_CHECK(ec, "missing data refused without an error code");
            if (!boost::indeterminate(r)) { dead = true; }
        }
        PBT_CHECK(m->get_chunk_cache().size() <= cap, "chunk cache exceeds the configured maximum");
    }
    if (!dead) {
        if (s.flip()) { bool premature = p.check_premature_eof(*m); c.label(premature ? "premature eof" : "eof ends message"); }
        p.finish(*m); c.label("finish");
        if (s.chance(1, 4)) { p.skip_header_parsing(*m); p.finish(*m); }
    }
    (void)missing_used;
    hg::dump(*m);
}

static std::string multipart_soup(pbt::Src& s) {
    std::string t, b = "--b"; size_t n = 1 + s.choose(4);
    static const char *E[] = {"\r\n", "\r\n", "\r\n", "\n", "\r", ""};
    for (size_t i = 0; i < n; ++i) {
        t += b + s.pick(E); size_t h = s.choose(4);
        static const char *H[] = {"Content-Disposition: form-data; name=\"x\"", "Content-Disposition: form-data; name=\"", "Content-Type: text/plain", "Content-Type: image/png", "Content-Type:", "X", ":", "Content-Disposition: form-data; filename=\"f\"; name=\"y\""};
        for (size_t k = 0; k < h; ++k) { t += s.pick(H); t += s.pick(E); }
        t += s.pick(E); if (s.flip()) t += s.of("ab\r\n-", s.len(20)); t += s.pick(E);
    }
    if (s.flip()) t += "--b--"; if (s.chance(1, 4)) t.resize(s.choose(t.size() + 1));
    return t;
}
static void statics(pbt::Src& s, pbt::Case& c) {
    std::string t;
    static const char *F[] = {"a=b", "&", "=", ",", ";", "%", "%41", "\"", "'", " ", "name", "$Path=/", "Path=/", "--b", "--b\r\n", "--b--", "\r\n", "\r\n\r\n", "\n", "\r", "Content-Disposition: form-data; name=\"x\"", "Content-Disposition: form-data; name=\"", "Content-Type: text/plain", "Content-Type: image/png", "http://", "host", ":80", ":", ":99999", "/", "?", "1.2.3.4", "10.0.0.1", "192.168.1.1", "data:", "; base64, ", "QUJD", "QQ==", "=", "==", "text/plain", "\x80", "\xff", "\x01"};
    size_t n = s.len(30);
    for (size_t i = 0; i < n; ++i) { if (s.chance(1, 8)) t += s.bytes(1 + s.choose(4)); else t += s.pick(F); }
    size_t which = s.choose(7);
    if (which == 3 && s.chance(2, 3)) t = multipart_soup(s);
    std::unique_ptr<char[]> buf(new char[t.size()]); memcpy(buf.get(), t.data(), t.size());
    static const char *W[] = {"url_encoded", "cookie", "set-cookie", "multipart", "uri", "forwarded", "data-url"};
    c.label(W[which]); c.note(std::string(W[which]) + " " + pbt::show(t, 300)); c.key(W[which] + t); c.nontrivial(n > 1);
    ihash_multimap d; std::string a, b, e, f; boost::uint16_t port = 0;
    switch (which) {
        case 0: P::parse_url_encoded(d, buf.get(), t.size()); break;
        case 1: P::parse_cookie_header(d, buf.get(), t.size(), false); break;
        case 2: P::parse_cookie_header(d, buf.get(), t.size(), true); break;
        case 3: P::parse_multipart_form_data(d, s.pick({std::string("multipart/form-data; boundary=b"), std::string("multipart/form-data"), std::string("boundary="), std::string("boundary=\r\n"), std::string("boundary=a")}), buf.get(), t.size()); break;
        case 4: P::parse_uri(t, a, b, port, e, f); break;
        case 5: P::parse_forwarded_for(t, a); break;
        default: {
            std::vector<char> out(s.pick({(size_t)0, (size_t)1, (size_t)4, (size_t)64, t.size(), t.size() + 1})); size_t outn = 0;
            if (s.flip()) t = "data:text/plain; base64, " + (s.flip() ? t : s.of("ABCxyz019+/=", s.len(40)));
            c.note(pbt::show(t, 300));
            bool ok = false;
            try { ok = P::base64_2binary(out.empty() ? NULL : out.data(), out.size(), outn, a, t); } catch (std::exception&) { c.label("exception"); ok = false; }
            if (ok) PBT_CHECK(outn <= out.size() + 1, "reported more output than the buffer holds");
            c.label(ok ? "accepted" : "refused"); break; }
    }
    size_t total = 0; for (auto& p : d) total += p.first.size() + p.second.size();
    PBT_CHECK(total <= 40 * t.size() + 4096, "output out of proportion");
}

// message::read over arbitrary text with the default (unlimited) content cap: hostile lengths must not corrupt memory
static void stream_read(pbt::Src& s, pbt::Case& c) {
    bool is_request = s.flip();
    hg::Msg m = hg::gen_msg(s, is_request, 100);
    std::string t = m.wire;
    if (s.flip()) {
        static const char *L[] = {"-1", "18446744073709551615", "18446744073709551616", "+5", "5 5", "0x10", "-9223372036854775808", "99999999999999999999999", "", " ", "1e3", "\xff"};
        std::string v = s.pick(L); size_t p = t.find(m.eol); t.insert(p + m.eol.size(), "Content-Length: " + v + m.eol); c.label("hostile length"); c.nontrivial();
    } else { hg::mutate(s, t); c.nontrivial(); }
    // huge-but-representable lengths only exercise the allocator; keep them out
    for (size_t p = 0; (p = hg::lower(t).find("content-length", p)) != std::string::npos; ++p) {
        size_t q = t.find(':', p); if (q == std::string::npos) break; std::string v; ++q; while (q < t.size() && t[q] == ' ') ++q;
        while (q < t.size() && isdigit((unsigned char)t[q])) v += t[q++];
        if (v.size() > 6 && v.size() < 20) throw pbt::Discard();
    }
    c.note(pbt::show(t, 300)); c.key(t);
    std::istringstream in(t); boost::system::error_code ec;
    std::unique_ptr<http::message> msg(is_request ? (http::message*)new http::request : (http::message*)new http::response);
    size_t n = msg->read(in, ec, s.chance(1, 5));
    PBT_CHECK(n <= t.size(), "counted more bytes than there were");
    if (!ec) PBT_CHECK(msg->is_valid() || t.empty(), "no error but message not valid");
    hg::dump(*msg); c.label(ec ? "error" : "ok");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.property = "P01"; cfg.level = "exploration";
    cfg.rule = "valid, mutated, token-soup and random texts x parser settings x random fragmentation x lost-packet/EOF/reset calls between fragments; non-trivial: the parser reached a verdict (done/error), or a helper got more than one fragment";
    cfg.assumptions = {"Content-Length between 10^6 and 10^19 with an unlimited content cap is not generated (only exercises the allocator)", "set_read_buffer is never called with an empty buffer before parse (documented precondition)"};
    cfg.quick_scale = 3;
    cfg.subs = {
        {"incremental", incremental, 250000, 8000000, 10, 3, 2, 0},
        {"statics", statics, 200000, 6000000, 10, 3, 2, 0},
        {"stream_read", stream_read, 80000, 2000000, 10, 3, 2, 0},
    };
    return pbt::main(argc, argv, cfg);
}
