// Generators of HTTP messages as wire text plus what a reader of that text must see.
#ifndef VERIF_HTTPGEN_HPP
#define VERIF_HTTPGEN_HPP
#include "pbt.hpp"
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <algorithm>
#include <memory>

namespace hg {
typedef std::vector<std::pair<std::string, std::string> > Pairs;

static const char *TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";

inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline std::string token(pbt::Src& s, size_t max = 12) { size_t n = 1 + s.choose(max); return s.of(s.chance(3, 4) ? "abcXYZ-" : TOKEN, n); }

struct Msg {
    bool is_request = true;
    std::string method = "GET", resource = "/", query; bool has_query = false;
    int vmaj = 1, vmin = 1;
    unsigned status = 200; std::string reason = "OK";
    Pairs headers;                 // in order, as they appear (framing headers included)
    enum Framing { NONE, LENGTH, CHUNKED, TO_EOF } framing = NONE;
    std::string body;              // decoded content
    Pairs footers;
    std::string wire;              // complete text
    size_t header_end = 0;         // offset of first byte after the header block
    bool chunked_header = false;   // names the chunked encoding although there is no content
    bool head_response = false;    // response to a HEAD request: no body on the wire
    std::string eol = "\r\n";
};

inline std::string header_value(pbt::Src& s) {
    switch (s.weighted({6, 2, 1, 1})) {
        case 0: { std::string v = s.of("abc 123=;,/\"()", s.len(60)); while (!v.empty() && v[0] == ' ') v.erase(0, 1); return v; }
        case 1: { std::string v; size_t n = s.len(80); for (size_t i = 0; i < n; ++i) { unsigned c = s.range(32, 255); v += (char)(c == 127 ? '\t' : c); } return v; }
        case 2: return "";
        default: { std::string v = s.of("xyz", 1 + s.len(2000)); return v; }
    }
}
inline std::string header_name(pbt::Src& s) {
    static const char *N[] = {"Host", "X-Test", "x-test", "X-TEST", "Accept", "User-Agent", "Content-Language", "Referer", "Connection", "Date", "Via"};
    return s.chance(2, 3) ? std::string(s.pick(N)) : token(s, 16);
}
inline bool reserved_header(const std::string& n) {
    std::string l = lower(n);
    return l == "content-length" || l == "transfer-encoding" || l == "cookie" || l == "set-cookie" || l == "content-type" || l == "connection";
}
inline std::string body_bytes(pbt::Src& s, size_t max) {
    size_t n = s.len(max);
    switch (s.choose(4)) {
        case 0: return s.blob(n, "abcdefgh");
        case 1: return s.blob(n);
        case 2: return s.blob(n, std::string("\r\n0:\0", 5));
        default: return s.blob(n, "0123456789abcdef\r\n");
    }
}
inline std::string hexnum(pbt::Src& s, size_t n) {
    char b[32]; snprintf(b, sizeof b, s.flip() ? "%zx" : "%zX", n);
    std::string r = b; if (s.chance(1, 8)) r = std::string(s.range(1, 3), '0') + r;
    return r;
}

/// lenient: also use line endings / optional whitespace a tolerant reader has to accept
inline Msg gen_msg(pbt::Src& s, bool is_request, size_t max_body = 3000, bool allow_eof = true, bool lenient = true) {
    Msg m; m.is_request = is_request;
    if (lenient && s.chance(1, 8)) m.eol = s.pick({std::string("\n"), std::string("\r")});
    std::string w;
    if (is_request) {
        if (lenient && s.chance(1, 10)) w += s.pick({std::string("\r\n"), std::string(" "), std::string("\n"), std::string("\r\n\r\n")});
        static const char *M[] = {"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "M-SEARCH"};
        m.method = s.chance(5, 6) ? std::string(s.pick(M)) : token(s);
        m.resource = "/";
        size_t n = s.len(40);
        for (size_t i = 0; i < n; ++i) { unsigned ch = s.chance(4, 5) ? "abc/.%20-_~"[s.choose(11)] : s.range(33, 255); if (ch == 127 || ch == '?') ch = 'q'; m.resource += (char)ch; }
        m.has_query = s.chance(1, 3);
        if (m.has_query) { size_t k = s.len(40); for (size_t i = 0; i < k; ++i) { unsigned ch = s.chance(4, 5) ? "ab=&%2c+,?"[s.choose(10)] : s.range(33, 255); if (ch == 127) ch = 'q'; m.query += (char)ch; } }
    } else {
        static const unsigned S[] = {200, 200, 201, 206, 302, 404, 500, 100, 101, 204, 205, 304, 199, 99, 999};
        m.status = s.chance(5, 6) ? s.pick(S) : (unsigned)s.range(1, 999);
        m.reason = s.chance(1, 4) ? std::string() : s.of("OK Not Found\xe9()", s.len(30));
    }
    if (s.chance(1, 5)) { m.vmin = 0; } else if (s.chance(1, 10)) { m.vmaj = (int)s.range(1, 12); m.vmin = (int)s.range(0, 30); }
    std::string ver = "HTTP/" + std::to_string(m.vmaj) + "." + std::to_string(m.vmin);
    if (is_request) {
        w += m.method + " " + m.resource + (m.has_query ? "?" + m.query : "") + " " + ver;
        if (lenient && s.chance(1, 10)) w += std::string(s.range(1, 3), ' ');
    } else {
        w += ver + " " + std::to_string(m.status);
        if (!(m.reason.empty() && s.flip())) w += " " + m.reason;
    }
    w += m.eol;
    bool implied = !is_request && ((m.status >= 100 && m.status <= 199) || m.status == 204 || m.status == 205 || m.status == 304);
    if (!is_request && s.chance(1, 12)) { m.head_response = true; implied = true; }
    size_t f = s.weighted({3, 4, 4, (unsigned)(!is_request && allow_eof ? 2 : 0)});
    m.framing = (Msg::Framing)f;
    if (implied) {
        if (m.framing == Msg::CHUNKED && !(m.status == 205 && !m.head_response)) { m.chunked_header = s.flip(); m.framing = Msg::NONE; }
        else if (m.framing != Msg::CHUNKED) m.framing = s.flip() && m.framing == Msg::LENGTH ? Msg::LENGTH : Msg::NONE;
    }
    else if (!is_request && m.framing == Msg::NONE) m.framing = Msg::LENGTH;
    size_t nh = s.len(12);
    for (size_t i = 0; i < nh; ++i) {
        std::string n = header_name(s); if (reserved_header(n)) n = "X-Other";
        m.headers.push_back(std::make_pair(n, header_value(s)));
    }
    auto framing_name = [&](const char *n) { std::string r = n; if (s.chance(1, 4)) for (auto& c : r) if (s.flip()) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return r; };
    if (m.framing == Msg::LENGTH || m.framing == Msg::CHUNKED || m.framing == Msg::TO_EOF) m.body = body_bytes(s, max_body);
    if (m.framing == Msg::LENGTH) {
        std::string v = std::to_string(m.body.size()); if (s.chance(1, 8)) v += " "; if (s.chance(1, 12)) v = "0" + v;
        m.headers.insert(m.headers.begin() + s.choose(m.headers.size() + 1), std::make_pair(framing_name("Content-Length"), v));
        if (implied) m.body.clear();
    } else if (m.framing == Msg::CHUNKED || m.chunked_header) {
        if (implied) m.body.clear();
        static const char *T[] = {"chunked", "Chunked", "CHUNKED", "gzip, chunked", "chunked "};
        m.headers.insert(m.headers.begin() + s.choose(m.headers.size() + 1), std::make_pair(framing_name("Transfer-Encoding"), std::string(s.pick(T))));
    }
    for (auto& h : m.headers) {
        bool nospace = !h.second.empty() && lenient && s.chance(1, 10) && h.second[0] != ' ' && h.second[0] != '\t';
        w += h.first + (nospace ? ":" : (h.second.empty() && s.flip() ? ":" : ": ")) + h.second + m.eol;
    }
    w += m.eol;
    m.header_end = w.size();
    if (m.framing == Msg::LENGTH || m.framing == Msg::TO_EOF) w += m.body;
    else if (m.framing == Msg::CHUNKED) {
        size_t p = 0;
        while (p < m.body.size()) {
            size_t k = s.chance(1, 3) ? m.body.size() - p : 1 + s.choose(std::min<size_t>(m.body.size() - p, 64));
            w += hexnum(s, k);
            if (lenient && s.chance(1, 10)) w += s.pick({std::string(" "), std::string("\t "), std::string(";ext=\"v\""), std::string(";")});
            w += "\r\n"; w += m.body.substr(p, k); w += "\r\n"; p += k;
        }
        w += s.chance(1, 6) ? "000" : "0"; if (lenient && s.chance(1, 10)) w += ";last"; w += "\r\n";
        if (s.chance(1, 4)) {
            size_t k = 1 + s.choose(3);
            for (size_t i = 0; i < k; ++i) { std::string n = "X-F" + token(s, 4); m.footers.push_back(std::make_pair(n, header_value(s))); w += n + ": " + m.footers.back().second + "\r\n"; }
        }
        w += "\r\n";
    }
    m.wire = w;
    return m;
}

inline std::string dump_map(const pion::ihash_multimap& m) {
    std::vector<std::string> v;
    for (auto& p : m) v.push_back(p.first + ": " + p.second);
    std::sort(v.begin(), v.end());
    std::string o; for (auto& x : v) { o += "{"; o += x; o += "}"; }
    return o;
}
inline std::string dump_pairs(const Pairs& a) {
    std::vector<std::string> v;
    for (auto& p : a) v.push_back(p.first + ": " + p.second);
    std::sort(v.begin(), v.end());
    std::string o; for (auto& x : v) { o += "{"; o += x; o += "}"; }
    return o;
}
inline std::string content_of(const pion::http::message& m) { return m.get_content_length() ? std::string(m.get_content(), m.get_content_length()) : std::string(); }
inline std::string tri(boost::tribool t) { return boost::indeterminate(t) ? "more" : (t == true ? "done" : "error"); }

/// everything an application can see of a parsed message
inline std::string dump(pion::http::message& m) {
    std::ostringstream o;
    if (pion::http::request *r = dynamic_cast<pion::http::request*>(&m))
        o << r->get_method() << "|" << r->get_resource() << "|" << r->get_original_resource() << "|" << r->get_query_string() << "|q" << dump_map(r->get_queries());
    else if (pion::http::response *p = dynamic_cast<pion::http::response*>(&m))
        o << p->get_status_code() << "|" << p->get_status_message();
    o << "|v" << m.get_version_major() << "." << m.get_version_minor() << "|h" << dump_map(m.get_headers()) << "|c" << dump_map(m.get_cookies())
      << "|" << (m.is_valid() ? "valid" : "invalid") << "|" << (m.is_chunked() ? "chunked" : "plain") << "|st" << m.get_status() << "|len" << m.get_content_length()
      << "|buf" << m.get_content_buffer_size() << "|";
    size_t n = std::min(m.get_content_length(), m.get_content_buffer_size());
    o << std::string(m.get_content(), n);
    return o.str();
}

/// random cut points of a text of length n (strictly increasing, last == n)
inline std::vector<size_t> cuts(pbt::Src& s, size_t n) {
    std::vector<size_t> c; size_t p = 0;
    size_t mode = s.choose(4);
    while (p < n) {
        size_t k = mode == 0 ? 1 : mode == 1 ? 1 + s.choose(4) : mode == 2 ? 1 + s.choose(64) : 1 + s.choose(n - p);
        if (mode == 0 && n > 3000) k = 1 + s.choose(700);
        p = std::min(n, p + k); c.push_back(p);
    }
    return c;
}

/// corrupts a text in a few places
inline void mutate(pbt::Src& s, std::string& t) {
    size_t k = 1 + s.choose(4);
    for (size_t i = 0; i < k; ++i) {
        size_t p = t.empty() ? 0 : s.choose(t.size());
        switch (s.choose(7)) {
            case 0: if (!t.empty()) t[p] = (char)s.byte(); break;
            case 1: t.insert(p, 1, (char)s.byte()); break;
            case 2: if (!t.empty()) t.erase(p, 1 + s.choose(4)); break;
            case 3: t.insert(p, s.pick({std::string("\r\n"), std::string("\r"), std::string("\n"), std::string("\r\n\r\n"), std::string(": "), std::string(" "), std::string("\t"), std::string(1, '\0'), std::string("\x7f"), std::string("0\r\n\r\n"), std::string("ffffffffffffffffff"), std::string("Content-Length: 5\r\n"), std::string("Transfer-Encoding: chunked\r\n"), std::string("HTTP/1.1"), std::string("-1")})); break;
            case 4: t.resize(p); break;
            case 5: { size_t q = t.empty() ? 0 : s.choose(t.size()); if (q < p) std::swap(p, q); t.insert(q, t.substr(p, std::min<size_t>(q - p, 100))); break; }
            default: if (!t.empty()) t[p] = s.pick({'\r', '\n', ' ', ':', '0', '?', '/', '\t', ';', '='}); break;
        }
    }
}

/// every part of a message is what was generated
inline void check_message(const Msg& m, pion::http::message& g, size_t cap, bool handler, const std::string& payload, bool headers_only) {
    if (m.is_request) {
        pion::http::request& r = dynamic_cast<pion::http::request&>(g);
        PBT_EQ(r.get_method(), m.method, "method"); PBT_EQ(r.get_resource(), m.resource, "resource"); PBT_EQ(r.get_original_resource(), m.resource, "original resource"); PBT_EQ(r.get_query_string(), m.query, "query string");
    } else {
        pion::http::response& r = dynamic_cast<pion::http::response&>(g);
        PBT_EQ(r.get_status_code(), m.status, "status code"); PBT_EQ(r.get_status_message(), m.reason, "status message");
    }
    PBT_EQ(g.get_version_major(), m.vmaj, "major version"); PBT_EQ(g.get_version_minor(), m.vmin, "minor version");
    Pairs want = m.headers; if (!headers_only) for (auto& f : m.footers) want.push_back(f);
    PBT_EQ(dump_map(g.get_headers()), dump_pairs(want), "headers");
    for (auto& h : want) {
        std::string up = h.first; for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32;
        PBT_CHECK(g.has_header(up) && g.has_header(lower(h.first)), "header " << h.first << " not found case-insensitively");
    }
    PBT_EQ(g.is_chunked(), m.framing == Msg::CHUNKED || m.chunked_header, "chunked flag");
    PBT_CHECK(g.is_valid(), "message not valid");
    PBT_EQ((int)g.get_status(), (int)pion::http::message::STATUS_OK, "data status");
    if (headers_only) return;
    if (handler) { PBT_EQ(payload, m.body, "payload handler"); return; }
    std::string body = m.body.substr(0, std::min(cap, m.body.size()));
    PBT_EQ(g.get_content_length(), body.size(), "content length");
    PBT_CHECK(g.get_content_buffer_size() == body.size(), "content buffer size " << g.get_content_buffer_size() << " want " << body.size());
    PBT_EQ(content_of(g), body, "content");
    PBT_CHECK(g.get_content()[body.size()] == '\0', "content not NUL terminated");
}
}
#endif
