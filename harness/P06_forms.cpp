// Query strings, url-encoded forms and cookie headers: reference parsers and encode/decode round trips.
// BUILD: hot
#include "httpgen.hpp"
#include <pion/algorithm.hpp>
using namespace pion;
typedef http::parser P;

static bool ctl(unsigned char c) { return c < 32 || c == 127; }
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string undo(const std::string& t) {
    std::string o;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '+') o += ' ';
        else if (t[i] == '%' && i + 2 < t.size() && hexv(t[i + 1]) >= 0 && hexv(t[i + 2]) >= 0 && (t[i + 1] != '0' || t[i + 2] != '0')) { o += (char)(hexv(t[i + 1]) * 16 + hexv(t[i + 2])); i += 2; }
        else o += t[i];
    }
    return o;
}
static std::string sorted(const std::vector<std::string>& in) { std::vector<std::string> v(in); std::sort(v.begin(), v.end()); std::string o; for (auto& x : v) o += "{" + x + "}"; return o; }
static std::string pairs_text(const hg::Pairs& p) { return hg::dump_pairs(p); }

/// reference splitter: '&' separates fields, the first '=' ends the name, ',' separates values of one name
static bool ref_form(const std::string& t, hg::Pairs& out) {
    size_t p = 0;
    while (p <= t.size()) {
        size_t e = t.find('&', p); if (e == std::string::npos) e = t.size();
        std::string name, value; bool in_value = false;
        for (size_t i = p; i < e; ++i) {
            unsigned char ch = t[i];
            if (!in_value && ch == '=') { in_value = true; continue; }
            if (in_value && ch == ',') { if (!name.empty()) out.push_back(std::make_pair(undo(name), undo(value))); value.clear(); continue; }
            if (ch == '\r' || ch == '\n' || ch == '\t') continue;
            if (ctl(ch)) return false;
            std::string& d = in_value ? value : name;
            if (d.size() >= (in_value ? 1024u * 1024 : 1024u)) return false;
            d += (char)ch;
        }
        if (!name.empty()) out.push_back(std::make_pair(undo(name), undo(value)));
        p = e + 1;
    }
    return true;
}

/// parses from an exactly sized heap block, so that reading past the end is seen
static bool run_form(const std::string& t, ihash_multimap& d) {
    std::unique_ptr<char[]> b(new char[t.size()]); memcpy(b.get(), t.data(), t.size());
    return P::parse_url_encoded(d, b.get(), t.size());
}
static bool run_cookie(const std::string& t, ihash_multimap& d, bool set) {
    std::unique_ptr<char[]> b(new char[t.size()]); memcpy(b.get(), t.data(), t.size());
    return P::parse_cookie_header(d, b.get(), t.size(), set);
}

static std::string word(pbt::Src& s, bool nonempty) {
    size_t n = s.len(30) + (nonempty ? 1 : 0);
    switch (s.choose(4)) {
        case 0: return s.of("abcABC", n);
        case 1: return s.of("a&=,+% ;\"'#?/", n);
        case 2: { std::string b = s.bytes(n); for (auto& ch : b) if (!ch) ch = 'z'; return b; }   // %00 is documented as not decoded
        default: return s.of("%2cF&=\r\n\t", n);
    }
}
static std::string enc(pbt::Src& s, const std::string& v) {
    std::string o; bool all = s.chance(1, 4);
    for (unsigned char ch : v) {
        bool plain = (isalnum(ch) && ch < 128) || strchr("-_.~*/:@!$'()", ch) && ch;
        if (plain && !all) o += (char)ch;
        else if (ch == ' ' && s.flip()) o += '+';
        else { char b[4]; snprintf(b, 4, s.flip() ? "%%%02x" : "%%%02X", ch); o += b; }
        if (s.chance(1, 60)) o += s.pick({std::string("\r\n"), std::string("\t")});
    }
    return o;
}

static void form_text(pbt::Src& s, pbt::Case& c) {
    // built by an independent encoder from known pairs
    size_t n = s.choose(7); hg::Pairs want; std::string t;
    for (size_t i = 0; i < n; ++i) {
        if (i) t += '&';
        if (s.chance(1, 12)) t += s.pick({std::string("&"), std::string("=&"), std::string("=x&"), std::string("&&")});
        std::string name = word(s, true); t += enc(s, name);
        size_t k = s.chance(1, 8) ? 0 : s.chance(1, 5) ? 2 + s.choose(3) : 1;
        if (k == 0) want.push_back(std::make_pair(name, std::string()));
        else { t += '='; for (size_t j = 0; j < k; ++j) { std::string v = word(s, false); if (j) t += ','; t += enc(s, v); want.push_back(std::make_pair(name, v)); } }
        if (k > 1) c.label("multi-value"); if (k == 0) c.label("no '='");
    }
    if (s.chance(1, 10)) t += '&';
    c.note("form " + pbt::show(t)); c.key(t); c.nontrivial(n > 0);
    ihash_multimap d; bool ok;
    size_t route = s.choose(3);
    if (route == 0) { ok = run_form(t, d); c.label("direct"); }
    else {
        std::string w; c.label(route == 1 ? "uri" : "post");
        if (route == 1) { for (char ch : t) if (ch == '\r' || ch == '\n' || ch == '\t') throw pbt::Discard(); w = "GET /x?" + t + " HTTP/1.1\r\n\r\n"; }
        else w = "POST /x HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded" + s.pick({std::string(), std::string("; charset=UTF-8")}) + "\r\nContent-Length: " + std::to_string(t.size()) + "\r\n\r\n" + t;
        http::request r; P p(true); boost::system::error_code ec; p.set_read_buffer(w.data(), w.size());
        PBT_CHECK(p.parse(r, ec) == true, "not parsed: " << ec.message()); d = r.get_queries(); ok = true;
        for (auto& x : want) { PBT_CHECK(r.has_query(x.first), "missing " << pbt::show(x.first)); }
    }
    PBT_CHECK(ok, "well-formed text refused");
    PBT_EQ(hg::dump_map(d), pairs_text(want), "");
}

static void form_roundtrip(pbt::Src& s, pbt::Case& c) {
    size_t n = s.choose(8); hg::Pairs want; http::request r("/r");
    for (size_t i = 0; i < n; ++i) { std::string a = s.chance(1, 3) && i ? want.back().first : word(s, true), b = word(s, false); r.add_query(a, b); want.push_back(std::make_pair(a, b)); }
    std::string q = http::types::make_query_string(r.get_queries());
    c.note(pbt::show(q)); c.key(q); c.nontrivial(n > 0);
    for (unsigned char ch : q) PBT_CHECK(ch > 32 && ch < 127 && ch != '#' && ch != '"' && ch != '<' && ch != '>', "unsafe character in query string");
    ihash_multimap d; PBT_CHECK(P::parse_url_encoded(d, q), "refused"); PBT_EQ(hg::dump_map(d), pairs_text(want), "direct");
    boost::system::error_code ec; std::stringstream io;
    bool post = s.flip();
    if (post) { r.use_query_params_for_post_content(); c.label("post"); PBT_EQ(r.get_method(), std::string("POST"), ""); } else { r.use_query_params_for_query_string(); c.label("uri"); PBT_EQ(r.get_query_string(), q, ""); }
    r.write(io, ec); PBT_CHECK(!ec, "write"); http::request r2; r2.read(io, ec); PBT_CHECK(!ec, "read: " << ec.message());
    PBT_EQ(hg::dump_map(r2.get_queries()), pairs_text(want), "through a message");
}

static void form_any(pbt::Src& s, pbt::Case& c) {
    std::string t;
    switch (s.choose(3)) {
        case 0: t = s.of("ab=&,+%2", s.len(60)); break;
        case 1: t = s.of(std::string("ab=&,%\r\n\t \0\x01\x7f\x80\xff", 16), s.len(40)); break;
        default: { size_t big = s.pick({1022, 1023, 1024, 1025, 1030}); t = std::string(s.flip() ? "x=y&" : "") + s.blob(big, "abc") + (s.flip() ? "=v&w=z" : ""); c.label("name limit"); break; }
    }
    c.note(pbt::show(t)); c.key(t); c.nontrivial(t.find_first_of("=&,") != std::string::npos);
    ihash_multimap d; hg::Pairs want; bool w = ref_form(t, want);
    bool got = run_form(t, d);
    c.label(w ? "accepted" : "refused");
    PBT_EQ(got, w, "acceptance");
    if (w) PBT_EQ(hg::dump_map(d), pairs_text(want), "");
}

static void value_limit(pbt::Src& s, pbt::Case& c) {
    size_t max = 1024 * 1024, n = max - 2 + s.choose(5);
    bool cookie = s.flip(), quoted = s.flip(), name = s.chance(1, 3);
    if (name) { max = 1024; n = max - 2 + s.choose(5); }
    std::string x = s.blob(n, "abcdefgh"), t;
    std::ostringstream o; o << (cookie ? "cookie " : "form ") << (name ? "name " : quoted ? "quoted value " : "value ") << n; c.note(o.str()); c.key(o.str()); c.nontrivial(); c.label(n <= max ? "within" : "beyond");
    ihash_multimap d; bool got;
    if (cookie) { t = name ? "a=b; " + x + "=1" : "a=b; c=" + std::string(quoted ? "\"" : "") + x + (quoted ? "\"" : "") + "; d=e"; got = run_cookie(t, d, s.flip()); }
    else { t = name ? "a=b&" + x + "=1" : "a=b&c=" + x + "&d=e"; got = run_form(t, d); }
    PBT_EQ(got, n <= max, "acceptance");
    if (got) { auto i = d.find(name ? x : std::string("c")); PBT_CHECK(i != d.end(), "missing"); PBT_CHECK(i->second == (name ? std::string("1") : x), "value differs"); }
}

static bool attribute(const std::string& n, bool set) {
    if (n.empty() || n[0] == '$') return true; if (!set) return false;
    std::string l = hg::lower(n);
    for (const char *a : {"comment", "domain", "max-age", "path", "secure", "version", "expires", "httponly"}) if (l == a) return true;
    return false;
}
/// reference: cookies separated by ; or , ; quoted values may contain anything; spaces around are ignored
static bool ref_cookie(const std::string& t, bool set, hg::Pairs& out) {
    size_t i = 0; const size_t NM = 1024, VM = 1024 * 1024;
    while (i < t.size()) {
        std::string name, value;
        while (i < t.size() && t[i] != '=' && t[i] != ';' && t[i] != ',') { if (t[i] != ' ') { if (ctl(t[i]) || name.size() >= NM) return false; name += t[i]; } ++i; }
        if (i >= t.size() || t[i] != '=') { if (!attribute(name, set)) out.push_back(std::make_pair(name, std::string())); ++i; continue; }
        ++i;
        while (i < t.size() && t[i] == ' ') ++i;
        if (i < t.size() && (t[i] == '"' || t[i] == '\'')) {
            char q = t[i++];
            while (i < t.size() && t[i] != q) { if (value.size() >= VM) return false; value += t[i++]; }
            if (!attribute(name, set)) out.push_back(std::make_pair(name, value));
            while (i < t.size() && t[i] != ';' && t[i] != ',') ++i;
            ++i; continue;
        }
        while (i < t.size() && t[i] != ';' && t[i] != ',') { if (ctl(t[i]) || value.size() >= VM) return false; value += t[i++]; }
        if (!attribute(name, set)) out.push_back(std::make_pair(name, value));
        ++i;
    }
    return true;
}

static void cookie_any(pbt::Src& s, pbt::Case& c) {
    std::string t; bool set = s.flip();
    size_t n = s.len(12);
    for (size_t i = 0; i < n; ++i) t += s.pick({std::string("a"), std::string("b=1"), std::string(";"), std::string("; "), std::string(","), std::string("="), std::string("\""), std::string("'"), std::string(" "), std::string("$Path=/x"), std::string("path=/y"), std::string("Max-Age=3"), std::string("v\"w"), std::string("x y"), std::string("Secure"), std::string("HttpOnly"), std::string("expires=Wed"), std::string("\xe9"), std::string("Comment='c'"), std::string("VERSION=1")});
    if (s.chance(1, 10)) { size_t p = s.choose(t.size() + 1); t.insert(p, 1, s.pick({'\0', '\t', '\x7f', '\x01', '\r'})); c.label("control"); }
    c.note(pbt::show(t)); c.key(t + (set ? "S" : "C")); c.nontrivial(t.find('=') != std::string::npos); c.label(set ? "set-cookie" : "cookie");
    ihash_multimap d; hg::Pairs want; bool w = ref_cookie(t, set, want), got = run_cookie(t, d, set);
    c.label(w ? "accepted" : "refused");
    PBT_EQ(got, w, "acceptance");
    if (w) PBT_EQ(hg::dump_map(d), pairs_text(want), "");
}

static void cookie_roundtrip(pbt::Src& s, pbt::Case& c) {
    auto cname = [&] { std::string n; do n = hg::token(s); while (attribute(n, true)); return n; };
    bool response = s.flip(); size_t n = s.choose(5); hg::Pairs want; std::string all;
    std::unique_ptr<http::message> m(response ? (http::message*)new http::response : (http::message*)new http::request("/"));
    for (size_t i = 0; i < n; ++i) {
        std::string a = cname(), b; size_t k = s.len(30);
        if (response) {
            for (size_t j = 0; j < k; ++j) { unsigned ch = s.chance(3, 4) ? "abc;, ='%"[s.choose(9)] : s.range(32, 255); if (ch == '"' || ch == 127) ch = 'q'; b += (char)ch; }
            std::string path = s.flip() ? std::string() : "/" + s.of("ab/", s.choose(5)); bool age = s.flip(); unsigned long v = s.u64() >> s.choose(64);
            http::response *r = (http::response*)m.get();
            if (path.empty() && !age) r->set_cookie(a, b); else if (age && path.empty()) r->set_cookie(a, b, v); else if (age) r->set_cookie(a, b, path, v); else r->set_cookie(a, b, path);
            std::string h = http::types::make_set_cookie_header(a, b, path, age, v);
            ihash_multimap d; PBT_CHECK(run_cookie(h, d, true), "refused"); PBT_EQ(hg::dump_map(d), pairs_text({std::make_pair(a, b)}), "header " << pbt::show(h));
            PBT_EQ(h.find("Path=" + path) != std::string::npos && !path.empty(), !path.empty(), "path"); PBT_EQ(h.find("Max-Age=" + std::to_string(v)) != std::string::npos, age, "max-age " << h);
        } else { for (size_t j = 0; j < k; ++j) { unsigned ch = s.range(33, 255); if (ch == ';' || ch == ',' || ch == '"' || ch == '\'' || ch == 127) ch = 'q'; b += (char)ch; } m->add_cookie(a, b); }
        want.push_back(std::make_pair(a, b)); all += a + "=" + b + "|";
    }
    c.note((response ? "response " : "request ") + pbt::show(all)); c.key(all); c.nontrivial(n > 0); c.label(response ? "response" : "request");
    if (response) m->set_content_length(0);
    boost::system::error_code ec; std::stringstream io; m->write(io, ec); PBT_CHECK(!ec, "write");
    std::unique_ptr<http::message> m2(response ? (http::message*)new http::response("GET") : (http::message*)new http::request);
    m2->read(io, ec); PBT_CHECK(!ec, "read " << ec.message());
    PBT_EQ(hg::dump_map(m2->get_cookies()), pairs_text(want), "through a message");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P06"; cfg.level = "exploration";
    cfg.rule = "the text has at least one name/value pair (or separator, for arbitrary text); distinct by the text";
    cfg.assumptions = {"names and values do not contain a zero byte (%00 is left undecoded by design)", "',' separates several values of one form field, and CR, LF and TAB are ignored in forms, as the parser documents", "Set-Cookie attributes are those the parser lists"};
    cfg.subs = {
        {"form_text", form_text, 200000, 3000000, 20, 3, 3, 0}, {"form_roundtrip", form_roundtrip, 80000, 1000000, 20, 3, 3, 0}, {"form_any", form_any, 200000, 4000000, 20, 3, 3, 0},
        {"value_limit", value_limit, 300, 3000, 30, 3, 3, 0}, {"cookie_any", cookie_any, 300000, 5000000, 20, 3, 3, 0}, {"cookie_roundtrip", cookie_roundtrip, 60000, 1000000, 20, 3, 3, 0},
    };
    return pbt::main(argc, argv, cfg);
}
