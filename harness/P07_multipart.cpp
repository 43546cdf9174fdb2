// Multipart forms: the dictionary holds exactly the submitted fields.
// BUILD: hot
#include "httpgen.hpp"
using namespace pion;
typedef http::parser P;

static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref64(const std::string& v) {
    std::string o; size_t i = 0;
    for (; i + 2 < v.size(); i += 3) { unsigned x = (unsigned char)v[i] << 16 | (unsigned char)v[i + 1] << 8 | (unsigned char)v[i + 2]; o += B64[x >> 18]; o += B64[x >> 12 & 63]; o += B64[x >> 6 & 63]; o += B64[x & 63]; }
    if (i + 1 == v.size()) { unsigned x = (unsigned char)v[i] << 16; o += B64[x >> 18]; o += B64[x >> 12 & 63]; o += "=="; }
    else if (i + 2 == v.size()) { unsigned x = (unsigned char)v[i] << 16 | (unsigned char)v[i + 1] << 8; o += B64[x >> 18]; o += B64[x >> 12 & 63]; o += B64[x >> 6 & 63]; o += "="; }
    return o;
}
struct Field { std::string name, type, value; bool typed, named; };

static std::string cased(pbt::Src& s, std::string n) { if (s.chance(1, 4)) for (auto& ch : n) if (s.flip()) ch = isupper(ch) ? tolower(ch) : toupper(ch); return n; }

static void forms(pbt::Src& s, pbt::Case& c) {
    std::string boundary = s.pick({std::string("----------XyZ"), std::string("b"), std::string("AaB03x"), std::string("-"), std::string("===__1=="), std::string("0123456789012345678901234567890123456789012345678901234567890123456789")});
    if (s.flip()) boundary += s.of("abAB01-", s.choose(10));
    const std::string delim = "--" + boundary;
    size_t n = s.choose(6); std::vector<Field> fs; std::string body, eol = s.chance(1, 6) ? "\n" : "\r\n"; hg::Pairs want;
    if (s.chance(1, 8)) body += "preamble text\r\n";
    for (size_t i = 0; i < n; ++i) {
        Field f; f.named = !s.chance(1, 10) || eol == "\n"; f.typed = s.flip();
        f.name = s.pick({s.of("abcXY", 1 + s.choose(8)), s.of("a b;=:'%\xe9/", 1 + s.choose(8)), i && fs.back().named ? fs.back().name : std::string("field")});
        if (f.typed) f.type = s.pick({std::string("text/plain"), std::string("text/html; charset=UTF-8"), std::string("TEXT/plain"), std::string("image/png"), std::string("application/octet-stream"), std::string("texture/x"), std::string("application/text/plain"), std::string("tex")});
        size_t len = s.len(400);
        switch (s.choose(4)) { case 0: f.value = s.blob(len, "abc def"); break; case 1: f.value = s.blob(len); break; case 2: f.value = s.blob(len, "-\r\n"); break; default: f.value = s.blob(len, std::string("a\r\n\0", 4)); break; }
        if (f.value.find(delim) != std::string::npos || (f.value + "\r\n" + delim).find(delim) != f.value.size() + 2) f.value = "plain";
        fs.push_back(f);
        std::vector<std::string> hs;
        std::string disp = cased(s, "Content-Disposition") + (s.chance(1, 8) ? ":" : ": ") + "form-data";
        std::string fn = "; filename=\"" + s.of("ab.c", 1 + s.choose(8)) + "\"";
        size_t where = s.choose(4);
        if (where == 1) disp += fn;
        if (f.named) disp += std::string(s.chance(1, 8) ? ";" : "; ") + "name=\"" + f.name + "\"";
        if (where == 2) disp += fn;
        hs.push_back(disp);
        if (f.typed) hs.insert(hs.begin() + s.choose(2), cased(s, "Content-Type") + ": " + f.type);
        if (s.chance(1, 4)) hs.insert(hs.begin() + s.choose(hs.size() + 1), s.pick({std::string("X-Other: value"), std::string("Content-Transfer-Encoding: binary"), std::string("X-Empty:"), std::string("X-Empty: "), std::string("JustAName"), std::string("X-Name: name=\"wrong\"")}));
        body += delim + eol; for (auto& h : hs) body += h + eol; body += eol + f.value + "\r\n";
        bool text = !f.typed || hg::lower(f.type.substr(0, 5)) == "text/";
        if (f.named) want.push_back(std::make_pair(f.name, text ? f.value : "data:" + f.type + "; base64, " + ref64(f.value)));
        c.label(text ? "text" : "binary"); if (f.value.empty()) c.label("empty"); if (!f.named) c.label("unnamed"); if (where == 1) c.label("filename first");
    }
    body += delim + "--" + s.pick({std::string("\r\n"), std::string(), std::string("\r\nepilogue\r\n")});
    std::string ct = "multipart/form-data; " + s.pick({std::string(), std::string("charset=utf-8; ")}) + "boundary=" + boundary;
    c.note(pbt::show(ct) + " body " + pbt::show(body, 500)); c.key(body); c.nontrivial(!want.empty()); if (eol == "\n") c.label("LF headers");
    ihash_multimap d; bool ok = true;
    if (s.flip()) {
        std::unique_ptr<char[]> b(new char[body.size()]); memcpy(b.get(), body.data(), body.size());
        ok = P::parse_multipart_form_data(d, ct, b.get(), body.size());
        PBT_CHECK(ok, "well-formed form refused");
    } else {
        c.label("through a request");
        std::string w = "POST /x HTTP/1.1\r\nContent-Type: " + ct + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
        http::request r; P p(true); boost::system::error_code ec; p.set_read_buffer(w.data(), w.size());
        PBT_CHECK(p.parse(r, ec) == true, "not parsed: " << ec.message()); d = r.get_queries();
        PBT_CHECK(hg::content_of(r) == body, "content differs");
    }
    PBT_EQ(hg::dump_map(d), hg::dump_pairs(want), "");
}

static void data_uri(pbt::Src& s, pbt::Case& c) {
    std::string v = s.blob(s.len(300)), type = s.pick({std::string("image/png"), std::string(), std::string("application/octet-stream"), std::string("a; b=c")});
    c.note(type + " " + pbt::show(v)); c.key(type + v); c.nontrivial(v.size() > 0); c.label("mod3=" + std::to_string(v.size() % 3));
    std::string t; std::unique_ptr<char[]> b(new char[v.size()]); memcpy(b.get(), v.data(), v.size());
    PBT_CHECK(P::binary_2base64(t, b.get(), v.size(), type), "refused");
    PBT_EQ(t, "data:" + type + "; base64, " + ref64(v), "encoding");
    // the caller's buffer has to be as large as the encoded text
    std::unique_ptr<char[]> out(new char[t.size() + 1]); size_t n = 0; std::string ty = "junk";
    PBT_CHECK(P::base64_2binary(out.get(), t.size(), n, ty, t), "decoding refused");
    PBT_EQ(ty, type, "type"); PBT_CHECK(n >= v.size() && n <= v.size() + 1, "size " << n << " for " << v.size());
    PBT_CHECK(std::string(out.get(), v.size()) == v, "decoded bytes differ"); PBT_EQ((int)out[v.size()], 0, "terminator");
    if (s.chance(1, 4)) { size_t m = 0; PBT_CHECK(!P::base64_2binary(NULL, t.size(), m, ty, t) || t.empty(), "NULL buffer accepted"); PBT_CHECK(!P::base64_2binary(out.get(), s.choose(v.size() + 1), m, ty, t), "buffer too small accepted"); }
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P07"; cfg.level = "exploration";
    cfg.rule = "the form has at least one named field (data_uri: at least one byte); distinct by body";
    cfg.assumptions = {"the boundary is unquoted and the last parameter of the content type", "the delimiter does not occur in a field"};
    cfg.quick_scale = 2.5;
    cfg.subs = {{"forms", forms, 250000, 4000000, 20, 3, 3, 0}, {"data_uri", data_uri, 150000, 2000000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
