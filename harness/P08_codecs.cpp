// Text codecs: base64, URL escaping, XML/HTML escaping against independent reference codecs.
#include "pbt.hpp"
#include <pion/algorithm.hpp>
using pion::algorithm;

static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string ref_b64(const std::string& s) {
    std::string o; size_t i = 0; uint32_t acc = 0; int bits = 0;
    for (; i < s.size(); ++i) {
        acc = (acc << 8) | (unsigned char)s[i]; bits += 8;
        while (bits >= 6) { bits -= 6; o += B64[(acc >> bits) & 63]; }
    }
    if (bits) o += B64[(acc << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
static bool is_b64(char c) { return c && strchr(B64, c) != NULL; }

static void base64_roundtrip(pbt::Src& s, pbt::Case& c) {
    std::string in = s.flip() ? s.bytes(s.len(300)) : s.of(std::string("\0\x7f\x80\xff\xfe\x3f\xfb\xef", 8), s.len(60));
    c.note("base64 of " + pbt::show(in)); c.key(in);
    std::string enc = "stale", dec = "stale";
    PBT_CHECK(algorithm::base64_encode(in, enc), "encode reports failure");
    PBT_EQ(enc, ref_b64(in), "encoding differs from RFC 4648");
    PBT_CHECK(algorithm::base64_decode(enc, dec), "decode(encode(x)) rejected: " << enc);
    PBT_EQ(dec, in, "decode(encode(x)) != x");
    // padding is optional on decoding
    std::string un = enc; while (!un.empty() && un[un.size() - 1] == '=') un.erase(un.size() - 1);
    std::string dec2;
    PBT_CHECK(algorithm::base64_decode(un, dec2), "unpadded form rejected");
    PBT_EQ(dec2, in, "unpadded form decodes differently");
    c.label("len%3=" + std::to_string(in.size() % 3)); c.nontrivial(in.size() > 0);
}

static void base64_reject(pbt::Src& s, pbt::Case& c) {
    // a valid encoding with one symbol outside the alphabet put in somewhere
    std::string in = ref_b64(s.bytes(s.len(60)));
    char bad; do { bad = (char)s.byte(); } while (is_b64(bad) || bad == '=');
    size_t pos = s.choose(in.size() + 1);
    bool insert = s.flip();
    if (insert || pos >= in.size()) in.insert(pos, 1, bad); else in[pos] = bad;
    size_t pad = in.find('=');
    c.note("base64_decode of " + pbt::show(in)); c.key(in); c.nontrivial();
    c.label((unsigned char)bad >= 0x80 ? "high byte" : "ascii"); c.label(pad != std::string::npos && in.find(bad) > pad ? "after padding" : "in data");
    std::string out;
    PBT_CHECK(!algorithm::base64_decode(in, out), "accepted a string with a non-base64 symbol");
}

static void base64_arbitrary(pbt::Src& s, pbt::Case& c) {
    std::string in = s.flip() ? s.of(std::string(B64) + "====", s.len(80)) : s.bytes(s.len(80));
    c.note("base64_decode of " + pbt::show(in)); c.key(in); c.nontrivial(in.size() > 1);
    bool foreign = false; for (char ch : in) if (!is_b64(ch) && ch != '=') foreign = true;
    std::string out; bool ok = algorithm::base64_decode(in, out);
    if (foreign) PBT_CHECK(!ok, "accepted a non-base64 symbol");
    if (ok) PBT_CHECK(out.size() <= in.size() / 4 * 3 + 2, "output longer than the input can carry");
    c.label(ok ? "accepted" : "rejected");
}

static int hexv(unsigned char ch) {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return -1;
}
static std::string ref_url_decode(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '+') o += ' ';
        else if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0 && (hexv(s[i + 1]) | hexv(s[i + 2]))) {
            o += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2;
        } else o += s[i];
    }
    return o;
}

static void url_roundtrip(pbt::Src& s, pbt::Case& c) {
    std::string in = s.flip() ? s.bytes(s.len(200)) : s.of("%+ &=?/#;:az09\x7f\x80\xff\x01\r\n\"<>", s.len(60));
    for (auto& ch : in) if (!ch) ch = 'z';      // NUL is deliberately never decoded
    c.note("url of " + pbt::show(in)); c.key(in);
    std::string enc = algorithm::url_encode(in);
    for (size_t i = 0; i < enc.size(); ++i) {
        unsigned char ch = enc[i];
        PBT_CHECK(ch > 32 && ch < 127, "unsafe byte in encoded form " << pbt::show(enc));
        PBT_CHECK(!strchr("&+=?#/\"<>;:@$,{}|\\^~[]`", ch), "reserved character left unescaped in " << pbt::show(enc));
        if (ch == '%') PBT_CHECK(i + 2 < enc.size() && hexv(enc[i + 1]) >= 0 && hexv(enc[i + 2]) >= 0, "incomplete escape in " << pbt::show(enc));
    }
    PBT_EQ(algorithm::url_decode(enc), in, "decode(encode(x)) != x");
    c.nontrivial(enc != in); c.label(enc != in ? "escapes" : "plain");
}

static void url_decode_model(pbt::Src& s, pbt::Case& c) {
    std::string in; size_t n = s.len(60);
    for (size_t i = 0; i < n; ++i) switch (s.weighted({5, 3, 3, 2, 1})) {
        case 0: in += (char)s.range('a', 'h'); break;
        case 1: in += '%'; break;
        case 2: in += "0123456789abcdefABCDEFgGxX +-"[s.choose(29)]; break;
        case 3: { static const char *h = "0123456789ABCDEFabcdef"; in += '%'; in += h[s.choose(22)]; in += h[s.choose(22)]; break; }
        default: in += (char)s.byte();
    }
    c.note("url_decode of " + pbt::show(in)); c.key(in); c.nontrivial(in.find('%') != std::string::npos);
    std::string want = ref_url_decode(in);
    c.label(want == in ? "unchanged" : "decoded");
    PBT_EQ(algorithm::url_decode(in), want, "differs from reference for " << pbt::show(in));
}

// reference: XML 1.0 characters in strict UTF-8; returns length of the valid sequence at i or 0
static size_t utf8_len(const std::string& s, size_t i) {
    unsigned char a = s[i];
    if (a == 9 || a == 10 || a == 13 || (a >= 0x20 && a <= 0x7f)) return 1;
    size_t n = a >= 0xc2 && a <= 0xdf ? 2 : a >= 0xe0 && a <= 0xef ? 3 : a >= 0xf0 && a <= 0xf4 ? 4 : 0;
    if (!n || i + n > s.size()) return 0;
    uint32_t cp = n == 2 ? a & 31 : n == 3 ? a & 15 : a & 7;
    for (size_t k = 1; k < n; ++k) { unsigned char b = s[i + k]; if ((b & 0xc0) != 0x80) return 0; cp = (cp << 6) | (b & 63); }
    if (n == 3 && cp < 0x800) return 0;
    if (n == 4 && (cp < 0x10000 || cp > 0x10ffff)) return 0;
    if (cp >= 0xd800 && cp <= 0xdfff) return 0;
    if (cp == 0xfffe || cp == 0xffff) return 0;
    return n;
}
static std::string ref_xml(const std::string& s, bool& valid) {
    std::string o; valid = true;
    for (size_t i = 0; i < s.size(); ) {
        size_t n = utf8_len(s, i);
        if (!n) { o += "\xEF\xBF\xBD"; ++i; valid = false; continue; }
        if (n > 1) { o += s.substr(i, n); i += n; continue; }
        switch (s[i]) {
            case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break;
            case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; default: o += s[i];
        }
        ++i;
    }
    return o;
}
static void put_cp(std::string& o, uint32_t cp) {
    if (cp < 0x80) o += (char)cp;
    else if (cp < 0x800) { o += (char)(0xc0 | (cp >> 6)); o += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { o += (char)(0xe0 | (cp >> 12)); o += (char)(0x80 | ((cp >> 6) & 63)); o += (char)(0x80 | (cp & 63)); }
    else { o += (char)(0xf0 | ((cp >> 18) & 7)); o += (char)(0x80 | ((cp >> 12) & 63)); o += (char)(0x80 | ((cp >> 6) & 63)); o += (char)(0x80 | (cp & 63)); }
}
static std::string xml_unescape(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') { o += s[i]; continue; }
        static const char *e[][2] = {{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}};
        bool hit = false;
        for (auto& p : e) if (s.compare(i, strlen(p[0]), p[0]) == 0) { o += p[1]; i += strlen(p[0]) - 1; hit = true; break; }
        PBT_CHECK(hit, "bare & in escaped output " << pbt::show(s));
    }
    return o;
}
static void xml_model(pbt::Src& s, pbt::Case& c) {
    std::string in; size_t n = s.len(40);
    for (size_t i = 0; i < n; ++i) switch (s.weighted({3, 3, 4, 2, 2, 2})) {
        case 0: in += (char)s.range('a', 'z'); break;
        case 1: in += "&<>\"'"[s.choose(5)]; break;
        case 2: { static const uint32_t edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x20ac, 0xe9};
                  put_cp(in, s.flip() ? s.pick(edge) : (uint32_t)s.choose(0x110000)); break; }
        case 3: { // near-valid sequence: surrogate, overlong, out of range, non-characters
                  static const char *bad[] = {"\xed\xa0\x80", "\xed\xbf\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xc0\x80", "\xc1\xbf", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80"};
                  in += bad[s.choose(13)]; break; }
        case 4: { std::string t; put_cp(t, (uint32_t)s.choose(0x110000)); in += t.substr(0, s.choose(t.size()) + 0); break; }  // truncated
        default: in += (char)s.byte();
    }
    c.note("xml_encode of " + pbt::show(in)); c.key(in);
    bool valid; std::string want = ref_xml(in, valid);
    std::string got = algorithm::xml_encode(in);
    for (char ch : got) PBT_CHECK(ch != '<' && ch != '>' && ch != '"' && ch != '\'', "markup character left in " << pbt::show(got));
    std::string back = xml_unescape(got);
    if (valid) PBT_EQ(back, in, "escaping lost or altered text");
    for (size_t i = 0; i < got.size(); ) { size_t k = utf8_len(got, i); PBT_CHECK(k, "output is not valid UTF-8/XML text at byte " << i << " of " << pbt::show(got)); i += k; }
    PBT_EQ(got, want, "differs from reference for " << pbt::show(in));
    c.nontrivial(want != in); c.label(valid ? "valid utf-8" : "invalid utf-8"); c.label(want != in ? "escaped" : "plain");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.property = "P08"; cfg.level = "exploration";
    cfg.rule = "random byte strings, strings built from escape fragments, valid/near-valid UTF-8; non-trivial: input that needs at least one escape/replacement (url, xml), non-empty data (base64), or a planted foreign symbol";
    cfg.assumptions = {"NUL bytes are excluded from the URL round trip: %00 is documented never to be decoded"};
    cfg.quick_scale = 3;
    cfg.subs = {
        {"base64_roundtrip", base64_roundtrip, 150000, 4000000, 10, 3, 2, 0},
        {"base64_reject", base64_reject, 100000, 3000000, 10, 3, 2, 0},
        {"base64_arbitrary", base64_arbitrary, 100000, 3000000, 10, 3, 2, 0},
        {"url_roundtrip", url_roundtrip, 100000, 3000000, 10, 3, 2, 0},
        {"url_decode_model", url_decode_model, 200000, 5000000, 10, 3, 2, 0},
        {"xml_model", xml_model, 200000, 5000000, 10, 3, 2, 0},
    };
    return pbt::main(argc, argv, cfg);
}
