// SPDY frames: an independent encoder against the parser, and hostile packets under ASan.
// BUILD: hot
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
#include <boost/logic/tribool.hpp>
#include <zlib.h>
#include <memory>
using namespace pion;
typedef spdy::parser P;

// the dictionary of SPDY drafts 1 and 2, with its terminating zero
static const char DICT[] =
    "optionsgetheadpostputdeletetraceacceptaccept-charsetaccept-encodingaccept-languageauthorizationexpectfromhostif-modified-sinceif-matchif-none-matchif-rangeif-unmodifiedsincemax-forwardsproxy-authorizationrangerefererteuser"
    "-agent10010120020120220320420520630030130230330430530630740040140240340440540640740840941041141241341441541641750050150250350450" "5accept-rangesageetaglocationproxy-authenticatepublicretry-afterservervarywarningwww-authenticateallow"
    "content-basecontent-encodingcache-controlconnectiondatetrailertransfer-encodingupgradeviawarningcontent-languagecontent-lengthcontent-locationcontent-md5content-rangecontent-typeetagexpireslast-modifiedset-cookie"
    "MondayTuesdayWednesdayThursdayFridaySaturdaySundayJanFebMarAprMayJunJulAugSepOctNovDecchunkedtext/htmlimage/pngimage/jpgimage/gifapplication/xmlapplication/xhtmltext/plainpublicmax-agecharset=iso-8859-1utf-8gzipdeflateHTTP/1.1statusversionurl";

struct Deflater {
    z_stream z;
    Deflater(int level) { memset(&z, 0, sizeof z); deflateInit(&z, level); deflateSetDictionary(&z, (const Bytef*)DICT, sizeof DICT); }
    ~Deflater() { deflateEnd(&z); }
    std::string operator()(const std::string& in) { std::string out(in.size() * 2 + 1000, '\0'); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); z.next_out = (Bytef*)&out[0]; z.avail_out = out.size(); deflate(&z, Z_SYNC_FLUSH); out.resize(out.size() - z.avail_out); return out; }
};
static std::string be(uint64_t v, int n) { std::string o; while (n--) o += (char)(v >> (8 * n)); return o; }
static std::string control(unsigned ver, unsigned type, unsigned flags, const std::string& body) { return be(0x8000 | ver, 2) + be(type, 2) + be(flags, 1) + be(body.size(), 3) + body; }

struct Expect { int kind; unsigned http_type; uint32_t stream; std::map<std::string, std::string> headers; bool fin; std::string payload; int err; size_t size; bool has_stream; };
typedef std::vector<std::pair<std::string, std::string> > Pairs;

static std::string block(const Pairs& h) { std::string o = be(h.size(), 2); for (auto& p : h) o += be(p.first.size(), 2) + p.first + be(p.second.size(), 2) + p.second; return o; }
static std::string word(pbt::Src& s, size_t max) {
    switch (s.choose(4)) { case 0: return s.pick({std::string("host"), std::string("url"), std::string("method"), std::string("content-type"), std::string("status"), std::string("version"), std::string("text/html"), std::string("HTTP/1.1"), std::string("set-cookie"), std::string("")}); case 1: return s.of("abc", s.choose(8)); case 2: return s.bytes(s.len(40)); default: return s.blob(s.len(max), "abcdefghij klm"); }
}

struct Session { Deflater req, rsp; Session(int l) : req(l), rsp(l) {} };

static std::string gen_frame(pbt::Src& s, Session& z, Expect& e, pbt::Case& c) {
    e = Expect(); e.err = 0; e.fin = false; e.has_stream = false; uint32_t id = s.chance(1, 4) ? (uint32_t)s.choose(1u << 24) : 1 + (uint32_t)s.choose(9);
    size_t k = s.weighted({4, 4, 2, 5, 1, 1, 1, 2, 1, 1, 1});
    static const char *names[] = {"SYN_STREAM", "SYN_REPLY", "HEADERS", "DATA", "RST_STREAM", "SETTINGS", "PING", "GOAWAY", "WINDOW_UPDATE", "CREDENTIAL", "NOOP"}; c.label(names[k]); e.kind = k;
    if (k < 3) {
        Pairs h; size_t n = s.len(12); std::string flat; for (size_t i = 0; i < n; ++i) { h.push_back(std::make_pair(i && s.chance(1, 8) ? h[s.choose(i)].first : word(s, 100), word(s, 3000))); flat = block(h); if (flat.size() > 16000) { h.pop_back(); break; } e.headers.insert(h.back()); }
        uint32_t hid = s.chance(1, 8) ? id | 0x80000000u : id;   // reserved bit has to be ignored
        Deflater& d = id % 2 == 0 || k == 2 || k == 1 ? z.rsp : z.req; std::string body = be(hid, 4) + (k == 0 ? be(s.choose(1u << 31), 4) : "") + be(s.choose(65536), 2) + d(block(h));
        e.http_type = k == 0 ? HTTP_REQUEST : k == 1 ? HTTP_RESPONSE : NON_SPDY; e.stream = id; e.has_stream = true; e.payload = body; e.size = body.size();
        return control(1 + s.choose(2), k == 0 ? 1 : k == 1 ? 2 : 8, s.choose(4), body);
    }
    if (k == 3) { e.payload = s.blob(s.len(1500)); e.http_type = HTTP_DATA; e.stream = id; e.has_stream = true; unsigned fl = s.pick({0u, 1u, 2u, 3u}); e.fin = fl & 1; e.size = e.payload.size(); return be(id & 0xffffff, 4) + be(fl, 1) + be(e.payload.size(), 3) + e.payload; }
    e.http_type = k == 10 ? NON_SPDY : SPDY_CONTROL; std::string body; unsigned type = 0;
    switch (k) {
        case 4: type = 3; body = be(id, 4) + be(s.choose(15), 4); break;
        case 5: { type = 4; size_t n = s.choose(4); body = be(n, 4); while (n--) body += be(s.u64(), 8); break; }
        case 6: type = 6; body = be(s.choose(5), 4); break;
        case 7: { type = 7; body = be(s.choose(9), 4); if (s.flip()) { unsigned st = s.pick({0u, 1u, 2u, 11u, 12u}); body += be(st, 4); e.err = st == 1 ? P::ERROR_PROTOCOL_ERROR : st == 11 ? P::ERROR_INTERNAL_SPDY_ERROR : 0; } break; }
        case 8: type = 9; body = be(id, 4) + be(s.choose(1u << 31), 4); break;
        case 9: type = 10; body = be(1, 2) + s.bytes(s.choose(20)); break;
        default: type = 5; break;
    }
    e.size = body.size(); e.payload = body; return control(1 + s.choose(3), type, 0, body);
}

static void frames(pbt::Src& s, pbt::Case& c) {
    Session z(s.pick({6, 0, 1, 9})); spdy::decompressor_ptr d(new spdy::decompressor); P p; size_t np = 1 + s.choose(5), total = 0; std::string all;
    for (size_t i = 0; i < np; ++i) {
        size_t nf = 1 + s.choose(4); std::vector<Expect> ex(nf); std::vector<size_t> at; std::string pkt;
        for (size_t j = 0; j < nf; ++j) { at.push_back(pkt.size()); pkt += gen_frame(s, z, ex[j], c); if (ex[j].err) { nf = j + 1; break; } }
        at.push_back(pkt.size()); all += pkt; total += nf;
        std::unique_ptr<char[]> b(new char[pkt.size()]); memcpy(b.get(), pkt.data(), pkt.size());
        const char *ptr = b.get(); boost::uint32_t len = pkt.size();
        for (size_t j = 0; j < nf; ++j) {
            Expect& e = ex[j]; spdy::http_protocol_info hi; boost::system::error_code ec = make_error_code(boost::system::errc::io_error); std::ostringstream w; w << "packet " << i << " frame " << j << " kind " << e.kind;
            boost::tribool r = p.parse(hi, ec, d, ptr, len, 1);
            if (e.err) { PBT_CHECK(r == false, w.str() << ": error status accepted"); PBT_EQ(ec.value(), e.err, w.str()); break; }
            PBT_CHECK(!ec, w.str() << ": " << ec.message()); bool last = j + 1 == nf;
            // an empty last frame still counts as "nothing follows"
            PBT_EQ(boost::indeterminate(r) ? 2 : r == true ? 1 : 0, last ? 1 : 2, w.str() << " result");
            PBT_EQ(hi.http_type, e.http_type, w.str() << " type"); if (e.has_stream) PBT_EQ(hi.stream_id, e.stream, w.str() << " stream");
            PBT_EQ(hi.data_offset, 8u, w.str() << " offset"); PBT_EQ(hi.data_size, e.size, w.str() << " size"); PBT_EQ(hi.last_chunk, e.fin, w.str() << " fin");
            std::string g, x; for (auto& q : hi.http_headers) g += "{" + q.first + "=" + q.second + "}"; for (auto& q : e.headers) x += "{" + q.first + "=" + q.second + "}"; PBT_EQ(g, x, w.str() << " headers");
            if (e.kind == 3) { PBT_CHECK(p.get_spdy_data_content() == b.get() + at[j] + 8, w.str() << " data pointer"); PBT_CHECK(std::string(p.get_spdy_data_content(), hi.data_size) == e.payload, w.str() << " data"); }
            if (!last) { PBT_EQ((size_t)(p.get_spdy_read_pointer() - b.get()), at[j + 1], w.str() << " next frame"); ptr = p.get_spdy_read_pointer(); PBT_EQ((size_t)len, pkt.size() - at[j + 1], w.str() << " remaining"); }
        }
        if (ex[nf - 1].err) break;
    }
    c.note(std::to_string(np) + " packets, " + std::to_string(total) + " frames: " + pbt::show(all)); c.key(all); c.nontrivial(total > 1);
}

static void hostile(pbt::Src& s, pbt::Case& c) {
    Session z(6); spdy::decompressor_ptr d(new spdy::decompressor); P p; size_t np = 1 + s.choose(4); std::string all;
    for (size_t i = 0; i < np; ++i) {
        std::string pkt; Expect e; size_t how = s.choose(6), nf = 1 + s.choose(3);
        if (how == 0) { pkt = s.bytes(s.len(60)); if (!pkt.empty()) pkt[0] = s.pick({'\x80', '\0', '\x80'}); c.label("random"); }
        else if (how == 1) { // crafted header block
            std::string raw = s.flip() ? be(s.choose(5), 2) + s.of(std::string("\0\0\1\2ab\xff", 7), s.len(60)) : s.bytes(s.len(40)); Deflater& dd = s.flip() ? z.req : z.rsp; bool syn = &dd == &z.req; c.label("bad header block");
            pkt = control(2, syn ? 1 : 2, 0, be(1, 4) + (syn ? be(0, 4) : "") + be(0, 2) + dd(raw));
        } else if (how == 2) { // short header frames
            pkt = control(2, s.pick({1u, 2u, 8u}), 0, s.bytes(s.choose(12))); c.label("short header frame"); if (s.flip()) pkt.resize(s.choose(pkt.size() + 1));
        } else {
            for (size_t j = 0; j < nf; ++j) pkt += gen_frame(s, z, e, c);
            if (how == 3) { pkt.resize(s.choose(pkt.size() + 1)); c.label("truncated"); }
            else { size_t k = 1 + s.choose(4); c.label("mutated"); while (k--) { size_t q = s.choose(s.flip() ? std::min<size_t>(pkt.size(), 20) : pkt.size()); pkt[q] = s.flip() ? (char)s.byte() : (char)(pkt[q] ^ (1 << s.choose(8))); } }
        }
        all += pkt + "|"; c.note(pbt::show(pkt, 400));
        std::unique_ptr<char[]> b(new char[pkt.size()]); memcpy(b.get(), pkt.data(), pkt.size());
        const char *ptr = b.get(); boost::uint32_t len = pkt.size();
        for (size_t step = 0; ; ++step) {
            PBT_CHECK(step <= pkt.size(), "no end of frames"); boost::uint32_t before = len; spdy::http_protocol_info hi; boost::system::error_code ec;
            boost::tribool r = p.parse(hi, ec, d, ptr, len, 1);
            PBT_CHECK(len <= before, "more bytes left than given: " << len << " of " << before);
            if (r == false) { PBT_CHECK(ec, "failure without an error code"); break; }
            PBT_CHECK(!ec, "success with error " << ec.message());
            if (r == true || len == before) break;   // done, or waiting for more data
            const char *n = p.get_spdy_read_pointer(); PBT_CHECK(n > ptr && n + len == b.get() + pkt.size(), "read pointer outside the packet"); ptr = n;
        }
    }
    c.key(all); c.nontrivial(all.size() > np + 8);
}

/// header blocks around the size of the decompression buffer are delivered whole or refused
static void big_headers(pbt::Src& s, pbt::Case& c) {
    Session z(s.pick({6, 0, 9})); spdy::decompressor_ptr d(new spdy::decompressor); P p; size_t n = s.pick({(size_t)16000, (size_t)16383, (size_t)16384, (size_t)16385, (size_t)17000, (size_t)60000}) - (s.flip() ? s.choose(20) : 0);
    Pairs h; h.push_back(std::make_pair(std::string("x"), s.blob(n > 60000 ? 60000 : n - 7, s.flip() ? "a" : "abcdefghijklmnopqrstuvwxyz"))); std::string bl = block(h); c.note("header block of " + std::to_string(bl.size())); c.key(c.m_note + h[0].second.substr(0, 8)); c.nontrivial(); c.label(bl.size() < 16384 ? "fits" : "too large");
    std::string pkt = control(2, 1, 0, be(1, 4) + be(0, 4) + be(0, 2) + z.req(bl)); std::unique_ptr<char[]> b(new char[pkt.size()]); memcpy(b.get(), pkt.data(), pkt.size()); boost::uint32_t len = pkt.size(); spdy::http_protocol_info hi; boost::system::error_code ec; boost::tribool r = p.parse(hi, ec, d, b.get(), len, 1);
    if (bl.size() < 16384) { PBT_CHECK(r == true, "refused: " << ec.message()); } else if (bl.size() > 16384) PBT_CHECK(r == false && ec, "oversized header block accepted");
    if (r == true) { PBT_CHECK(hi.http_headers["x"] == h[0].second, "header value differs"); }
}

static void classify(pbt::Src& s, pbt::Case& c) {
    std::string f = s.flip() ? s.bytes(12) : be(s.pick({0x8001u, 0x8002u, 0x8003u, 0x8000u, 0x8004u, 0x0002u, 0x7002u, 0x8102u}), 2) + be(s.choose(14), 2) + s.bytes(8); c.note(pbt::show(f)); c.key(f); c.nontrivial();
    std::unique_ptr<char[]> b(new char[12]); memcpy(b.get(), f.data(), 12); unsigned v = ((unsigned char)f[0] << 8 | (unsigned char)f[1]), t = ((unsigned char)f[2] << 8 | (unsigned char)f[3]); uint32_t id = ((unsigned char)f[8] & 0x7f) << 24 | (unsigned char)f[9] << 16 | (unsigned char)f[10] << 8 | (unsigned char)f[11];
    bool ctl = (v & 0x8000) && (v & 0x7fff) >= 1 && (v & 0x7fff) <= 3 && t < 11; c.label(ctl ? "control" : "other");
    PBT_EQ(P::is_spdy_control_frame(b.get()), ctl, ""); PBT_EQ(P::get_control_frame_stream_id(b.get()), id, "");
    PBT_EQ((int)P::get_spdy_frame_type(b.get()), (int)(f[0] == '\x80' ? spdy::spdy_control_frame : f[0] == 0 ? spdy::spdy_data_frame : spdy::spdy_invalid_frame), "");
    if (t >= 11 || (v & 0x7fff) > 3) if ((unsigned char)f[0] == 0x80) { f[5] = f[6] = f[7] = 0; P p; spdy::decompressor_ptr d(new spdy::decompressor); spdy::http_protocol_info hi; boost::system::error_code ec; boost::uint32_t len = 12; PBT_CHECK(p.parse(hi, ec, d, f.data(), len, 1) == false, "invalid frame accepted"); PBT_EQ(ec.value(), t >= 11 ? P::ERROR_INVALID_SPDY_FRAME : P::ERROR_INVALID_SPDY_VERSION, ""); }
    if ((unsigned char)f[0] != 0x80 && f[0]) { P p; spdy::decompressor_ptr d(new spdy::decompressor); spdy::http_protocol_info hi; boost::system::error_code ec; boost::uint32_t len = 12; PBT_CHECK(p.parse(hi, ec, d, f.data(), len, 1) == false, "non-SPDY packet accepted"); PBT_EQ(ec.value(), P::ERROR_INVALID_SPDY_FRAME, ""); }
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P11"; cfg.level = "exploration";
    cfg.rule = "at least two frames (hostile: more than a bare frame header); distinct by packet bytes";
    cfg.assumptions = {"header frames use the SPDY/2 layout, the only one the parser supports", "whole frames per packet in the faithful part; zlib is trusted"};
    cfg.quick_scale = 4;
    cfg.subs = {{"frames", frames, 15000, 300000, 20, 3, 3, 0}, {"hostile", hostile, 40000, 1000000, 20, 3, 3, 0}, {"big_headers", big_headers, 4000, 60000, 20, 3, 3, 0}, {"classify", classify, 40000, 600000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
