// Histories of operations on message objects against a case-insensitive multi-map model; copies are independent.
// BUILD: hot
#include "httpgen.hpp"
#include <ctime>
using namespace pion;

typedef std::vector<std::pair<std::string, std::string> > Dict;   // name in lower case
struct Model {
    bool req = true; std::string method = "GET", resource, original, query, reason = "OK", rmethod; unsigned status = 200;
    unsigned vmaj = 1, vmin = 1; Dict headers, queries, cookies; std::string content; bool known_content = true; size_t len = 0, buf = 0; bool valid = false, chunked = false, chunks_ok = false;
    bool miss = false, after = false, nolen = false; int st = 0; std::string cache, ip;
};
static void d_add(Dict& d, const std::string& k, const std::string& v) { d.push_back(std::make_pair(hg::lower(k), v)); }
static void d_del(Dict& d, const std::string& k) { std::string l = hg::lower(k); Dict o; for (auto& p : d) if (p.first != l) o.push_back(p); d.swap(o); }
static void d_set(Dict& d, const std::string& k, const std::string& v) { d_del(d, k); d_add(d, k, v); }
static std::string d_dump(const Dict& d) { std::vector<std::string> v; for (auto& p : d) v.push_back(p.first + "=" + p.second); std::sort(v.begin(), v.end()); std::string o; for (auto& x : v) o += "{" + x + "}"; return o; }
static std::string m_dump(const ihash_multimap& m) { Dict d; for (auto& p : m) d_add(d, p.first, p.second); return d_dump(d); }

static std::string key(pbt::Src& s) {
    static const char *K[] = {"a", "A", "Host", "HOST", "hOsT", "Content-Type", "content-type", "Content-Length", "content-LENGTH", "Transfer-Encoding", "Connection", "x-1", "X-1", "", "Set-Cookie", "[", "{", "@", "`", "x\xe9", "X\xe9", "x\xc9"};
    return s.chance(7, 8) ? std::string(s.pick(K)) : s.of("aAbBzZ@[`{1_", s.choose(4));
}
static std::string val(pbt::Src& s) {
    switch (s.choose(5)) { case 0: return std::to_string(s.choose(30)); case 1: return s.pick({std::string("chunked"), std::string("gzip, ChunKed"), std::string("close"), std::string("Close"), std::string("Keep-Alive"), std::string("-1"), std::string("12 "), std::string(" 7"), std::string("1x"), std::string("99999999999999999999"), std::string("chunke d")}); case 2: return ""; default: return s.of(std::string("abc =;\0\xff", 8), s.len(30)); }
}
static void d_check(const char *what, Dict& d, const std::string& k, bool has, const std::string& got) {
    std::vector<std::string> vs; for (auto& p : d) if (p.first == hg::lower(k)) vs.push_back(p.second);
    PBT_EQ(has, !vs.empty(), what << " presence of " << pbt::show(k));
    if (vs.empty()) PBT_EQ(got, std::string(), what); else PBT_CHECK(std::find(vs.begin(), vs.end(), got) != vs.end(), what << " " << pbt::show(k) << " returns " << pbt::show(got) << " which was not stored");
}
static void verify(pbt::Src& s, http::message& g, Model& m) {
    PBT_EQ(m_dump(g.get_headers()), d_dump(m.headers), "headers"); PBT_EQ(m_dump(g.get_cookies()), d_dump(m.cookies), "cookies");
    std::string k = key(s); d_check("header", m.headers, k, g.has_header(k), g.get_header(k)); d_check("cookie", m.cookies, k, g.has_cookie(k), g.get_cookie(k));
    std::string ver = "HTTP/" + std::to_string(m.vmaj) + "." + std::to_string(m.vmin);
    PBT_EQ(g.get_version_string(), ver, "version"); PBT_EQ(g.get_version_major(), m.vmaj, ""); PBT_EQ(g.get_version_minor(), m.vmin, "");
    PBT_EQ(g.get_content_length(), m.len, "content length"); PBT_EQ(g.get_content_buffer_size(), m.buf, "buffer size"); PBT_EQ(g.is_content_buffer_allocated(), m.buf > 0, "");
    PBT_CHECK(g.get_content() != NULL, "content pointer"); if (m.known_content) PBT_EQ(std::string(g.get_content(), m.buf), m.content, "content"); PBT_EQ((int)g.get_content()[m.buf], 0, "terminator");
    PBT_EQ(g.is_valid(), m.valid, "valid"); PBT_EQ(g.is_chunked(), m.chunked, "chunked"); PBT_EQ(g.get_chunks_supported(), m.chunks_ok, "chunks supported");
    PBT_EQ(g.has_missing_packets(), m.miss, "missing"); PBT_EQ(g.has_data_after_missing_packets(), m.after, "after missing"); PBT_EQ((int)g.get_status(), m.st, "status");
    PBT_EQ(std::string(g.get_chunk_cache().begin(), g.get_chunk_cache().end()), m.cache, "chunk cache"); PBT_EQ(g.get_remote_ip().to_string(), m.ip, "remote ip");
    Dict conn; std::string cv; size_t nc = 0; for (auto& p : m.headers) if (p.first == "connection") { cv = hg::lower(p.second); ++nc; }
    if (nc < 2) PBT_EQ(g.check_keep_alive(), cv != "close" && (m.vmaj > 1 || (m.vmaj == 1 && m.vmin >= 1)), "keep alive, Connection: " << cv);
    if (m.req) {
        http::request& r = (http::request&)g;
        PBT_EQ(r.get_method(), m.method, "method"); PBT_EQ(r.get_resource(), m.resource, "resource"); PBT_EQ(r.get_original_resource(), m.original, "original"); PBT_EQ(r.get_query_string(), m.query, "query");
        PBT_EQ(m_dump(r.get_queries()), d_dump(m.queries), "queries"); d_check("query", m.queries, k, r.has_query(k), r.get_query(k));
        if (s.chance(2, 3)) PBT_EQ(r.get_first_line(), m.method + " " + m.resource + (m.query.empty() ? "" : "?" + m.query) + " " + ver, "first line");
        PBT_EQ(r.is_content_length_implied(), false, "implied");
    } else {
        http::response& r = (http::response&)g;
        PBT_EQ(r.get_status_code(), m.status, "status"); PBT_EQ(r.get_status_message(), m.reason, "reason");
        if (s.chance(2, 3)) PBT_EQ(r.get_first_line(), ver + " " + std::to_string(m.status) + " " + m.reason, "first line");
        PBT_EQ(r.is_content_length_implied(), m.rmethod == "HEAD" || (m.status >= 100 && m.status < 200) || m.status == 204 || m.status == 205 || m.status == 304, "implied, status " << m.status << " to " << m.rmethod);
    }
}
/// what the message would put on a connection
static void sent(http::message& g, Model& m, bool keep, bool chunks) {
    http::message::write_buffers_t b; g.prepare_buffers_for_send(b, keep, chunks); std::string t; for (auto& x : b) t.append(boost::asio::buffer_cast<const char*>(x), boost::asio::buffer_size(x));
    d_set(m.headers, "connection", keep ? "Keep-Alive" : "close"); if (chunks) { d_del(m.headers, "content-length"); if (m.chunks_ok) d_set(m.headers, "transfer-encoding", "chunked"); } else if (!m.nolen) { d_del(m.headers, "transfer-encoding"); d_set(m.headers, "content-length", std::to_string(m.len)); }
    std::string ver = "HTTP/" + std::to_string(m.vmaj) + "." + std::to_string(m.vmin), first = m.req ? m.method + " " + m.resource + (m.query.empty() ? "" : "?" + m.query) + " " + ver : ver + " " + std::to_string(m.status) + " " + m.reason;
    PBT_CHECK(t.compare(0, first.size() + 2, first + "\r\n") == 0, "sent " << pbt::show(t) << " with first line " << pbt::show(first));
    std::vector<std::string> want, got; for (auto& p : m.headers) want.push_back(hg::lower(p.first + ": " + p.second)); for (auto& p : m.cookies) want.push_back(hg::lower(m.req ? "cookie: " + p.first + "=" + p.second : "set-cookie: " + p.first + "=\"" + p.second + "\"; Version=1; Path=/")); want.push_back("");
    size_t q = first.size() + 2; while (q < t.size()) { size_t e = t.find("\r\n", q); PBT_CHECK(e != std::string::npos, "sent " << pbt::show(t)); got.push_back(hg::lower(t.substr(q, e - q))); q = e + 2; }
    PBT_CHECK(got.back().empty(), "the headers do not end: " << pbt::show(t)); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); PBT_CHECK(want == got, "sent " << pbt::show(t, 600) << " for headers " << d_dump(m.headers) << " cookies " << d_dump(m.cookies));
}
static void clear_model(Model& m) { bool r = m.req; m = Model(); m.req = r; m.ip = "0.0.0.0"; if (r) m.method.clear(); }

static void history(pbt::Src& s, pbt::Case& c) {
    struct Slot { std::unique_ptr<http::message> g; Model m; };
    std::vector<Slot> v(4); std::string log; const std::string ip0 = boost::asio::ip::address().to_string();
    for (size_t i = 0; i < 4; ++i) { v[i].m.req = i < 2; v[i].m.ip = ip0; if (i < 2) v[i].g.reset(new http::request); else v[i].g.reset(new http::response); }
    size_t n = 1 + s.len(40); c.nontrivial(n >= 4); bool copied = false;
    for (size_t i = 0; i < n; ++i) {
        size_t w = s.choose(4); http::message& g = *v[w].g; Model& m = v[w].m; http::request *rq = m.req ? (http::request*)&g : NULL; http::response *rp = m.req ? NULL : (http::response*)&g;
        size_t op = s.choose(33); std::ostringstream o; o << " " << w << ":" << op;
        switch (op) {
            case 0: case 1: { std::string k = key(s), x = val(s); g.add_header(k, x); d_add(m.headers, k, x); break; }
            case 2: { std::string k = key(s), x = val(s); g.change_header(k, x); d_set(m.headers, k, x); break; }
            case 3: { std::string k = key(s); g.delete_header(k); d_del(m.headers, k); break; }
            case 4: { std::string k = key(s), x = val(s); g.add_cookie(k, x); d_add(m.cookies, k, x); break; }
            case 5: { std::string k = key(s), x = val(s); g.change_cookie(k, x); d_set(m.cookies, k, x); break; }
            case 6: { std::string k = key(s); g.http::message::delete_cookie(k); d_del(m.cookies, k); break; }
            case 7: { std::string x = val(s); g.set_content(x); m.content = x; m.known_content = true; m.len = m.buf = x.size(); break; }
            case 8: g.clear_content(); m.content.clear(); m.known_content = true; m.len = m.buf = 0; d_del(m.headers, "content-type"); break;
            case 9: { std::string x = val(s); g.set_content_type(x); d_set(m.headers, "content-type", x); break; }
            case 10: { unsigned x = s.pick({0u, 1u, 2u, 9u, 10u, 65535u}); g.set_version_major(x); m.vmaj = x; break; }
            case 11: { unsigned x = s.pick({0u, 1u, 2u, 9u, 10u, 65535u}); g.set_version_minor(x); m.vmin = x; break; }
            case 12: { bool b = s.flip(); g.set_is_valid(b); m.valid = b; b = s.flip(); g.set_missing_packets(b); m.miss = b; b = s.flip(); g.set_data_after_missing_packet(b); m.after = b; int st = s.choose(4); g.set_status((http::message::data_status_t)st); m.st = st; break; }
            case 13: { bool b = s.flip(); g.set_chunks_supported(b); m.chunks_ok = b; break; }
            case 14: { size_t x = s.choose(20); g.set_content_length(x); char *p = g.create_content_buffer(); std::string t = s.bytes(x); memcpy(p, t.data(), x); m.len = m.buf = x; m.content = t; m.known_content = true; break; }
            case 15: { // Content-Length header
                std::vector<std::string> vs; for (auto& p : m.headers) if (p.first == "content-length") vs.push_back(p.second);
                if (vs.size() > 1) break;
                std::string t = vs.empty() ? "0" : vs[0]; while (!t.empty() && t[0] == ' ') t.erase(0, 1); while (!t.empty() && t[t.size() - 1] == ' ') t.resize(t.size() - 1);
                bool ok = !t.empty() && t.size() < 20 && t.find_first_not_of("0123456789") == std::string::npos, threw = false;
                try { g.update_content_length_using_header(); } catch (std::exception&) { threw = true; }
                PBT_EQ(threw, !ok, "Content-Length " << pbt::show(t)); if (ok) m.len = strtoul(t.c_str(), 0, 10); break; }
            case 16: { std::vector<std::string> vs; for (auto& p : m.headers) if (p.first == "transfer-encoding") vs.push_back(p.second);
                if (vs.size() > 1) break; g.update_transfer_encoding_using_header(); m.chunked = !vs.empty() && hg::lower(vs[0]).find("chunked") != std::string::npos; break; }
            case 17: { std::string t = s.bytes(s.choose(9)); g.get_chunk_cache().insert(g.get_chunk_cache().end(), t.begin(), t.end()); m.cache += t; break; }
            case 18: g.concatenate_chunks(); m.content = m.cache; m.known_content = true; m.len = m.buf = m.cache.size(); break;
            case 19: g.clear(); clear_model(m); if (rp) m.method = "GET"; break;
            case 20: case 21: { size_t x = m.req ? s.choose(2) : 2 + s.choose(2); if (m.req) *rq = *(http::request*)v[x].g.get(); else *rp = *(http::response*)v[x].g.get(); Model t = v[x].m; m = t; copied = true; c.label(x == w ? "self-assign" : "assign"); o << "=" << x; break; }
            case 22: { size_t x = m.req ? s.choose(2) : 2 + s.choose(2); http::message *q = m.req ? (http::message*)new http::request(*(http::request*)v[x].g.get()) : (http::message*)new http::response(*(http::response*)v[x].g.get()); Model t = v[x].m; v[w].g.reset(q); v[w].m = t; copied = true; c.label("copy"); o << "=" << x; break; }
            case 23: { boost::asio::ip::address a = boost::asio::ip::address_v4((uint32_t)s.choose(1ULL << 32)); g.set_remote_ip(a); m.ip = a.to_string(); break; }
            case 24: if (rq) { std::string x = val(s); rq->set_method(x); m.method = x; } else { unsigned x = s.pick({0u, 100u, 199u, 200u, 204u, 205u, 304u, 404u, 1000u, 99u, 206u, 203u, 303u, 305u}); rp->set_status_code(x); m.status = x; } break;
            case 25: if (rq) { std::string x = val(s); rq->set_resource(x); m.resource = m.original = x; } else { std::string x = val(s); rp->set_status_message(x); m.reason = x; } break;
            case 26: if (rq) { std::string x = val(s); rq->change_resource(x); m.resource = x; } else { // response to one of the requests
                size_t x = s.choose(2); Model& q = v[x].m; rp->update_request_info(*(http::request*)v[x].g.get()); m.rmethod = q.method; if (q.vmaj == 1 && q.vmin >= 1) m.chunks_ok = true; else if (q.vmaj == 0) { m.status = 0; m.reason.clear(); m.vmaj = m.vmin = 0; } } break;
            case 27: if (rq) { std::string x = val(s); rq->set_query_string(x); m.query = x; } else { std::string a = hg::token(s), b = hg::token(s); size_t k = s.choose(4); if (k == 0) { rp->set_cookie(a, b); d_add(m.headers, "set-cookie", a + "=\"" + b + "\"; Version=1; Path=/"); } else if (k == 1) { rp->set_cookie(a, b, "/p", 7); d_add(m.headers, "set-cookie", a + "=\"" + b + "\"; Version=1; Path=/p; Max-Age=7"); } else if (k == 2) { rp->delete_cookie(a); d_add(m.headers, "set-cookie", a + "=\"\"; Version=1; Path=/; Max-Age=0"); } else { rp->delete_cookie(a, "/q"); d_add(m.headers, "set-cookie", a + "=\"\"; Version=1; Path=/q; Max-Age=0"); } } break;
            case 28: if (rq) { std::string k = key(s), x = val(s); if (s.flip()) { rq->add_query(k, x); d_add(m.queries, k, x); } else { rq->change_query(k, x); d_set(m.queries, k, x); } } else { rp->set_last_modified(784111777 + 86400 * s.choose(3)); std::string t = rp->get_header("Last-Modified"); d_set(m.headers, "last-modified", t); } break;
            case 29: g.set_do_not_send_content_length(); m.nolen = true; c.label("nolen"); break;
            case 30: case 31: { bool keep = s.flip(), chunks = s.chance(1, 3); sent(g, m, keep, chunks); c.label("sent"); o << (keep ? "k" : "") << (chunks ? "c" : ""); break; }
            default: if (rq) { std::string k = key(s); if (s.flip()) { rq->delete_query(k); d_del(m.queries, k); } else { std::string x = s.bytes(s.choose(5)); rq->set_content(x.data(), x.size()); if (!x.empty()) { m.content = x; m.known_content = true; m.len = m.buf = x.size(); } } } break;
        }
        log += o.str();
        try { for (size_t k = 0; k < 4; ++k) verify(s, *v[k].g, v[k].m); } catch (pbt::Fail& f) { c.note("history" + log); throw; }
    }
    c.note("history" + log); c.key(log); if (copied) c.label("copied");
}

/// equal keys up to ASCII case hash alike, compare equal and find each other; others do not
static void keys(pbt::Src& s, pbt::Case& c) {
    std::string a = s.bytes(s.len(20)), b = a; bool same = true;
    for (auto& ch : b) if (s.flip()) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; }
    if (s.chance(1, 2)) { if (b.empty() || s.chance(1, 4)) { b += (char)s.byte(); same = false; } else { size_t p = s.choose(b.size()); unsigned char x = b[p]; unsigned char y = s.chance(1, 2) ? x ^ 0x20 : s.byte(); b[p] = (char)y; same = hg::lower(a) == hg::lower(b); } }
    c.note(pbt::show(a) + " / " + pbt::show(b)); c.key(a + "|" + b); c.nontrivial(a != b); c.label(same ? "same" : "different");
    PBT_EQ(iequal_to()(a, b), same, "equality"); if (same) PBT_CHECK(ihash()(a) == ihash()(b), "hash differs for equal keys");
    ihash_multimap m; m.insert(std::make_pair(a, std::string("v"))); PBT_EQ(m.count(b), same ? 1u : 0u, "lookup"); m.insert(std::make_pair(b, std::string("w"))); PBT_EQ(m.count(a), same ? 2u : 1u, "count");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P10"; cfg.level = "exploration";
    cfg.rule = "history of at least four operations (keys: spellings that differ); distinct by history";
    cfg.assumptions = {"C locale, so that only ASCII letters fold"};
    cfg.quick_scale = 4;
    cfg.subs = {{"history", history, 60000, 1000000, 20, 3, 3, 0}, {"keys", keys, 200000, 3000000, 20, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
