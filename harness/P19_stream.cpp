// tcp::stream: histories of writes, flushes and reads on connected streams, against a byte queue per direction.
#include "pbt.hpp"
#include "net.hpp"
#include <pion/tcp/stream.hpp>
#include <pion/scheduler.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <memory>
#include <iomanip>
using namespace pion;
typedef std::unique_ptr<tcp::stream> Stream;
static std::string pem() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/test.pem"; }

static std::string content(pbt::Src& s, size_t n) { switch (s.choose(4)) { case 0: return s.blob(n, "abcdefgh \n"); case 1: return std::string(n, (char)s.byte()); case 2: return s.blob(n, std::string("\0\xff\x80\x7f\n\r", 6)); default: return s.blob(n); } }
static size_t size_of(pbt::Src& s) { switch (s.choose(6)) { case 0: return s.choose(4); case 1: return s.choose(60); case 2: return 8185 + s.choose(14); case 3: return 16375 + s.choose(14); case 4: return s.choose(9000); default: return s.chance(1, 4) ? s.choose(60000) : s.choose(300); } }

/// one end: what the stream accepted, what has surely been sent, what the other side has taken
struct Dir { std::string written; size_t flushed, read; Dir() : flushed(0), read(0) {} };
struct Net {
    single_service_scheduler sched; std::unique_ptr<boost::asio::ssl::context> ctx; Stream a, b; bool ssl, tcp;
    Net() : ssl(false), tcp(false) {}
    void open(pbt::Src& s, pbt::Case& c) {
        sched.set_num_threads(1 + s.choose(3)); sched.startup(); int how = s.weighted({6, 3, 1}); boost::asio::io_service& io = sched.get_io_service();
        if (how == 0) { c.label("socket pair"); net::Pair p; tcp::connection_ptr x(new tcp::connection(io)), y(new tcp::connection(io)); net::adopt(*x, p.fd[0]); net::adopt(*y, p.fd[1]); a.reset(new tcp::stream(x)); b.reset(new tcp::stream(y)); return; }
        ssl = how == 2; c.label(ssl ? "SSL" : "TCP"); if (ssl) { ctx.reset(new boost::asio::ssl::context(boost::asio::ssl::context::sslv23)); ctx->use_certificate_chain_file(pem()); ctx->use_private_key_file(pem(), boost::asio::ssl::context::pem); SSL_CTX_set_num_tickets(ctx->native_handle(), 0); /* (a TLS 1.3 client that never reads leaves the tickets unread, and closing then resets the connection) */ }
        tcp = true; if (ssl) a.reset(new tcp::stream(io, true)); else a.reset(new tcp::stream(io)); connect(s, fresh());
        PBT_CHECK(a->is_open() && b->is_open() && a->get_ssl_flag() == ssl, "connected streams are not open");
    }
    tcp::stream *fresh() { return ssl ? new tcp::stream(sched.get_io_service(), *ctx) : new tcp::stream(sched.get_io_service()); }
    void connect(pbt::Src& s, tcp::stream *nb) {
        b.reset(nb); boost::asio::ip::tcp::acceptor acc(sched.get_io_service(), boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)); boost::asio::ip::tcp::endpoint ep = acc.local_endpoint(); boost::system::error_code e1, e2; boost::thread t([&] { e2 = b->accept(acc); });
        if (s.flip()) e1 = a->connect(ep); else e1 = a->connect(boost::asio::ip::address(boost::asio::ip::address_v4::loopback()), ep.port()); t.join(); PBT_CHECK(!e1 && !e2, "streams do not connect: " << e1.message() << ", " << e2.message());
    }
    ~Net() { a.reset(); b.reset(); sched.shutdown(); }
};
static void wrote(Dir& d, const std::string& t) { d.written += t; }

static void history(pbt::Src& s, pbt::Case& c) {
    Net n; n.open(s, c); Dir ab, ba; std::string log = n.ssl ? "ssl:" : ""; size_t ops = 3 + s.choose(30), reads = 0; static const size_t LIMIT = 400000; std::string last[2]; last[0] = last[1] = "";
    for (size_t o = 0; o < ops; ++o) {
        bool on_a = s.flip(); tcp::stream& st = on_a ? *n.a : *n.b; Dir& out = on_a ? ab : ba; Dir& in = on_a ? ba : ab; const char *who = on_a ? " a." : " b."; size_t avail = in.flushed - in.read; std::string& recent = last[on_a];
        PBT_CHECK(st.good(), "stream is not good after" << log);
        switch (s.weighted({4, 2, 3, 4, 6, 2, 2, 1, 2})) {
            case 0: { std::string t = content(s, size_of(s)); if (out.written.size() - out.read + t.size() > LIMIT) break; st.write(t.data(), t.size()); wrote(out, t); log += std::string(who) + "write" + std::to_string(t.size()); break; }
            case 1: { size_t k = 1 + s.choose(s.chance(1, 6) ? 9000 : 12); if (out.written.size() - out.read + k > LIMIT) break; std::string t = content(s, k); for (char ch : t) st.put(ch); wrote(out, t); log += std::string(who) + "put" + std::to_string(k); break; }
            case 2: { std::ostringstream e; int v = (int)s.u64(); double x = v / 8.0; std::string w = content(s, s.choose(20)); if (s.flip()) { st << v << ' ' << w << std::hex << v << std::dec; e << v << ' ' << w << std::hex << v; } else { st << x << std::setw(7) << v << '\n'; e << x << std::setw(7) << v << '\n'; } if (s.chance(1, 4)) { st << std::endl; e << '\n'; out.flushed = out.written.size() + e.str().size(); } wrote(out, e.str()); log += std::string(who) + "<<" + std::to_string(e.str().size()); break; }
            case 3: st.flush(); out.flushed = out.written.size(); log += std::string(who) + "flush"; break;
            case 4: { if (!avail) break; size_t k = 1 + s.choose(std::min(avail, s.flip() ? (size_t)20 : avail)); std::string g(k, '?'); st.read(&g[0], k); PBT_EQ((size_t)st.gcount(), k, "read() of available bytes after" << log); PBT_CHECK(g == in.written.substr(in.read, k), "read() of " << k << " at " << in.read << " returns other bytes than were written: " << pbt::show(g, 40) << " instead of " << pbt::show(in.written.substr(in.read, k), 40) << " after" << log); in.read += k; ++reads; recent = in.written.substr(0, in.read); log += std::string(who) + "read" + std::to_string(k); break; }
            case 5: { if (!avail) break; size_t k = 1 + s.choose(std::min<size_t>(avail, 8)); for (size_t i = 0; i < k; ++i) { int p = s.flip() ? st.peek() : -2, g = st.get(), want = (unsigned char)in.written[in.read]; if (p != -2) PBT_EQ(p, want, "peek() at " << in.read << " after" << log); PBT_EQ(g, want, "get() at " << in.read << " after" << log); ++in.read; } ++reads; log += std::string(who) + "get" + std::to_string(k); break; }
            case 6: { if (!in.read) break; size_t k = 1 + s.choose(std::min<size_t>(in.read, 10)); size_t pos = in.read; for (size_t i = 0; i < k; ++i) { st.unget(); PBT_CHECK(st.good(), "unget() of byte " << i + 1 << " of " << k << " fails after" << log); --pos; } for (; pos < in.read; ++pos) PBT_EQ(st.get(), (int)(unsigned char)in.written[pos], "byte read again after unget() at " << pos << " after" << log); log += std::string(who) + "unget" + std::to_string(k); break; }
            case 7: { size_t e = in.written.find('\n', in.read); if (e == std::string::npos || e >= in.flushed) break; std::string l; std::getline(st, l); PBT_CHECK(l == in.written.substr(in.read, e - in.read), "getline() returns " << l.size() << " bytes instead of " << e - in.read << " after" << log); in.read = e + 1; ++reads; log += std::string(who) + "getline"; break; }
            case 8: { if (avail || out.flushed != out.written.size() || out.flushed != out.read) break; tcp::stream& peer = on_a ? *n.b : *n.a; size_t rounds = 1 + s.choose(4), sent = 0; for (size_t r = 0; r < rounds; ++r) { std::string t = content(s, 1 + s.choose(s.flip() ? 2 : 12)); st.write(t.data(), t.size()); st.flush(); wrote(out, t); sent += t.size(); std::string g(t.size(), '?'); peer.read(&g[0], g.size()); PBT_CHECK(g == t, "read() returns " << pbt::show(g) << " instead of " << pbt::show(t) << " after" << log); } out.flushed = out.read = out.written.size(); ++reads;
                size_t k = std::min<size_t>(10, std::min(sent, out.read)); for (size_t i = 0; i < k; ++i) { peer.unget(); PBT_CHECK(peer.good(), "unget() of byte " << i + 1 << " of " << k << " fails after" << log << " and small messages"); } for (size_t p = out.read - k; p < out.read; ++p) PBT_EQ(peer.get(), (int)(unsigned char)out.written[p], "byte read again after unget() at " << p << " after" << log << " and small messages"); log += std::string(who) + "small" + std::to_string(rounds); break; }
        }
        c.set_note(log);
    }
    // one side ends: what it has written arrives, then the end of the stream
    bool end_a = s.flip(); Stream& gone = end_a ? n.a : n.b; tcp::stream& st = end_a ? *n.b : *n.a; Dir& in = end_a ? ab : ba; Dir& out = end_a ? ba : ab; bool unread = out.flushed > out.read; if (!unread) { // (unread data would reset the connection)
        gone.reset(); std::string rest; size_t want = in.written.size() - in.read; char buf[5000]; for (;;) { size_t k = 1 + s.choose(sizeof buf - 1); st.read(buf, k); rest.append(buf, st.gcount()); if (!st) break; } PBT_CHECK(rest == in.written.substr(in.read), "before the end of the stream " << rest.size() << " bytes arrive instead of " << want << " after" << log << " end"); PBT_CHECK(st.eof(), "end of stream is not reported"); c.label("ended"); }
    c.note(log); c.key(log); c.nontrivial(ab.written.size() + ba.written.size() > 0 && reads > 0);
}

/// more data than any buffer holds, both ends at work
static void bulk(pbt::Src& s, pbt::Case& c) {
    Net n; n.open(s, c); size_t total = 20000 + s.choose(2000000); if (n.ssl) total = std::min<size_t>(total, 300000); std::string data = s.blob(total); std::vector<size_t> w, r; for (int i = 0; i < 20; ++i) { w.push_back(1 + size_of(s)); r.push_back(1 + size_of(s)); } int mode = s.choose(3); c.note(std::string(n.ssl ? "ssl " : "") + std::to_string(total) + " bytes, mode " + std::to_string(mode)); c.key(std::to_string(total) + std::to_string(w[0]) + std::to_string(r[0])); c.nontrivial();
    std::string got; boost::thread t([&] { size_t p = 0, i = 0; while (p < total) { size_t k = std::min(w[i++ % 20], total - p); if (mode == 1 && k < 50) for (size_t j = 0; j < k; ++j) n.a->put(data[p + j]); else n.a->write(data.data() + p, k); p += k; if (mode == 2 && i % 3 == 0) n.a->flush(); } n.a.reset(); });
    size_t i = 0; std::vector<char> b(100000); for (;;) { size_t k = std::min(r[i++ % 20], b.size()); n.b->read(&b[0], k); got.append(&b[0], n.b->gcount()); if (!*n.b) break; } t.join(); size_t d = 0; while (d < got.size() && d < total && got[d] == data[d]) ++d; PBT_CHECK(got == data, got.size() << " bytes arrive instead of " << total << ", equal up to " << d);
}

/// the peer has gone: writing fails in an orderly way, however often it is tried
static void gone(pbt::Src& s, pbt::Case& c) {
    Net n; n.open(s, c); if (s.flip()) { *n.a << "hello"; n.a->flush(); } if (s.flip()) n.b->close(); else n.b.reset(); std::string log = n.ssl ? " ssl" : ""; size_t ops = 2 + s.choose(12), failed = 0; bool own_close = s.chance(1, 4); if (own_close) { n.a->close(); log += " close"; }
    for (size_t o = 0; o < ops; ++o) { if (s.chance(1, 3)) n.a->clear(); switch (s.choose(4)) { case 0: { std::string t = content(s, size_of(s)); n.a->clear(); n.a->write(t.data(), t.size()); log += " write" + std::to_string(t.size()); break; } case 1: { size_t k = 1 + s.choose(s.flip() ? 9000 : 10); for (size_t i = 0; i < k; ++i) { n.a->clear(); n.a->put('x'); } log += " put" + std::to_string(k); break; } case 2: n.a->clear(); n.a->flush(); log += " flush"; break; default: { n.a->clear(); std::streamsize k = n.a->rdbuf()->sputn("abcdefgh", 8); PBT_CHECK(k >= 0 && k <= 8, "sputn returns " << k); log += " sputn"; } } if (!n.a->good()) ++failed; c.set_note(log); }
    c.key(log); c.nontrivial(failed > 0); n.a->clear(); std::string big(30000, 'y'); for (int i = 0; i < 3; ++i) { n.a->clear(); n.a->write(big.data(), big.size()); n.a->flush(); usleep(300); } PBT_CHECK(!n.a->good(), "writing to a connection that is closed succeeds:" << log);
    { n.a->clear(); size_t k = 0; bool one = s.flip(); for (; k < 100000 && n.a->good(); ++k) if (one) n.a->write("z", 1); else n.a->put('z'); PBT_CHECK(!n.a->good(), k << " single bytes are accepted after the connection has failed:" << log); }
    // reading reports the end as often as it is tried, and a stream that is connected again works again
    for (int i = 0; i < 3; ++i) { n.a->clear(); int g = n.a->get(); PBT_CHECK(g == EOF, "reading from a connection that is closed returns byte " << g << ":" << log); }
    if (n.tcp && !n.ssl && s.flip()) { c.label("connected again"); n.a->close(); n.a->clear(); n.connect(s, n.fresh()); std::string t = content(s, 1 + size_of(s)); n.a->write(t.data(), t.size()); n.a->flush(); PBT_CHECK(n.a->good(), "a stream that is connected again cannot write:" << log); n.a.reset(); std::string got; char ch; while (n.b->get(ch)) got += ch; PBT_CHECK(got.size() >= t.size() && got.substr(got.size() - t.size()) == t, "a stream that is connected again sends other data:" << log); }
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P19"; cfg.level = "exploration"; cfg.rule = "bytes were written and some were read, or a write to a dead connection failed; distinct by history";
    cfg.assumptions = {"one thread at a time uses a stream", "a side does not close while data sent to it is unread (TCP resets the connection then)"};
    cfg.subs = {{"history", history, 9000, 200000, 40, 3, 3, 0}, {"bulk", bulk, 400, 6000, 60, 3, 2, 0}, {"gone", gone, 2000, 30000, 40, 3, 2, 0}};
    return pbt::main(argc, argv, cfg);
}
