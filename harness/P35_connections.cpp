// tcp::connection and tcp::timer: setting up by endpoint, address and name, accepting, transfers of every kind,
// cancelling, shutting down and timing out; each operation finishes once and the bytes are those that were sent.
#include "net.hpp"
#include <boost/asio.hpp>
#include <boost/lexical_cast.hpp>
#include <pion/tcp/timer.hpp>
#include <functional>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <netdb.h>
#include <memory>
#include <set>
using namespace pion; typedef boost::system::error_code EC;
static std::string pem() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/test.pem"; }

// ---- names resolve to generated lists of addresses
static std::vector<uint32_t> g_names; static std::set<addrinfo*> g_lists;
extern "C" int getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res) {
    if (!node || strncmp(node, "test.", 5)) { typedef int (*F)(const char*, const char*, const addrinfo*, addrinfo**); static F f = (F)dlsym(RTLD_NEXT, "getaddrinfo"); return f(node, service, hints, res); }
    addrinfo *first = NULL, **at = &first; if (g_names.empty()) return EAI_NONAME;
    for (uint32_t a : g_names) { addrinfo *i = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in)); sockaddr_in *s = (sockaddr_in*)(i + 1); s->sin_family = AF_INET; s->sin_port = htons(atoi(service)); s->sin_addr.s_addr = htonl(a); i->ai_family = AF_INET; i->ai_socktype = SOCK_STREAM; i->ai_protocol = IPPROTO_TCP; i->ai_addr = (sockaddr*)s; i->ai_addrlen = sizeof *s; *at = i; at = &i->ai_next; }
    g_lists.insert(first); *res = first; return 0;
}
extern "C" void freeaddrinfo(addrinfo *a) {
    if (!g_lists.erase(a)) { typedef void (*F)(addrinfo*); static F f = (F)dlsym(RTLD_NEXT, "freeaddrinfo"); return f(a); }
    while (a) { addrinfo *n = a->ai_next; free(a); a = n; }
}

/// outcome of one asynchronous operation
struct Op { int calls; EC ec; size_t n; Op() : calls(0), n(0) {} void operator()(const EC& e, size_t k = 0) { ++calls; ec = e; n = k; } };
template <typename F> static bool drive(boost::asio::io_service& io, F f, int limit = 4000) { for (int i = 0; !f(); ++i) { if (i > limit) return false; io.reset(); if (!io.poll()) usleep(i < 100 ? 50 : 2000); else i = 0; } return true; }
static void abrupt(tcp::connection& c) { EC e; if (c.is_open()) c.get_socket().set_option(boost::asio::socket_base::linger(true, 0), e); }   // leaves no socket waiting behind

static void connecting(pbt::Src& s, pbt::Case& c) {
    boost::asio::io_service io; const unsigned N = 4; unsigned mask = s.choose(1 << N), port = 0; std::vector<std::unique_ptr<boost::asio::ip::tcp::acceptor> > acc; std::ostringstream d;
    auto ip = [](unsigned i) { return boost::asio::ip::address_v4(INADDR_LOOPBACK + i); };
    for (int tries = 0; acc.size() < N; ++tries) { if (tries > 20) throw pbt::Discard(); acc.clear(); port = 0; for (unsigned i = 0; i < N; ++i) { std::unique_ptr<boost::asio::ip::tcp::acceptor> a(new boost::asio::ip::tcp::acceptor(io)); EC e; a->open(boost::asio::ip::tcp::v4()); a->bind(boost::asio::ip::tcp::endpoint(ip(i), port), e); if (e) break; port = a->local_endpoint().port(); if (mask >> i & 1) a->listen(); acc.push_back(std::move(a)); } }
    d << "listening:"; for (unsigned i = 0; i < N; ++i) if (mask >> i & 1) d << " " << i; std::unique_ptr<pion::tcp::connection> reused; size_t rounds = 1 + s.choose(4), good = 0;
    for (size_t r = 0; r < rounds; ++r) {
        unsigned how = s.choose(6); std::vector<unsigned> to; if (how < 2) { size_t k = s.choose(5); while (k--) to.push_back(s.choose(N)); } else to.push_back(s.choose(N)); int want = -1; for (unsigned t : to) if (want < 0 && (mask >> t & 1)) want = t;
        if (!reused || s.flip()) reused.reset(new pion::tcp::connection(io)); pion::tcp::connection& k = *reused; EC ec; Op op; d << (how < 2 ? " name" : how == 2 ? " address" : how == 3 ? " endpoint" : how == 4 ? " async-address" : " async-endpoint") << "("; for (unsigned t : to) d << t; d << ")";
        pion::tcp::connection peer(io); Op acc_op; bool early = want >= 0 && s.flip(); if (early) peer.async_accept(*acc[want], std::ref(acc_op));
        boost::asio::ip::tcp::endpoint ep; if (how >= 2) ep = boost::asio::ip::tcp::endpoint(ip(to[0]), port);
        if (how < 2) { g_names.clear(); for (unsigned t : to) g_names.push_back(INADDR_LOOPBACK + t); ec = k.connect(std::string(to.size() == 1 && s.flip() ? ip(to[0]).to_string() : "test." + std::to_string(r)), port); }
        else if (how == 2) ec = k.connect(ep.address(), port); else if (how == 3) ec = k.connect(ep);
        else { if (how == 4) k.async_connect(ep.address(), port, std::ref(op)); else k.async_connect(ep, std::ref(op)); PBT_CHECK(drive(io, [&] { return op.calls > 0; }), "connecting never finishes: " << d.str()); PBT_EQ(op.calls, 1, "calls of the handler"); ec = op.ec; }
        if (want < 0) { PBT_CHECK(ec, "connected although nobody listens: " << d.str()); if (how < 2) PBT_CHECK(!k.is_open(), "open after a failed connect by name: " << d.str()); k.close(); PBT_CHECK(!k.is_open(), "open after close"); continue; }
        PBT_CHECK(!ec, "not connected (" << ec.message() << "): " << d.str()); PBT_CHECK(k.is_open(), "not open after connecting: " << d.str()); ++good;
        if (early) { PBT_CHECK(drive(io, [&] { return acc_op.calls > 0; }), "accepting never finishes: " << d.str()); PBT_EQ(acc_op.calls, 1, "calls of the accept handler"); ec = acc_op.ec; } else if (s.flip()) { peer.async_accept(*acc[want], std::ref(acc_op)); PBT_CHECK(drive(io, [&] { return acc_op.calls > 0; }), "accepting never finishes: " << d.str()); ec = acc_op.ec; } else ec = peer.accept(*acc[want]);
        PBT_CHECK(!ec && peer.is_open(), "not accepted: " << ec.message() << ": " << d.str());
        PBT_EQ(k.get_remote_endpoint(), boost::asio::ip::tcp::endpoint(ip(want), port), "peer: " << d.str()); PBT_EQ(k.get_remote_ip(), boost::asio::ip::address(ip(want)), ""); PBT_EQ((unsigned)k.get_remote_port(), port, ""); PBT_EQ(peer.get_remote_endpoint(), k.get_socket().local_endpoint(), "client: " << d.str());
        for (unsigned i = 0; i < N; ++i) if (mask >> i & 1) { EC e; boost::asio::ip::tcp::socket x(io); acc[i]->non_blocking(true); acc[i]->accept(x, e); acc[i]->non_blocking(false); PBT_CHECK(e == boost::asio::error::would_block, "connected to " << i << " as well: " << d.str()); }
        std::string t = s.blob(1 + s.choose(50)); if (t.empty()) t = "x"; size_t n = k.write(boost::asio::buffer(t), ec); PBT_CHECK(!ec, "write: " << ec.message()); PBT_EQ(n, t.size(), "bytes written"); std::string got; while (got.size() < t.size()) { n = peer.read_some(ec); PBT_CHECK(!ec, "read: " << ec.message()); got.append(peer.get_read_buffer().data(), n); } PBT_CHECK(got == t, "received " << pbt::show(got) << " for " << pbt::show(t));
        bool by_peer = s.flip(); pion::tcp::connection &a = by_peer ? peer : k, &b = by_peer ? k : peer;
        if (s.flip()) { abrupt(a); a.close(); PBT_CHECK(!a.is_open(), "open after close"); n = b.read_some(ec); PBT_CHECK(ec && n == 0, "read after the peer closed"); PBT_EQ(a.get_remote_port(), 0, "peer of a closed connection"); } abrupt(k); abrupt(peer); k.close(); peer.close();
    }
    if (mask && s.chance(1, 4)) { unsigned i = 0; while (!(mask >> i & 1)) ++i; pion::tcp::connection peer(io); Op op; peer.async_accept(*acc[i], std::ref(op)); io.reset(); io.poll(); PBT_EQ(op.calls, 0, "accepted nobody"); acc[i]->close(); PBT_CHECK(drive(io, [&] { return op.calls > 0; }), "accept is not given up"); PBT_CHECK(op.calls == 1 && op.ec, "accept of a closed acceptor"); d << " closed"; }
    c.note(d.str()); c.key(d.str()); c.nontrivial(good > 0); if (good < rounds) c.label("refused"); if (good > 1) c.label("several connections");
}

// the kernel takes at most so many bytes at once from a socket of the case
static int g_short[2] = {-1, -1}; static size_t g_take = 0;
extern "C" ssize_t sendmsg(int fd, const msghdr *h, int flags) {
    if (!g_take || (fd != g_short[0] && fd != g_short[1])) return syscall(SYS_sendmsg, fd, h, flags);
    std::vector<iovec> v; size_t left = g_take; for (size_t i = 0; i < h->msg_iovlen && left; ++i) { iovec x = h->msg_iov[i]; x.iov_len = std::min(x.iov_len, left); left -= x.iov_len; v.push_back(x); } msghdr k = *h; k.msg_iov = v.data(); k.msg_iovlen = v.size(); return syscall(SYS_sendmsg, fd, &k, flags);
}
extern "C" ssize_t send(int fd, const void *b, size_t n, int flags) { iovec v = {(void*)b, n}; msghdr h; memset(&h, 0, sizeof h); h.msg_iov = &v; h.msg_iovlen = 1; return sendmsg(fd, &h, flags); }

/// one direction of a connection
struct Way { std::string sent; size_t got; size_t safe; Op op; bool writing; std::string out; Way() : got(0), safe(0), writing(false) {} };
struct Reading { Op op; bool on; size_t least, most; bool own; std::vector<char> buf, buf2; Reading() : on(false), least(0), most(0), own(false) {} };
static void transfer(pbt::Src& s, pbt::Case& c) {
    boost::asio::io_service io; net::Pair pair; bool tls = s.chance(1, 3); std::ostringstream d; d << (tls ? "TLS:" : "plain:"); c.label(tls ? "TLS" : "plain"); std::shared_ptr<boost::asio::ssl::context> ctx(new boost::asio::ssl::context(io, boost::asio::ssl::context::sslv23));
    int finished = 0; pion::tcp::connection_ptr k[2]; pion::tcp::connection_ptr told; pion::tcp::connection::connection_handler done = [&](const pion::tcp::connection_ptr& p) { ++finished; told = p; };
    if (tls) { ctx->use_certificate_file(pem(), boost::asio::ssl::context::pem); ctx->use_private_key_file(pem(), boost::asio::ssl::context::pem); }
    k[0].reset(new pion::tcp::connection(io, tls)); bool created = s.flip(); if (created) k[1] = pion::tcp::connection::create(io, *ctx, tls, done); else if (tls) k[1].reset(new pion::tcp::connection(io, *ctx)); else k[1].reset(new pion::tcp::connection(io));
    struct Restore { ~Restore() { g_short[0] = g_short[1] = -1; g_take = 0; } } restore; size_t part = s.flip() ? 1 + s.choose(s.pick({2, 200, 3000})) : 0; bool narrow = s.chance(1, 3); if (part) { c.label("short writes"); d << " (" << part << " at once)"; } if (narrow) { c.label("small buffers"); d << " (small buffers)"; }
    for (int i = 0; i < 2; ++i) { g_short[i] = pair.fd[i]; if (narrow) { int n = 6000; setsockopt(pair.fd[i], SOL_SOCKET, SO_SNDBUF, &n, sizeof n); setsockopt(pair.fd[1 - i], SOL_SOCKET, SO_RCVBUF, &n, sizeof n); } }
    for (int i = 0; i < 2; ++i) { net::adopt(*k[i], pair.fd[i]); PBT_EQ(k[i]->get_ssl_flag(), tls, "encrypted"); PBT_EQ(k[i]->get_lifecycle(), pion::tcp::connection::LIFECYCLE_CLOSE, "life cycle"); }
    if (tls) {
        Op a, b; bool thread = s.chance(1, 8); if (thread) { boost::thread t([&] { b(k[1]->handshake_server()); }); a(k[0]->handshake_client()); t.join(); } else { k[0]->async_handshake_client(std::ref(a)); k[1]->async_handshake_server(std::ref(b)); }
        PBT_CHECK(drive(io, [&] { return a.calls && b.calls; }), "the handshake never finishes"); PBT_CHECK(!a.ec && !b.ec && a.calls == 1 && b.calls == 1, "handshake: " << a.ec.message() << ", " << b.ec.message());
    }
    size_t internal = k[0]->get_read_buffer().size();
    Way w[2]; Reading rd[2]; // w[i]: from k[i]; rd[i]: at k[i], of way 1-i
    auto take = [&](int i, const char *p, size_t n) { Way& y = w[1 - i]; PBT_CHECK(y.got + n <= y.sent.size(), "more bytes than were sent:" << d.str()); if (n && y.sent.compare(y.got, n, p, n)) { size_t x = 0; while (y.sent[y.got + x] == p[x]) ++x; throw pbt::Fail("byte " + std::to_string(y.got + x) + " differs:" + d.str()); } y.got += n; };
    auto finish_read = [&](int i, bool may_fail) { Reading& r = rd[i]; PBT_EQ(r.op.calls, 1, "calls of the read handler:" << d.str()); if (!may_fail) { PBT_CHECK(!r.op.ec, "read: " << r.op.ec.message() << ":" << d.str()); PBT_CHECK(r.op.n >= r.least && r.op.n <= r.most, "read " << r.op.n << " bytes instead of " << r.least << " to " << r.most << ":" << d.str()); }
        std::string g; if (r.own) { g.assign(r.buf.begin(), r.buf.end()); g.append(r.buf2.begin(), r.buf2.end()); } else g.assign(k[i]->get_read_buffer().data(), internal); PBT_CHECK(r.op.n <= g.size(), "too many bytes"); take(i, g.data(), r.op.n); r.on = false; };
    auto poll = [&] { io.reset(); size_t n = io.poll(); for (int i = 0; i < 2; ++i) { if (rd[i].on && rd[i].op.calls) finish_read(i, false); Way& y = w[i]; if (y.writing && y.op.calls) { PBT_EQ(y.op.calls, 1, "calls of the write handler:" << d.str()); PBT_CHECK(!y.op.ec, "write: " << y.op.ec.message() << d.str()); PBT_EQ(y.op.n, y.out.size(), "bytes written:" << d.str()); y.writing = false; y.safe = y.sent.size(); } } return n; };
    auto start_read = [&](int i) {
        Reading& r = rd[i]; r.op = Op(); r.on = true; r.own = s.flip(); size_t a = s.pick({1, 7, 100, 3000}), b = s.chance(1, 3) ? s.pick({1, 50, 20000}) : 0; a = 1 + s.choose(a * 2); r.buf.assign(a, 0); r.buf2.assign(b, 0); size_t cap = r.own ? a + b : internal; unsigned how = s.choose(4); std::vector<boost::asio::mutable_buffer> v; v.push_back(boost::asio::buffer(r.buf)); if (b) v.push_back(boost::asio::buffer(r.buf2));
        if (how == 0) { r.least = 1; r.most = cap; if (r.own) k[i]->async_read_some(v, std::ref(r.op)); else k[i]->async_read_some(std::ref(r.op)); d << " areadsome" << i; }
        else if (how == 1) { size_t n = 1 + s.choose(cap); r.least = n; r.most = cap; if (r.own) k[i]->async_read(v, boost::asio::transfer_at_least(n), std::ref(r.op)); else k[i]->async_read(boost::asio::transfer_at_least(n), std::ref(r.op)); d << " aread" << i << ">=" << n; }
        else if (how == 2) { size_t n = 1 + s.choose(cap); r.least = r.most = n; if (r.own) k[i]->async_read(v, boost::asio::transfer_exactly(n), std::ref(r.op)); else k[i]->async_read(boost::asio::transfer_exactly(n), std::ref(r.op)); d << " aread" << i << "=" << n; }
        else { r.least = r.most = cap; if (r.own) k[i]->async_read(v, boost::asio::transfer_all(), std::ref(r.op)); else k[i]->async_read(boost::asio::transfer_all(), std::ref(r.op)); d << " aread" << i << " all " << cap; }
    };
    auto blocking_read = [&](int i) {
        Reading& r = rd[i]; size_t have = w[1 - i].safe - w[1 - i].got; if (!have || r.on || w[1 - i].writing) return; EC ec; size_t n; r.own = s.flip(); r.buf.assign(1 + s.choose(s.pick({10, 3000})), 0); r.buf2.assign(s.choose(100), 0); r.on = true; r.op = Op(); size_t cap = r.own ? r.buf.size() + r.buf2.size() : internal, upto = std::min(have, cap);
        std::vector<boost::asio::mutable_buffer> v; v.push_back(boost::asio::buffer(r.buf)); v.push_back(boost::asio::buffer(r.buf2)); unsigned how = s.choose(3); r.most = cap;
        if (how == 0) { r.least = 1; n = r.own ? k[i]->read_some(v, ec) : k[i]->read_some(ec); d << " readsome" << i; }
        else if (how == 1) { r.least = 1 + s.choose(upto); n = r.own ? k[i]->read(v, boost::asio::transfer_at_least(r.least), ec) : k[i]->read(boost::asio::transfer_at_least(r.least), ec); d << " read" << i << ">=" << r.least; }
        else { r.least = r.most = 1 + s.choose(upto); n = r.own ? k[i]->read(v, boost::asio::transfer_exactly(r.least), ec) : k[i]->read(boost::asio::transfer_exactly(r.least), ec); d << " read" << i << "=" << r.least; }
        r.op(ec, n); finish_read(i, false);
    };
    size_t ops = 2 + s.choose(24); bool cancelled = false, big = s.chance(1, 4);
    for (size_t o = 0; o < ops; ++o) { int i = s.choose(2); Way& y = w[i]; switch (s.weighted({5, 4, 5, 4, 5, 1, 1})) {
        case 0: case 1: {
            if (y.writing) break; bool async = narrow || s.flip(); size_t n = 1 + s.choose(big && async ? 120000 : 2000); size_t room = part ? std::min((size_t)30000, part * 300) : 30000; if (!async && y.sent.size() - y.got + n > room) async = true;   // a write that blocks would block the check
            std::string t; unsigned seed = s.choose(1 << 30); while (t.size() < n) { seed = seed * 1664525u + 1013904223u; t += (char)(seed >> 24); }
            y.out = t; y.sent += t; y.op = Op(); std::vector<boost::asio::const_buffer> v; size_t at = s.flip() ? s.choose(n) : 0; v.push_back(boost::asio::buffer(y.out.data(), at)); v.push_back(boost::asio::buffer(y.out.data() + at, n - at));
            d << (async ? " awrite" : " write") << i << ":" << n; if (async) { y.writing = true; k[i]->async_write(v, std::ref(y.op)); } else { EC ec; g_take = part; size_t r = k[i]->write(v, ec); g_take = 0; PBT_CHECK(!ec, "write: " << ec.message()); PBT_EQ(r, n, "bytes written:" << d.str()); y.safe = y.sent.size(); } break; }
        case 2: if (!rd[i].on) start_read(i); break;
        case 3: blocking_read(i); break;
        case 4: poll(); d << " poll"; break;
        case 5: { // operations that were cancelled finish once, and nothing is lost
            if (tls || w[i].writing) break; d << " cancel" << i; poll(); if (w[i].writing) break; bool on = rd[i].on; k[i]->cancel(); cancelled = cancelled || on; if (on) { PBT_CHECK(drive(io, [&] { return rd[i].op.calls > 0; }), "a cancelled read never finishes:" << d.str()); PBT_CHECK(!rd[i].op.ec || rd[i].op.ec == boost::asio::error::operation_aborted, "cancelled read: " << rd[i].op.ec.message()); finish_read(i, true); } break; }
        case 6: { auto t = s.pick({pion::tcp::connection::LIFECYCLE_CLOSE, pion::tcp::connection::LIFECYCLE_KEEPALIVE, pion::tcp::connection::LIFECYCLE_PIPELINED}); k[i]->set_lifecycle(t); PBT_EQ(k[i]->get_lifecycle(), t, ""); PBT_EQ(k[i]->get_keep_alive(), t != pion::tcp::connection::LIFECYCLE_CLOSE, ""); PBT_EQ(k[i]->get_pipelined(), t == pion::tcp::connection::LIFECYCLE_PIPELINED, ""); const char *p = k[i]->get_read_buffer().data() + s.choose(10), *q = p + s.choose(100), *a, *b; k[i]->save_read_pos(p, q); k[i]->load_read_pos(a, b); PBT_CHECK(a == p && b == q, "read position"); break; }
    } }
    // everything that was written arrives
    for (int i = 0; i < 2; ++i) { Way& y = w[1 - i]; for (int idle = 0; y.writing || (y.got < y.sent.size() && !(rd[i].on && rd[i].least > y.sent.size() - y.got)); ++idle) { PBT_CHECK(idle < 4000, "only " << y.got << " of " << y.sent.size() << " bytes arrive:" << d.str()); size_t before = y.got; if (!rd[i].on) { Reading& r = rd[i]; r.op = Op(); r.on = true; r.own = false; r.least = 1; r.most = internal; k[i]->async_read_some(std::ref(r.op)); } if (poll() || y.got != before) idle = 0; else usleep(idle < 100 ? 50 : 2000); } }
    int closer = s.choose(2), other = 1 - closer; unsigned how = s.choose(2); d << (how ? " shutdown" : " close") << closer; bool own_read = rd[closer].on; if (how) k[closer]->shutdown(); else k[closer]->close(); PBT_EQ(k[closer]->is_open(), how == 1, "open:" << d.str());
    // reads that were pending, on either side, fail after what there was
    if (!rd[other].on && s.flip()) start_read(other);
    for (int i = 0; i < 2; ++i) if (rd[i].on) { PBT_CHECK(drive(io, [&] { return rd[i].op.calls > 0; }), "a read never finishes after the end:" << d.str()); PBT_CHECK(rd[i].op.ec, "a read of " << rd[i].least << " succeeds after the end:" << d.str()); if (i == other) finish_read(i, true); else { PBT_EQ(rd[i].op.calls, 1, "calls of the read handler:" << d.str()); rd[i].on = false; } }
    PBT_EQ(w[closer].got, w[closer].sent.size(), "bytes received at the end:" << d.str()); (void)own_read; EC ec; size_t n = k[other]->read_some(ec); PBT_CHECK(ec && n == 0, "reads after the end:" << d.str()); n = k[closer]->write(boost::asio::buffer("x", 1), ec); PBT_CHECK(ec, "writes after the end:" << d.str());
    size_t total = w[0].sent.size() + w[1].sent.size(); k[1]->finish(); PBT_EQ(finished, created ? 1 : 0, "finish handler"); if (created) PBT_CHECK(told == k[1], "finished connection"); told.reset(); k[1]->close(); k[1]->close(); k[0]->close(); PBT_CHECK(!k[0]->is_open() && !k[1]->is_open(), "open after close"); io.reset(); io.poll(); for (int i = 0; i < 2; ++i) PBT_CHECK(rd[i].op.calls <= 1 && w[i].op.calls <= 1, "a handler was called again:" << d.str());
    c.note(d.str()); c.key(d.str()); c.nontrivial(total > 100 && ops > 4); if (cancelled) c.label("cancelled"); if (big) c.label("big");
}

/// operations that take too long are cancelled after the given time, and only those
static void timers(pbt::Src& s, pbt::Case& c) {
    boost::asio::io_service io; size_t n = 4 + s.choose(20); struct One { net::Pair pair; net::Client peer; pion::tcp::connection_ptr conn; pion::tcp::timer_ptr timer; Op op; unsigned secs, data_ms, cancel_ms; double done; bool sent, cancelled; One() : secs(0), data_ms(0), cancel_ms(0), done(-1), sent(false), cancelled(false) {} };
    std::vector<std::unique_ptr<One> > v; const unsigned NEVER = 100000; std::ostringstream d; auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }; double t0 = now(), last = t0;
    for (size_t i = 0; i < n; ++i) { std::unique_ptr<One> o(new One); o->conn.reset(new pion::tcp::connection(io)); net::adopt(*o->conn, o->pair.fd[0]); o->peer.fd = o->pair.fd[1]; o->pair.fd[1] = -1; o->secs = s.choose(3); o->data_ms = s.pick({200u, 1500u, NEVER, NEVER}); o->cancel_ms = s.pick({0u, 300u, NEVER, NEVER, NEVER}); if (o->data_ms == NEVER && o->cancel_ms != NEVER && s.flip()) o->data_ms = 2600;
        d << " " << o->secs << "s"; if (o->cancel_ms != NEVER) d << "/cancel" << o->cancel_ms; if (o->data_ms != NEVER) d << "/data" << o->data_ms; o->timer.reset(new pion::tcp::timer(o->conn)); One *p = o.get(); o->conn->async_read_some([p, now](const EC& e, size_t k) { p->op(e, k); p->done = now(); }); o->timer->start(o->secs); v.push_back(std::move(o)); }
    while (now() - t0 < 3.2) { io.reset(); io.poll(); if (now() - last > 0.15) throw pbt::Discard(); last = now(); double ms = (last - t0) * 1000;   // suspended for too long
        for (auto& o : v) { if (!o->cancelled && o->cancel_ms != NEVER && ms >= o->cancel_ms) { o->timer->cancel(); o->cancelled = true; if (ms < o->secs * 1000 - 200) { boost::weak_ptr<pion::tcp::timer> left = o->timer; o->timer.reset(); io.reset(); io.poll(); PBT_CHECK(left.expired(), "a cancelled timer is kept until it would have fired"); } } if (!o->sent && o->data_ms != NEVER && ms >= o->data_ms) { o->sent = true; if (o->op.calls == 0) o->peer.send("hello"); } } usleep(2000); }
    for (auto& o : v) {
        std::ostringstream w; w << "timer of " << o->secs << " s"; if (o->cancel_ms != NEVER) w << ", cancelled after " << o->cancel_ms << " ms"; if (o->data_ms != NEVER) w << ", data after " << o->data_ms << " ms"; PBT_CHECK(o->op.calls <= 1, "read finished twice: " << w.str());
        bool fires = !(o->cancel_ms != NEVER && o->cancel_ms < o->secs * 1000) && !(o->cancel_ms == 0 && o->secs == 0) && o->data_ms > o->secs * 1000; double at = o->done - t0; if (o->cancel_ms == 0 && o->secs == 0) { continue; }
        if (fires) { PBT_CHECK(o->op.calls == 1 && o->op.ec == boost::asio::error::operation_aborted, "operation was not cancelled: " << w.str()); PBT_CHECK(at >= o->secs - 0.01 && at < o->secs + 0.9, "cancelled after " << at << " s: " << w.str()); PBT_CHECK(o->conn->is_open(), "connection closed: " << w.str()); }
        else if (o->data_ms != NEVER) { PBT_CHECK(o->op.calls == 1 && !o->op.ec && o->op.n == 5, "operation was cancelled: " << w.str()); }
        else PBT_CHECK(o->op.calls == 0, "operation was cancelled by a cancelled timer: " << w.str());
    }
    for (auto& o : v) o->conn->close(); io.reset(); io.poll(); c.note(d.str()); c.key(d.str()); c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P35"; cfg.level = "exploration";
    cfg.rule = "connecting: at least one connection is made; transfer: more than 4 operations and 100 bytes; distinct by history";
    cfg.assumptions = {"one thread drives the connections (P30 covers several)", "transfers use socket pairs, connections the loopback network with names resolved by the check", "each timer is started once"};
    cfg.subs = {{"connecting", connecting, 8000, 200000, 30, 3, 3, 0}, {"transfer", transfer, 20000, 600000, 30, 3, 3, 0}, {"timers", timers, 24, 300, 60, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
