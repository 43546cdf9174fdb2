// User manager histories against a map model; concurrent lookups while passwords change.
// BUILD: hot
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/user.hpp>
#include <openssl/sha.h>
#include <atomic>
#include <thread>
using namespace pion;

static std::string hex(const unsigned char *p, size_t n, bool upper) { std::string o; char b[3]; while (n--) { snprintf(b, 3, upper ? "%02X" : "%02x", *p++); o += b; } return o; }
static std::string sha256(const std::string& s, bool up = false) { unsigned char d[32]; SHA256((const unsigned char*)s.data(), s.size(), d); return hex(d, 32, up); }
static std::string sha1(const std::string& s, bool up = false) { unsigned char d[20]; SHA1((const unsigned char*)s.data(), s.size(), d); return hex(d, 20, up); }

/// passwords whose hash contains a zero byte early on
static const std::vector<std::string>& zero_pw() { static std::vector<std::string> v; if (v.empty()) for (int i = 0; v.size() < 12; ++i) { std::string p = "pw" + std::to_string(i); std::string h = (i & 1) ? sha1(p) : sha256(p); if (h.compare(0, 2, "00") == 0 || (v.size() > 7 && h.compare(2, 2, "00") == 0)) v.push_back(p); } return v; }
static std::string pw(pbt::Src& s) {
    switch (s.choose(6)) { case 5: return s.pick(zero_pw()); case 0: return s.pick({std::string("secret"), std::string("Secret"), std::string("secret "), std::string("secre"), std::string()}); case 1: return s.bytes(s.len(80)); case 2: { std::string a = s.of("ab", s.choose(4)); a += std::string(1, '\0'); a += s.of("xy", s.choose(3)); return a; }
        case 3: return s.pick({sha256("secret"), sha1("secret")}); default: return s.of("abc", 1 + s.choose(4)); }
}
static std::string near(pbt::Src& s, const std::string& p) {   // close misses
    std::string q = p; switch (s.choose(6)) { case 0: return q + std::string(1, '\0'); case 1: if (!q.empty()) q.resize(q.size() - 1); return q; case 2: if (!q.empty()) q[s.choose(q.size())] ^= 0x20; return q; case 3: return q + "x"; case 4: if (!q.empty()) { size_t k = s.choose(q.size()); q[k] ^= (char)(1 << s.choose(8)); } return q; default: return q.c_str(); }
}
struct U { int kind; std::string pw; user_ptr handle; };   // kind 0: plain, 1: sha256 given, 2: sha1 given, 3: cannot match (no preimage known)

static void history(pbt::Src& s, pbt::Case& c) {
    user_manager um; std::map<std::string, U> m; std::string log; size_t n = 1 + s.len(25); c.nontrivial(n >= 4);
    std::vector<std::pair<user_ptr, std::string> > detached;   // handles of removed users
    static const char *N[] = {"alice", "Alice", "alic", "alice ", "bob", ""};
    for (size_t i = 0; i < n; ++i) {
        std::string u = s.chance(7, 8) ? std::string(s.pick(N)) : s.bytes(s.choose(4)), p = pw(s); size_t op = s.choose(6); bool have = m.count(u); std::ostringstream o; o << " op" << op << "(" << pbt::show(u, 20) << "," << pbt::show(p, 20) << ")"; bool up = s.flip();
        switch (op) {
            case 0: PBT_EQ(um.add_user(u, p), !have, "add" << log); if (!have) m[u] = U{0, p, user_ptr()}; break;
            case 1: PBT_EQ(um.update_user(u, p), have, "update" << log); if (have) { m[u].kind = 0; m[u].pw = p; } break;
            case 2: PBT_EQ(um.remove_user(u), have, "remove" << log); m.erase(u); break;
            case 3: { bool one = s.flip(); PBT_EQ(um.add_user_hash(u, one ? sha1(p, up) : sha256(p, up)), !have, "add hash" << log); if (!have) m[u] = U{one ? 2 : 1, p, user_ptr()}; break; }
            case 4: { bool one = s.flip(); PBT_EQ(um.update_user_hash(u, one ? sha1(p, up) : sha256(p, up)), have, "update hash" << log); if (have) { m[u].kind = one ? 2 : 1; m[u].pw = p; } break; }
            default: { // malformed hash: refused, and nothing changes
                std::string h = s.flip() ? sha256(p) : sha1(p);
                switch (s.choose(5)) { case 0: h += "0"; break; case 1: h.resize(h.size() - 1 - s.choose(h.size())); break; case 2: h[s.choose(h.size())] = s.pick({'g', '-', ' ', 'x', '\0', '+', 'G', '/', ':', '@', '`'}); break; case 3: { size_t k = 2 * s.choose(h.size() / 2); h[k] = '-'; break; } default: h = p.size() == 40 || p.size() == 64 ? "x" : p; break; }
                if ((h.size() == 40 || h.size() == 64) && h.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos) h = "00";
                bool threw = false, r = false; bool add = s.flip(); o << "hash=" << pbt::show(h, 70); c.label("malformed hash");
                try { r = add ? um.add_user_hash(u, h) : um.update_user_hash(u, h); } catch (error::bad_password_hash&) { threw = true; }
                if (add ? have : !have) PBT_CHECK(!r && !threw, "existence not reported"); else PBT_CHECK(threw, "malformed hash accepted: " << pbt::show(h, 70));
            }
        }
        log += o.str();
        PBT_EQ(um.empty(), m.empty(), "empty");
        for (auto& x : m) {
            U& e = x.second; user_ptr h = um.get_user(x.first); PBT_CHECK(h, "user missing" << log); PBT_EQ(h->get_username(), x.first, "name");
            if (!e.handle) e.handle = h;
            PBT_CHECK(h->match_password(e.pw), "current password does not match" << log); PBT_CHECK(um.get_user(x.first, e.pw) == h, "lookup with the current password" << log);
            if (e.kind == 0) PBT_EQ(h->get_password(), sha256(e.pw), "stored credentials"); else PBT_EQ(h->get_password().size(), e.kind == 1 ? 64u : 40u, "stored hash");
            std::string q = near(s, e.pw), q2 = pw(s), q3 = h->get_password();
            for (auto& z : {q, q2, q3}) if (z != e.pw) { PBT_CHECK(!h->match_password(z), "wrong password " << pbt::show(z) << " matches, right one is " << pbt::show(e.pw) << log); PBT_CHECK(!um.get_user(x.first, z), "lookup with wrong password" << log); }
        }
        for (const char *a : N) if (!m.count(a)) { PBT_CHECK(!um.get_user(a), "absent user found" << log); PBT_CHECK(!um.get_user(a, p), "absent user authenticated" << log); }
    }
    c.note(log); c.key(log);
}
static void direct(pbt::Src& s, pbt::Case& c) {
    std::string p = pw(s), n = pw(s), q = near(s, p); c.note(pbt::show(p) + " vs " + pbt::show(q)); c.key(p + "|" + q + "|" + n); c.nontrivial(p != q);
    user u(n); PBT_EQ(u.get_username(), n, ""); PBT_CHECK(!u.match_password(p), "user without a password authenticates"); PBT_CHECK(!u.match_password(""), "user without a password authenticates with an empty one");
    u.set_password(p); PBT_CHECK(u.match_password(p), "own password"); PBT_EQ(u.match_password(q), p == q, "other password");
    user v(n, p); PBT_CHECK(v.match_password(p), ""); PBT_EQ(v.get_password(), sha256(p), "");
    v.set_password_hash(sha1(q)); PBT_CHECK(v.match_password(q), "sha1"); PBT_EQ(v.match_password(p), p == q, "sha1 other");
    // a hash that differs anywhere from that of the password
    for (int one = 0; one < 2; ++one) { std::string h = one ? sha1(p) : sha256(p); size_t k = s.choose(h.size()); char was = h[k]; h[k] = "0123456789abcdef"[s.choose(16)]; user w(n); w.set_password_hash(h); PBT_EQ(w.match_password(p), h[k] == was, "password against a hash that differs in digit " << k << " of " << h.size()); PBT_EQ(w.get_password(), h, "hash that was set"); }
    v.set_password_hash(sha256(q, true)); PBT_CHECK(v.match_password(q), "sha256 upper"); u.set_password_hash(v.get_password()); PBT_CHECK(u.match_password(q), "hash copied");
}
static void concurrent(pbt::Src& s, pbt::Case& c) {
    user_manager um; std::atomic<bool> stop(false); std::atomic<int> bad(0); size_t n = 2 + s.choose(3), ops = 50 + s.choose(200); um.add_user("keep", "pw"); c.note(std::to_string(n) + " threads x " + std::to_string(ops)); c.key(c.m_note); c.nontrivial();
    std::vector<std::thread> th; std::atomic<int> added(0), removed(0);
    for (size_t t = 0; t < n; ++t) th.push_back(std::thread([&, t] { std::string mine = "u" + std::to_string(t); for (size_t i = 0; i < ops; ++i) {
        if (!um.get_user("keep", "pw") || um.get_user("keep", "no")) ++bad;
        if (um.add_user("shared", "x")) ++added; if (um.remove_user("shared")) ++removed;
        if (!um.add_user(mine, "a") || !um.get_user(mine, "a") || !um.update_user(mine, "b") || um.get_user(mine, "a") || !um.get_user(mine, "b") || !um.remove_user(mine) || um.get_user(mine)) ++bad;
    } }));
    for (auto& t : th) t.join(); PBT_EQ(bad.load(), 0, "threads saw a wrong answer"); PBT_EQ(added.load(), removed.load() + (um.get_user("shared") ? 1 : 0), "adds and removes of one user do not match");
}
int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P12"; cfg.level = "exploration"; cfg.rule = "history of at least four operations (direct: two different passwords); distinct by history";
    cfg.assumptions = {"built with SSL support, as the project's default build is", "no SHA collision is met"};
    cfg.subs = {{"history", history, 100000, 1500000, 20, 3, 3, 0}, {"direct", direct, 100000, 1500000, 20, 3, 3, 0}, {"concurrent", concurrent, 300, 4000, 60, 10, 2, 2}};
    return pbt::main(argc, argv, cfg);
}
