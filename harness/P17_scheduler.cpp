// Scheduler: histories of start / post / users / shutdown with real threads and random delays.
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/scheduler.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <memory>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
using namespace pion;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void pause_us(unsigned us) { if (!us) return; if (us == 1) { sched_yield(); return; } usleep(us); }
template <typename F> static bool wait_for(F f, double secs = 20) { for (double i = 0; !f(); ++i) { if (i * 1e-4 > secs) return false; usleep(100); } return true; }   // counts steps, so that being suspended does not matter

struct Item { std::atomic<int> runs; int kind; unsigned delay; bool must; Item() : runs(0), kind(0), delay(0), must(false) {} };
struct World {
    std::vector<std::unique_ptr<Item> > items; scheduler *s; World() : s(NULL) {}
};
static void work(World *w, Item *it, Item *child) {
    it->runs++; pause_us(it->delay);
    if (it->kind == 1) throw std::runtime_error("work failed");
    if (it->kind == 2) throw 42;
    if (it->kind == 3 && child) w->s->post(boost::bind(&work, w, child, (Item*)NULL));
}
typedef std::shared_ptr<std::atomic<int> > Count;
static void meet(Count m, Item *it, int n) { it->runs++; ++*m; double t = now(); while (*m < n && now() - t < 20) usleep(50); }

static scheduler *make(pbt::Src& s, pbt::Case& c) { bool one = s.flip(); c.label(one ? "one_to_one" : "single_service"); if (one) return new one_to_one_scheduler; return new single_service_scheduler; }

static void history(pbt::Src& s, pbt::Case& c) {
    World w; std::unique_ptr<scheduler> sch(make(s, c)); w.s = sch.get(); unsigned n = 1 + s.choose(6); sch->set_num_threads(n); PBT_EQ(sch->get_num_threads(), n, "");
    bool running = false, fresh = true; int users = 0; size_t restarts = 0, from = 0; std::ostringstream d; d << n << " threads:";
    bool single = dynamic_cast<single_service_scheduler*>(sch.get()) != NULL;
    auto post = [&](int kind, unsigned delay) { Item *it = new Item, *ch = NULL; it->kind = kind; it->delay = delay; it->must = true; w.items.emplace_back(it); if (kind == 3) { ch = new Item; ch->must = true; w.items.emplace_back(ch); } sch->post(boost::bind(&work, &w, it, ch)); };
    auto settle = [&](const char *when) {
        for (auto& i : w.items) if (i->must) { Item *it = i.get(); PBT_CHECK(wait_for([&] { return it->runs > 0; }), "work of kind " << it->kind << " was never executed (" << when << "): " << (single ? "single " : "one ") << d.str()); }
        for (auto& i : w.items) PBT_CHECK(i->runs <= 1, "work executed " << i->runs << " times: " << d.str());
        for (auto& i : w.items) i->must = false;
    };
    size_t ops = 2 + s.choose(14);
    for (size_t o = 0; o < ops; ++o) switch (s.weighted({3, 6, 4, 3, 1, 2, 1, 1})) {
        case 0: d << " start"; sch->startup(); running = true; fresh = false; PBT_CHECK(sch->is_running(), "not running after startup"); break;
        case 1: { size_t k = 1 + s.choose(s.chance(1, 6) ? 40 : 6); if (!running && !fresh && !single) break; d << " post" << k << (running ? "" : "(stopped)"); while (k--) post(s.weighted({5, 1, 1, running ? 2u : 0u}), s.pick({0u, 0u, 1u, 30u, 300u})); break; }
        case 2: if (running) { d << " settle"; settle("after waiting"); } break;
        case 3: {
            if (!running) { if (s.flip()) { d << " shutdown(stopped)"; sch->shutdown(); if (!single) for (auto& i : w.items) i->must = false; fresh = fresh && single; } break; }
            bool quiet = s.flip(); if (quiet) settle("before shutdown");
            d << " shutdown" << (users ? "(users)" : "");
            std::atomic<int> left(users); std::atomic<bool> all_left(false); boost::thread leaver; int u = users; unsigned dl = s.pick({0u, 1u, 200u, 2000u});
            if (users) leaver = boost::thread([&, u, dl] { for (int i = 0; i < u; ++i) { pause_us(dl); if (i + 1 == u) all_left = true; sch->remove_active_user(); } });
            sch->shutdown(); PBT_CHECK(!u || all_left, "shutdown returned while users were active"); if (u) leaver.join(); users = 0;
            running = false; ++restarts; PBT_CHECK(!sch->is_running(), "running after shutdown");
            std::vector<int> r; for (auto& i : w.items) { PBT_CHECK(i->runs <= 1, "executed twice"); r.push_back(i->runs); } usleep(300); size_t q = 0; for (auto& i : w.items) PBT_EQ((int)i->runs, r[q++], "work executed after shutdown returned");
            for (auto& i : w.items) i->must = false;   // overtaken by shutdown
            sch->join(); break; }
        case 4: if (running && !users) { // join returns when somebody shuts the scheduler down
            d << " join"; settle("before join"); std::atomic<bool> ret(false); boost::thread a([&] { sch->join(); ret = true; }); usleep(s.pick({0, 100, 1000})); PBT_CHECK(!ret, "join returned while running"); sch->shutdown(); PBT_CHECK(wait_for([&] { return (bool)ret; }), "join did not return after shutdown"); a.join(); running = false; ++restarts; } break;
        case 5: d << " user"; sch->add_active_user(); ++users; running = true; fresh = false; PBT_CHECK(sch->is_running(), "not running with an active user"); break;
        case 6: if (!running) { unsigned k = 1 + s.choose(6); if (!single && !fresh) {} if (fresh && !single && !w.items.empty()) break; n = k; sch->set_num_threads(n); d << " threads" << n; } break;
        case 7: if (running) { // n pieces of work at the same time
            settle("before meeting"); d << " meet"; Count m(new std::atomic<int>(0)); std::vector<Item*> mine; for (unsigned i = 0; i < n; ++i) { Item *it = new Item; w.items.emplace_back(it); mine.push_back(it); sch->post(boost::bind(&meet, m, it, (int)n)); }
            PBT_CHECK(wait_for([&] { return *m >= (int)n; }, 15), "only " << *m << " of " << n << " threads work: " << (single ? "single " : "one ") << d.str()); for (Item *it : mine) it->must = true; settle("meeting"); } break;
    }
    if (running) { settle("at the end"); while (users--) sch->remove_active_user(); }
    sch.reset(); for (auto& i : w.items) PBT_CHECK(i->runs <= 1, "executed twice");
    c.note(d.str()); c.nontrivial(w.items.size() >= 3); if (restarts) c.label("shutdown"); if (restarts > 1) c.label("restarted"); c.key(d.str() + std::to_string(w.items.size()));
}

/// users register, work and leave while others shut the scheduler down again and again
static void users(pbt::Src& s, pbt::Case& c) {
    std::unique_ptr<scheduler> sch(make(s, c)); unsigned n = 1 + s.choose(4), nt = 1 + s.choose(4), rounds = 1 + s.choose(6), downs = 1 + s.choose(6); sch->set_num_threads(n); if (s.flip()) sch->startup();
    std::atomic<int> bad(0), lost(0), done(0); std::vector<boost::thread> t; std::vector<std::vector<unsigned> > dl(nt + 1); for (auto& v : dl) for (unsigned i = 0; i < 24; ++i) v.push_back(s.pick({0u, 0u, 1u, 20u, 100u}));
    unsigned per = 1 + s.choose(4); scheduler *p = sch.get();
    for (unsigned k = 0; k < nt; ++k) t.push_back(boost::thread([&, k, p] {
        for (unsigned r = 0; r < rounds; ++r) {
            pause_us(dl[k][(r * 3) % 24]); p->add_active_user(); if (!p->is_running()) ++bad;
            std::shared_ptr<std::atomic<unsigned> > cnt(new std::atomic<unsigned>(0));
            for (unsigned i = 0; i < per; ++i) { p->post([cnt] { ++*cnt; }); pause_us(dl[k][(r * 3 + 1) % 24]); }
            if (!wait_for([&] { return *cnt >= per; }, 15)) ++lost;
            if (*cnt > per) ++bad; pause_us(dl[k][(r * 3 + 2) % 24]); if (!p->is_running()) ++bad; p->remove_active_user(); ++done;
        } }));
    for (unsigned i = 0; i < downs; ++i) { pause_us(dl[nt][i] * 3); sch->shutdown(); }
    for (auto& x : t) x.join(); std::ostringstream d; d << n << " threads, " << nt << " users x " << rounds << " rounds x " << per << " posts, " << downs << " shutdowns"; c.note(d.str()); c.nontrivial(nt > 1 || downs > 1);
    PBT_EQ((int)lost, 0, "work of active users lost: " << d.str()); PBT_EQ((int)bad, 0, "scheduler stopped under an active user: " << d.str()); PBT_EQ((int)done, (int)(nt * rounds), "");
    sch->shutdown(); sch->startup(); std::atomic<bool> ok(false); sch->post([&] { ok = true; }); PBT_CHECK(wait_for([&] { return (bool)ok; }), "no work executed after restart: " << d.str()); sch->shutdown();
}

/// workers post follow-up work without end while the scheduler is shut down
static void chain(scheduler *p, std::atomic<int> *n, std::atomic<bool> *stop, unsigned us) { ++*n; pause_us(us); if (!*stop) p->post(boost::bind(&chain, p, n, stop, us)); }
static void self_posting(pbt::Src& s, pbt::Case& c) {
    std::atomic<int> n(0); std::atomic<bool> stop(false); std::unique_ptr<scheduler> sch(make(s, c)); unsigned th = 1 + s.choose(4), k = 1 + s.choose(6); sch->set_num_threads(th);
    size_t rounds = 1 + s.choose(3); for (size_t r = 0; r < rounds; ++r) {
        sch->startup(); unsigned us = s.pick({0u, 1u, 20u, 60u}); for (unsigned i = 0; i < k; ++i) sch->post(boost::bind(&chain, sch.get(), &n, &stop, us));
        PBT_CHECK(wait_for([&] { return n > 0; }), "no work executed"); pause_us(s.pick({0u, 1u, 200u, 1000u}));
        sch->shutdown(); int a = n; usleep(300); PBT_EQ((int)n, a, "work executed after shutdown"); PBT_CHECK(!sch->is_running(), ""); n = 0; sch.reset(); sch.reset(make(s, c)); sch->set_num_threads(th);
    }
    c.note(std::to_string(th) + " threads, " + std::to_string(k) + " chains, " + std::to_string(rounds) + " rounds"); c.nontrivial();
}

/// a scheduler without work neither spins nor dies; work posted after a long pause is executed
static void idle(pbt::Src& s, pbt::Case& c) {
    std::unique_ptr<scheduler> sch(make(s, c)); unsigned th = 1 + s.choose(3); sch->set_num_threads(th); size_t restarts = s.choose(3); for (size_t i = 0; i <= restarts; ++i) { if (i) { std::atomic<bool> r(false); sch->post([&] { r = true; }); if (s.flip()) PBT_CHECK(wait_for([&] { return (bool)r; }), "lost"); else usleep(1000); sch->shutdown(); } sch->startup(); }
    unsigned ms = 5200 + 5500 * s.choose(2); rusage a, b; getrusage(RUSAGE_SELF, &a); usleep(ms * 1000); getrusage(RUSAGE_SELF, &b); auto cpu = [](const rusage& r) { return r.ru_utime.tv_sec + r.ru_stime.tv_sec + 1e-6 * (r.ru_utime.tv_usec + r.ru_stime.tv_usec); };
    c.note(std::to_string(th) + " threads, " + std::to_string(restarts) + " restarts, idle " + std::to_string(ms) + " ms, CPU " + std::to_string(cpu(b) - cpu(a))); c.nontrivial();
    PBT_CHECK(cpu(b) - cpu(a) < 0.15, "idle scheduler used " << cpu(b) - cpu(a) << " s of CPU time in " << ms << " ms");
    for (int i = 0; i < 6; ++i) { std::atomic<bool> ok(false); sch->post([&] { ok = true; }); PBT_CHECK(wait_for([&] { return (bool)ok; }, 10), "work posted after " << ms << " ms without work was not executed"); }
    double t = now(); sch->shutdown(); PBT_CHECK(now() - t < 4, "shutdown of an idle scheduler took " << now() - t << " s");
}

struct Expose : single_service_scheduler { static boost::system_time wake(boost::uint32_t s, boost::uint32_t n) { return get_wakeup_time(s, n); } };
static void sleeping(pbt::Src& s, pbt::Case& c) {
    boost::uint32_t sec = s.flip() ? s.choose(5) : s.choose(100000), ns = s.flip() ? s.choose(1000) * 1000 : s.choose(4000000000u); boost::system_time a = boost::get_system_time(), w = Expose::wake(sec, ns), b = boost::get_system_time();
    boost::posix_time::time_duration d = boost::posix_time::seconds((long)sec) + boost::posix_time::microseconds((long)(ns / 1000)); c.note(std::to_string(sec) + " s " + std::to_string(ns) + " ns"); c.key(c.m_note); c.nontrivial(ns >= 1000 && sec);
    PBT_CHECK(w >= a + d && w <= b + d, "wakeup time off by " << (w - a - d));
    if (s.chance(1, 300)) { c.label("real sleep"); unsigned us = 1000 + s.choose(20000); double t = now(); scheduler::sleep(0, us * 1000); PBT_CHECK(now() - t >= us * 1e-6 - 0.001, "slept only " << now() - t << " s instead of " << us << " us"); }
    if (s.chance(1, 300)) { c.label("condition"); boost::mutex m; boost::condition cv; bool set = false; double t = now(); boost::thread th([&] { usleep(2000); boost::mutex::scoped_lock l(m); set = true; cv.notify_all(); }); { boost::mutex::scoped_lock l(m); while (!set && now() - t < 20) scheduler::sleep(cv, l, 20, 0); } double e = now() - t; th.join(); PBT_CHECK(e < 10, "condition did not wake the sleeper"); }
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P17"; cfg.level = "exploration";
    cfg.rule = "history: at least 3 pieces of work; users: several users or shutdowns; distinct by operation sequence";
    cfg.assumptions = {"shutdown is called from outside the pool's threads, and the number of threads is only changed while stopped", "work not yet started when shutdown is called without an active user may be dropped", "interleavings are those the OS produces with random delays"};
    cfg.subs = {{"history", history, 16000, 300000, 30, 3, 3, 0}, {"users", users, 10000, 120000, 30, 10, 2, 0}, {"self_posting", self_posting, 3000, 60000, 30, 10, 2, 0}, {"idle", idle, 8, 64, 60, 3, 3, 0}, {"sleeping", sleeping, 60000, 600000, 60, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
