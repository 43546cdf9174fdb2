// process: requests to shut down, from threads and signals at any moment, against every waiting thread; daemonize().
// Everything happens in child processes of the check.
#include "pbt.hpp"
#include <pion/config.hpp>
#include <pion/process.hpp>
#include <boost/thread.hpp>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <dirent.h>
#include <fstream>
using namespace pion;

struct Plan { int waiters; unsigned pause; std::string ignored, requests; bool late, settle; };
static void say(int fd, char c) { while (write(fd, &c, 1) < 0 && errno == EINTR) {} }
/// child: waits in main and in other threads; 'r' on the pipe: ready, 'w' each wait that returned, 'd' all done
static void child(const Plan& p, int up, int down) {
    for (int sig : {SIGINT, SIGTERM, SIGHUP, SIGPIPE, SIGTSTP, SIGTTOU, SIGTTIN, SIGCHLD}) signal(sig, SIG_DFL);   // not as the engine or its caller left them
    process::initialize(); std::vector<boost::thread*> t; for (int i = 0; i < p.waiters; ++i) t.push_back(new boost::thread([&] { process::wait_for_shutdown(); say(up, 'w'); }));
    boost::thread cmd([&] { char c; for (;;) { ssize_t n = read(down, &c, 1); if (n < 0 && errno == EINTR) continue; if (n <= 0 || c == 'q') return; process::shutdown(); } });
    say(up, 'r'); process::wait_for_shutdown(); say(up, 'w'); for (auto x : t) x->join(); if (p.late) { process::wait_for_shutdown(); process::shutdown(); process::wait_for_shutdown(); } say(up, 'd'); _exit(0);
}
static const std::map<char, int>& signals() { static std::map<char, int> m = {{'i', SIGINT}, {'t', SIGTERM}, {'h', SIGHUP}, {'p', SIGPIPE}, {'z', SIGTSTP}, {'o', SIGTTOU}, {'n', SIGTTIN}, {'c', SIGCHLD}}; return m; }
static bool read_until(int fd, std::string& got, char what, size_t count, int ms) { for (int i = 0; i <= ms; ++i) { size_t k = 0; for (char ch : got) if (ch == what) ++k; if (k >= count) return true; pollfd pf = {fd, POLLIN, 0}; if (poll(&pf, 1, 1) > 0) { char b[64]; ssize_t n = read(fd, b, sizeof b); if (n <= 0) { usleep(1000); continue; } got.append(b, n); } } return false; }

static void one(const Plan& p, const std::string& d) {
    int up[2], down[2]; if (pipe(up) || pipe(down)) throw pbt::Discard(); pid_t pid = fork(); if (pid < 0) throw pbt::Discard(); if (!pid) { close(up[0]); close(down[1]); child(p, up[1], down[0]); _exit(3); }
    close(up[1]); close(down[0]); struct Clean { int a, b; pid_t p; ~Clean() { close(a); close(b); if (p > 0) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); } } } clean = {up[0], down[1], pid}; std::string got;
    PBT_CHECK(read_until(up[0], got, 'r', 1, 20000), "child does not start"); for (unsigned i = 0; i < p.pause; ++i) __asm__ volatile("" ::: "memory");
    if (p.settle) { usleep(2000); for (char ch : p.ignored) kill(pid, signals().at(ch)); if (!p.ignored.empty()) usleep(500); read_until(up[0], got, 'w', 1, p.ignored.empty() ? 2 : 300); int st; PBT_CHECK(waitpid(pid, &st, WNOHANG) == 0, "the process ends without a request to shut down: " << d); PBT_CHECK(got.find('w') == std::string::npos, "a wait returns without a request to shut down: " << d); } else for (char ch : p.ignored) kill(pid, signals().at(ch));
    for (char ch : p.requests) { if (ch == 's') say(down[1], 's'); else kill(pid, signals().at(ch)); }
    PBT_CHECK(read_until(up[0], got, 'd', 1, 8000), "after a request to shut down " << std::count(got.begin(), got.end(), 'w') << " of " << p.waiters + 1 << " waits return: " << d); PBT_EQ((int)std::count(got.begin(), got.end(), 'w'), p.waiters + 1, "waits that returned: " << d); int st = 0; waitpid(pid, &st, 0); clean.p = 0; PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ends with status " << st << ": " << d);
}
static void requests(pbt::Src& s, pbt::Case& c) {
    size_t n = 1 + s.choose(6); std::string all; for (size_t i = 0; i < n; ++i) { Plan p; p.waiters = s.choose(4); p.pause = s.choose(s.flip() ? 3000 : 60000); p.late = s.flip(); p.settle = s.chance(1, 3); size_t k = s.chance(1, 3) ? s.choose(4) : 0; while (k--) p.ignored += "hpzonc"[s.choose(6)]; k = 1 + s.choose(s.flip() ? 3 : 12); while (k--) p.requests += "its"[s.choose(3)]; std::string d = std::to_string(p.waiters + 1) + " waiting, " + (p.settle ? "settled, " : "") + p.ignored + " " + p.requests; all += (i ? "; " : "") + d; c.set_note(all); one(p, d); } c.key(all); c.nontrivial();
}

/// detached from the terminal, the session and every descriptor
static void become_daemon(pbt::Src& s, pbt::Case& c) {
    std::string f = pbt::scratch_dir() + "/daemon." + std::to_string(getpid()); unlink(f.c_str()); mode_t um = s.pick({0u, 022u, 077u}); size_t extra = s.choose(30); bool closed = s.chance(1, 3), shut = s.flip(); c.note("umask " + std::to_string(um) + ", " + std::to_string(extra) + " open descriptors" + (closed ? ", standard streams closed" : "")); c.key(std::to_string(um) + "/" + std::to_string(extra) + std::to_string(closed)); c.nontrivial();
    pid_t pid = fork(); if (pid < 0) throw pbt::Discard(); if (!pid) {
        umask(um); if (closed) for (int i = 0; i < 3; ++i) close(i); for (size_t i = 0; i < extra; ++i) if (open("/dev/zero", O_RDONLY) < 0) {} pid_t me = getpid(); if (shut) process::initialize(); process::daemonize(); alarm(30);
        std::string r; mode_t m = umask(0); umask(m); r += "umask=" + std::to_string(m) + " session=" + (getsid(0) == getpid() ? "own" : "other") + " child=" + (getpid() != me ? "yes" : "no"); for (int i = 0; i < 3; ++i) { char b[100]; ssize_t n = readlink(("/proc/self/fd/" + std::to_string(i)).c_str(), b, sizeof b); r += " " + (n > 0 ? std::string(b, n) : std::string("closed")) + ":" + std::to_string(n > 0 ? fcntl(i, F_GETFL) & O_ACCMODE : -1); } int open_fds = 0; for (int i = 3; i < 200; ++i) if (fcntl(i, F_GETFD) >= 0) ++open_fds; r += " others=" + std::to_string(open_fds);
        int o = open((f + ".tmp").c_str(), O_WRONLY | O_CREAT, 0600); if (o >= 0) { if (write(o, r.data(), r.size()) < 0) {} close(o); } rename((f + ".tmp").c_str(), f.c_str()); _exit(0);
    }
    int st = 0; for (int i = 0; waitpid(pid, &st, WNOHANG) == 0; ++i) { if (i > 15000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); PBT_CHECK(false, "daemonize() does not return in the parent"); } usleep(1000); } PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process that calls daemonize() ends with status " << st); std::string got; for (int i = 0; i < 15000; ++i) { std::ifstream in(f.c_str()); if (in) { std::getline(in, got); break; } usleep(1000); } unlink(f.c_str());
    PBT_EQ(got, std::string("umask=") + std::to_string(027) + " session=own child=yes /dev/null:2 /dev/null:2 /dev/null:2 others=0", "state of the daemon");
}

int main(int argc, char **argv) {
    pbt::Config cfg; cfg.property = "P27"; cfg.level = "exploration"; cfg.rule = "a child process was made to shut down by at least one signal or call, or became a daemon; distinct by plan"; cfg.assumptions = {"signals arrive after process::initialize()", "standard input, output and error of a daemon are /dev/null"};
    cfg.subs = {{"requests", requests, 1200, 20000, 90, 12, 2, 32}, {"daemon", become_daemon, 60, 1000, 60, 3, 3, 0}};
    return pbt::main(argc, argv, cfg);
}
