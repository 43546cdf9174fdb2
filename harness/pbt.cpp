#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

extern "C" const char *__asan_default_options() {
    return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:"
           "detect_stack_use_after_return=0:malloc_context_size=12:allow_user_segv_handler=0:quarantine_size_mb=32";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }
extern "C" const char *__tsan_default_options() { return "exitcode=99:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1:detect_deadlocks=0"; }

namespace pbt {

std::string show(const std::string& s, size_t max) {
    static const char *hex = "0123456789abcdef";
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char ch = s[i];
        if (ch == '\n') o += "\\n";
        else if (ch == '\r') o += "\\r";
        else if (ch == '\\') o += "\\\\";
        else if (ch < 32 || ch > 126) { o += "\\x"; o += hex[ch >> 4]; o += hex[ch & 15]; }
        else o += (char)ch;
    }
    if (s.size() > max) { std::ostringstream os; os << "...(" << s.size() << " bytes)"; o += os.str(); }
    return o;
}

static std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct Shm {
    volatile uint64_t sub, idx, start_ns, n_choices, evals, failed, running;
    volatile uint64_t known_n;
    char known[16][96];
    char msg[8192];
    char note[16384];
    uint64_t choices[Src::MAX_CHOICES];
};

static Shm *g_shm = NULL;
static std::set<std::string> g_known;
static std::string g_scratch;
static Config *g_cfg = NULL;

bool known_finding(const std::string& id) { return g_known.count(id) != 0; }
void report_known(const std::string& id) {
    if (!g_shm) return;
    for (uint64_t i = 0; i < g_shm->known_n; ++i) if (id == g_shm->known[i]) return;
    if (g_shm->known_n < 16) { snprintf(g_shm->known[g_shm->known_n], 96, "%s", id.c_str()); g_shm->known_n = g_shm->known_n + 1; }
}
void publish_note(const std::string& s) { if (g_shm) snprintf(g_shm->note, sizeof g_shm->note, "%s", s.c_str()); }
const std::string& scratch_dir() { return g_scratch; }

static uint64_t now_ns() {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double secs_since(uint64_t t) { return (double)(now_ns() - t) / 1e9; }

static Shm *new_shm() {
    void *p = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    memset(p, 0, 4096 * 4);
    return (Shm*)p;
}

struct Stats {
    std::map<std::string, uint64_t> labels;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0, nontrivial = 0, discarded = 0;
};

static uint64_t case_seed(uint64_t seed, const std::string& name, uint64_t idx) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ fnv(name) ^ (idx * 0xd1342543de82ef95ULL);
    splitmix(x); return splitmix(x);
}

/// runs one case in this process; returns true if it passed (false: message in shm)
static bool run_one(const Sub& sub, Src& src, Case& c, Shm *shm, bool& discarded) {
    discarded = false;
    try {
        sub.fn(src, c);
        return true;
    } catch (Discard&) { discarded = true; return true;
    } catch (Fail& f) { snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
    } catch (std::exception& e) { snprintf(shm->msg, sizeof shm->msg, "unexpected exception escaped: %s", show(e.what(), 2000).c_str());
    } catch (...) { snprintf(shm->msg, sizeof shm->msg, "unexpected non-standard exception escaped"); }
    snprintf(shm->note, sizeof shm->note, "%s", c.m_note.c_str());
    return false;
}

static void write_stats(const std::string& path, const std::vector<Stats>& all) {
    std::ofstream f(path.c_str(), std::ios::binary);
    for (size_t i = 0; i < all.size(); ++i) {
        const Stats& s = all[i];
        f << "S " << i << " " << s.evals << " " << s.nontrivial << " " << s.discarded << "\n";
        for (auto& l : s.labels) f << "L " << i << " " << l.second << " " << l.first << "\n";
        for (auto& h : s.distinct) f << "H " << i << " " << h << "\n";
        for (auto& t : s.samples) f << "T " << i << " " << json_str(t) << "\n";
    }
}

struct Opts {
    std::string tier = "quick", evidence, replay_dir = ".", replay, known;
    uint64_t seed = 1; int workers = 0; double scale = 1.0; std::string only; bool trace = false;
    double max_s = 0;
};

static void child_common(const std::string& errfile) {
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    setpgid(0, 0);
    signal(SIGPIPE, SIG_IGN);
    signal(SIGINT, SIG_DFL);
}

static const char *errname(int k, char *buf, size_t n) { snprintf(buf, n, "%s/err.%d", g_scratch.c_str(), k); return buf; }

static std::string err_summary(const std::string& errfile) {
    std::ifstream f(errfile.c_str(), std::ios::binary); std::string line, out; int frames = 0;
    while (std::getline(f, line)) {
        if (line.find("ERROR: ") != std::string::npos || line.find("SUMMARY:") != std::string::npos
            || line.find("runtime error") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos) out += line + "; ";
        else if (line.find("/repo/") != std::string::npos && frames < 6) { out += line.substr(0, 200) + "; "; ++frames; }
        if (out.size() > 3000) break;
    }
    return out;
}

enum Result { RES_OK, RES_FAIL, RES_CRASH, RES_HANG };

/// run a choice sequence in a forked child
static Result run_forked(const Sub& sub, const std::vector<uint64_t>& choices, int size, std::string& msg,
                         std::string& note, std::vector<uint64_t> *used, double timeout) {
    Shm *shm = g_shm;
    shm->failed = 0; shm->n_choices = 0; shm->msg[0] = 0; shm->note[0] = 0;
    char eb[512]; errname(999, eb, sizeof eb);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        child_common(eb);
        if (g_cfg->once_per_process) g_cfg->once_per_process();
        Src src(choices.data(), choices.size(), shm->choices, &shm->n_choices, size);
        Case c(true); bool disc;
        bool ok = run_one(sub, src, c, shm, disc);
        snprintf(shm->note, sizeof shm->note, "%s", c.m_note.c_str());
        shm->failed = ok ? 0 : 1;
        _exit(ok ? 0 : 10);
    }
    uint64_t t0 = now_ns(); int st = 0; Result r;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) { r = (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? RES_OK : (WIFEXITED(st) && WEXITSTATUS(st) == 10) ? RES_FAIL : RES_CRASH; break; }
        if (secs_since(t0) > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); r = RES_HANG; break; }
        usleep(secs_since(t0) < 0.05 ? 500 : 5000);
    }
    kill(-pid, SIGKILL);
    if (r == RES_FAIL) msg = shm->msg;
    else if (r == RES_CRASH) {
        std::ostringstream os; os << "process died: ";
        if (WIFSIGNALED(st)) os << "signal " << WTERMSIG(st) << " "; else os << "exit " << WEXITSTATUS(st) << " ";
        msg = os.str() + err_summary(eb);
    } else if (r == RES_HANG) { std::ostringstream os; os << "no answer within " << timeout << " s (hang or deadlock)"; msg = os.str(); }
    note = shm->note;
    if (used) used->assign(shm->choices, shm->choices + std::min<uint64_t>((uint64_t)shm->n_choices, (uint64_t)Src::MAX_CHOICES));
    return r;
}

/// re-runs the seeded cases from, from+step, ..., idx in one fresh process (for failures that need the
/// state earlier cases left behind); true if it fails again at idx
static bool run_sequence(const Sub& sub, uint64_t seed, uint64_t from, uint64_t step, uint64_t idx, uint64_t n, std::string& msg, std::string& note) {
    Shm *shm = g_shm; shm->msg[0] = 0; shm->note[0] = 0; shm->idx = ~0ULL; shm->start_ns = now_ns();
    char eb[512]; errname(998, eb, sizeof eb);
    pid_t pid = fork();
    if (pid == 0) {
        child_common(eb);
        if (g_cfg->once_per_process) g_cfg->once_per_process();
        for (uint64_t i = from; i <= idx; i += step) {
            shm->idx = i; shm->start_ns = now_ns();
            Src src(case_seed(seed, sub.name, i), shm->choices, &shm->n_choices, (int)(i * 100 / n));
            Case c(i == idx); bool disc;
            if (!run_one(sub, src, c, shm, disc)) _exit(10);
        }
        _exit(0);
    }
    int st = 0; bool hang = false;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (secs_since(shm->start_ns) > sub.timeout + 2) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
        usleep(2000);
    }
    kill(-pid, SIGKILL);
    if (shm->idx != idx || (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0)) return false;
    msg = hang ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 10) ? std::string(shm->msg) : "process died: " + err_summary(eb);
    note = shm->note;
    return true;
}

static void write_replay(const std::string& path, const Sub& sub, const std::vector<uint64_t>& ch, int size, uint64_t seed, uint64_t idx,
                         const std::string& msg, const std::string& note) {
    std::ofstream f(path.c_str(), std::ios::binary);
    f << "property " << g_cfg->property << "\nsub " << sub.name << "\nsize " << size << "\nseed " << seed << "\nindex " << idx << "\nchoices " << ch.size();
    for (size_t i = 0; i < ch.size(); ++i) f << (i % 32 ? ' ' : '\n') << ch[i];
    f << "\nmessage " << show(msg, 4000) << "\ncase " << show(note, 12000) << "\n";
}

static std::vector<uint64_t> shrink(const Sub& sub, std::vector<uint64_t> best, int size, std::string& msg, std::string& note, Result kind, double budget) {
    uint64_t t0 = now_ns();
    double tmo = kind == RES_HANG ? std::min(sub.timeout, 8.0) : sub.timeout;
    auto attempt = [&](std::vector<uint64_t> cand) -> bool {
        if (secs_since(t0) > budget) return false;
        std::string m, n; std::vector<uint64_t> used;
        Result r = run_forked(sub, cand, size, m, n, &used, tmo);
        if (r == RES_OK) return false;
        if (used.size() < cand.size()) cand = used;
        // strip trailing zeros (implied)
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        if (cand.size() > best.size() || (cand.size() == best.size() && !(cand < best))) return false;
        best = cand; msg = m; note = n; return true;
    };
    bool progress = true;
    while (progress && secs_since(t0) < budget) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && secs_since(t0) < budget; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && secs_since(t0) < budget; ) {
                std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true; else i += std::max<size_t>(1, k / 2 + (k > 8 ? k / 2 : 0));
            }
            if (k == 1) break;
        }
        for (size_t k = 8; k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && secs_since(t0) < budget; i += k) {
                std::vector<uint64_t> c(best); bool nz = false;
                for (size_t j = i; j < i + k; ++j) { nz = nz || c[j]; c[j] = 0; }
                if (nz && attempt(c)) progress = true;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && secs_since(t0) < budget; ++i) {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && secs_since(t0) < budget) {
                std::vector<uint64_t> c(best); c[i] = lo + (best[i] - lo) / 2;
                uint64_t mid = c[i];
                if (attempt(c)) progress = true; else lo = mid + 1;
            }
            // lowering a length draw often needs deletion of one later element
            if (i < best.size() && best[i] > 0) {
                for (size_t j = i + 1; j < best.size() && j < i + 5; ++j) {
                    std::vector<uint64_t> c(best); c[i]--; c.erase(c.begin() + j);
                    if (attempt(c)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}

static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { ::chmod(p, 0700); return ::remove(p); }
static void rm_tree(const std::string& d) { if (d.size() > 10 && d.find("/pbt.") != std::string::npos) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

static int do_replay(const Opts& o) {
    std::ifstream f(o.replay.c_str()); std::string k, subname; int size = 50; std::vector<uint64_t> ch; std::vector<uint64_t> seq;
    while (f >> k) {
        if (k == "sub") f >> subname;
        else if (k == "size") f >> size;
        else if (k == "sequence") { seq.resize(5); for (auto& x : seq) f >> x; break; }
        else if (k == "choices") { size_t n; f >> n; ch.resize(n); for (auto& x : ch) f >> x; break; }
        else { std::string v; f >> v; }
    }
    for (auto& s : g_cfg->subs) if (s.name == subname) {
        std::string msg, note;
        if (!seq.empty()) {
            bool bad = run_sequence(s, seq[0], seq[1], seq[2], seq[3], seq[4], msg, note);
            std::cout << "replay of " << g_cfg->property << "/" << subname << ": " << (bad ? "FAILS" : "holds") << "\n" << (bad ? msg : std::string()) << "\n";
            return bad ? 1 : 0;
        }
        Result r = run_forked(s, ch, size, msg, note, NULL, s.timeout);
        std::cout << "replay of " << g_cfg->property << "/" << subname << ": " << (r == RES_OK ? "holds" : "FAILS") << "\n";
        std::cout << "case: " << note << "\n";
        if (r != RES_OK) {
            std::cout << "message: " << msg << "\n";
            char eb[512]; std::ifstream ef(errname(999, eb, sizeof eb)); std::string line; int n = 0;
            while (n++ < 60 && std::getline(ef, line)) std::cout << line << "\n";
        }
        return r == RES_OK ? 0 : 1;
    }
    std::cerr << "unknown sub-check " << subname << "\n"; return 2;
}

int main(int argc, char **argv, Config& cfg) {
    Opts o; g_cfg = &cfg;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") o.tier = nx(); else if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--evidence") o.evidence = nx(); else if (a == "--replay-dir") o.replay_dir = nx();
        else if (a == "--replay") o.replay = nx(); else if (a == "--workers") o.workers = atoi(nx().c_str());
        else if (a == "--scale") o.scale = atof(nx().c_str()); else if (a == "--only") o.only = nx();
        else if (a == "--known") o.known = nx(); else if (a == "--max-seconds") o.max_s = atof(nx().c_str());
        else { std::cerr << "unknown option " << a << "\n"; return 2; }
    }
    bool thorough = o.tier == "thorough";
    if (o.max_s <= 0) o.max_s = thorough ? 3000 : 240;
    const char *base = getenv("VERIF_SCRATCH"); std::string tmpl = std::string(base ? base : "/tmp") + "/pbt.XXXXXX";
    std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
    if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
    g_scratch = tb.data(); ::chmod(g_scratch.c_str(), 0777);
    struct Cleanup { pid_t me = getpid(); ~Cleanup() { if (getpid() == me) rm_tree(g_scratch); } } cleanup;

    // known findings: lines "<property>\t<id>\t<text>"
    std::map<std::string, std::string> known_text;
    if (!o.known.empty()) {
        std::ifstream f(o.known.c_str()); std::string line;
        while (std::getline(f, line)) {
            size_t a = line.find('\t'), b = line.find('\t', a == std::string::npos ? a : a + 1);
            if (a == std::string::npos || b == std::string::npos) continue;
            if (line.substr(0, a) == cfg.property) { std::string id = line.substr(a + 1, b - a - 1); g_known.insert(id); known_text[id] = line.substr(b + 1); }
        }
    }
    g_shm = new_shm();
    signal(SIGPIPE, SIG_IGN);
    if (!o.replay.empty()) return do_replay(o);

    uint64_t t0 = now_ns();
    int W = o.workers > 0 ? o.workers : 8;
    std::vector<Stats> total(cfg.subs.size());
    std::set<std::string> known_seen; uint64_t unconfirmed = 0; std::vector<std::string> unconfirmed_msgs; bool truncated = false;

    auto write_evidence = [&](uint64_t violations) {
        if (o.evidence.empty()) return;
        uint64_t ev = 0, dn = 0; for (auto& s : total) { ev += s.evals; dn += s.distinct.size(); }
        std::ofstream f((o.evidence + ".tmp").c_str(), std::ios::binary);
        f << "{\n \"property\": " << json_str(cfg.property) << ",\n \"tier\": " << json_str(o.tier) << ",\n \"seed\": " << o.seed
          << ",\n \"level\": " << json_str(cfg.level) << ",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << dn
          << ",\n  \"rule\": " << json_str(cfg.rule) << ",\n  \"exhaustive\": false,\n  \"truncated_by_time_guard\": " << (truncated ? "true" : "false")
          << ",\n  \"unconfirmed_failures\": " << unconfirmed << ",\n  \"unconfirmed_messages\": [";
        for (size_t i = 0; i < unconfirmed_msgs.size() && i < 5; ++i) f << (i ? "," : "") << json_str(unconfirmed_msgs[i]);
        f << "],\n  \"sub_checks\": {";
        for (size_t i = 0; i < cfg.subs.size(); ++i) {
            f << (i ? ",\n   " : "\n   ") << json_str(cfg.subs[i].name) << ": {\"evaluations\": " << total[i].evals << ", \"nontrivial\": " << total[i].nontrivial
              << ", \"distinct_nontrivial\": " << total[i].distinct.size() << ", \"discarded\": " << total[i].discarded << ", \"classes\": {";
            bool first = true; for (auto& l : total[i].labels) { f << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
            f << "}}";
        }
        f << "\n  },\n  \"samples\": ["; bool first = true;
        for (size_t i = 0; i < cfg.subs.size(); ++i) for (size_t j = 0; j < total[i].samples.size() && j < 3; ++j) {
            f << (first ? "\n   " : ",\n   ") << "{\"sub_check\": " << json_str(cfg.subs[i].name) << ", \"case\": " << total[i].samples[j] << "}"; first = false;
        }
        f << "\n  ]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < cfg.assumptions.size(); ++i) f << (i ? ", " : "") << json_str(cfg.assumptions[i]);
        f << "],\n \"wall_s\": " << secs_since(t0) << ",\n \"violations\": " << violations << "\n}\n";
        f.close(); rename((o.evidence + ".tmp").c_str(), o.evidence.c_str());
    };

    for (size_t si = 0; si < cfg.subs.size(); ++si) {
        const Sub& sub = cfg.subs[si];
        if (!o.only.empty() && sub.name != o.only) continue;
        uint64_t n = (uint64_t)((thorough ? (double)sub.thorough : (double)sub.quick * cfg.quick_scale) * o.scale); if (n < 1) n = 1;
        int nw = sub.workers > 0 ? (o.workers > 0 ? std::min(W, sub.workers) : sub.workers) : W; if ((uint64_t)nw > n) nw = (int)n;
        std::vector<Shm*> shm(nw); std::vector<pid_t> pid(nw, 0); std::vector<uint64_t> next(nw), first_idx(nw); std::vector<int> gen(nw, 0); std::vector<bool> done(nw, false);
        std::vector<std::string> statfiles;
        for (int w = 0; w < nw; ++w) { shm[w] = new_shm(); next[w] = w; }
        auto spawn = [&](int w) {
            Shm *s = shm[w]; s->running = 0; s->failed = 0; char eb[512]; errname(w, eb, sizeof eb);
            std::ostringstream sf; sf << g_scratch << "/stats." << si << "." << w << "." << gen[w]++; statfiles.push_back(sf.str());
            s->start_ns = now_ns(); first_idx[w] = next[w];
            pid_t p = fork();
            if (p == 0) {
                child_common(eb); g_shm = s;
                if (cfg.once_per_process) cfg.once_per_process();
                std::vector<Stats> st(cfg.subs.size()); Stats& S = st[si];
                for (uint64_t idx = next[w]; idx < n; idx += nw) {
                    if (secs_since(t0) > o.max_s) { s->running = 3; break; }
                    s->idx = idx; s->start_ns = now_ns(); s->running = 1;
                    Src src(case_seed(o.seed, sub.name, idx), s->choices, &s->n_choices, (int)(idx * 100 / n));
                    Case c(false); bool disc;
                    if (!run_one(sub, src, c, s, disc)) { s->failed = 1; S.evals++; write_stats(sf.str(), st); _exit(10); }
                    S.evals++;
                    if (disc) { S.discarded++; continue; }
                    for (auto& l : c.m_labels) S.labels[l]++;
                    if (c.m_nontrivial) {
                        S.nontrivial++;
                        uint64_t key = c.m_key ? c.m_key : fnv(s->choices, (size_t)s->n_choices * 8);
                        bool fresh = S.distinct.insert(key).second;
                        if (fresh && S.samples.size() < 2 && idx % 7 == 3) S.samples.push_back(c.m_note);
                        else if (fresh && S.samples.empty()) S.samples.push_back(c.m_note);
                    }
                }
                if (s->running != 3) s->running = 2;
                write_stats(sf.str(), st);
                _exit(0);
            }
            pid[w] = p;
        };
        for (int w = 0; w < nw; ++w) spawn(w);
        int live = nw;
        while (live > 0) {
            bool any = false;
            for (int w = 0; w < nw; ++w) {
                if (done[w]) continue;
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                bool hang = false;
                if (r == 0) {
                    if (secs_since(shm[w]->start_ns) > sub.timeout + 2) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; }
                    else continue;
                } else kill(-pid[w], SIGKILL);
                any = true;
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[w]->running >= 2) { if (shm[w]->running == 3) truncated = true; done[w] = true; --live; continue; }
                // failure of case idx
                uint64_t idx = shm[w]->idx; int size = (int)(idx * 100 / n);
                std::vector<uint64_t> ch(shm[w]->choices, shm[w]->choices + std::min<uint64_t>((uint64_t)shm[w]->n_choices, (uint64_t)Src::MAX_CHOICES));
                char eb[512]; errname(w, eb, sizeof eb);
                std::string first = hang ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 10) ? std::string(shm[w]->msg) : "process died: " + err_summary(eb);
                // stop the other workers while we look at this one
                for (int v = 0; v < nw; ++v) if (v != w && !done[v]) kill(-pid[v], SIGSTOP);
                int fails = 0; std::string msg, note; Result kind = RES_OK;
                for (int k = 0; k < sub.confirm_of; ++k) {
                    std::string m, nt; Result rr = run_forked(sub, ch, size, m, nt, NULL, sub.timeout);
                    if (rr != RES_OK) { ++fails; msg = m; note = nt; kind = rr; }
                    if (fails >= sub.confirm_min && (sub.confirm_of > 3 || kind == RES_HANG)) break;
                }
                if (fails >= sub.confirm_min) {
                    for (int v = 0; v < nw; ++v) if (v != w && !done[v]) { kill(-pid[v], SIGKILL); kill(pid[v], SIGKILL); }
                    std::vector<uint64_t> best = ch;
                    if (sub.confirm_of <= 3) best = shrink(sub, ch, size, msg, note, kind, thorough ? 180 : 60);
                    std::string path = o.replay_dir + "/" + cfg.property + "-" + sub.name + ".replay";
                    write_replay(path, sub, best, size, o.seed, idx, msg, note);
                    for (auto& p : statfiles) (void)p;
                    total[si].evals += idx / nw + 1;
                    std::cout << "property " << cfg.property << " sub-check " << sub.name << " seed " << o.seed << " case " << idx << ": " << show(msg, 3000) << "\n";
                    std::cout << "minimal case: " << show(note, 3000) << "\n";
                    std::cout << "VIOLATION property=" << cfg.property << " replay=" << path << std::endl;
                    write_evidence(1);
                    return 1;
                }
                if (sub.confirm_of <= 3 && fails < sub.confirm_min && idx > first_idx[w]) {
                    std::string m, nt; bool again = true;
                    for (int k = 0; k < 2 && again; ++k) again = run_sequence(sub, o.seed, first_idx[w], nw, idx, n, m, nt);
                    if (again) {
                        for (int v = 0; v < nw; ++v) if (v != w && !done[v]) { kill(-pid[v], SIGKILL); kill(pid[v], SIGKILL); }
                        std::string path = o.replay_dir + "/" + cfg.property + "-" + sub.name + ".replay";
                        std::ofstream f(path.c_str(), std::ios::binary);
                        f << "property " << cfg.property << "\nsub " << sub.name << "\nsequence " << o.seed << " " << first_idx[w] << " " << nw << " " << idx << " " << n
                          << "\nmessage " << show(m, 4000) << "\ncase " << show(nt, 12000) << "\n";
                        total[si].evals += idx / nw + 1;
                        std::cout << "property " << cfg.property << " sub-check " << sub.name << " seed " << o.seed << " case " << idx << " (after the cases before it in the same process): " << show(m, 3000) << "\n";
                        std::cout << "VIOLATION property=" << cfg.property << " replay=" << path << std::endl;
                        write_evidence(1);
                        return 1;
                    }
                }
                ++unconfirmed; unconfirmed_msgs.push_back(sub.name + ": " + show(first, 600));
                std::cerr << "note: case " << idx << " of " << sub.name << " failed once but " << fails << " of " << sub.confirm_of << " replays failed: " << show(first, 800) << "\n";
                for (int v = 0; v < nw; ++v) if (v != w && !done[v]) { shm[v]->start_ns = now_ns(); kill(-pid[v], SIGCONT); }
                next[w] = idx + nw;
                if (next[w] >= n || gen[w] > 50) { done[w] = true; --live; } else spawn(w);
            }
            if (!any) usleep(2000);
        }
        for (int w = 0; w < nw; ++w) { for (uint64_t i = 0; i < shm[w]->known_n; ++i) known_seen.insert(shm[w]->known[i]); munmap(shm[w], sizeof(Shm)); }
        for (auto& p : statfiles) {
            std::ifstream f(p.c_str(), std::ios::binary); std::string line;
            while (std::getline(f, line)) {
                std::istringstream is(line); std::string t; size_t i; is >> t >> i; if (i != si) continue;
                if (t == "S") { uint64_t a, b, c; is >> a >> b >> c; total[i].evals += a; total[i].nontrivial += b; total[i].discarded += c; }
                else if (t == "L") { uint64_t k; is >> k; std::string l; is.get(); std::getline(is, l); total[i].labels[l] += k; }
                else if (t == "H") { uint64_t h; is >> h; total[i].distinct.insert(h); }
                else if (t == "T") { is.get(); std::string l; std::getline(is, l); total[i].samples.push_back(l); }
            }
        }
    }
    for (auto& k : known_seen) std::cout << "KNOWN-FINDING: property=" << cfg.property << " " << k << ": " << known_text[k] << "\n";
    uint64_t ev = 0, dn = 0; for (auto& s : total) { ev += s.evals; dn += s.distinct.size(); }
    std::cout << "property " << cfg.property << " held on " << ev << " generated cases (" << dn << " distinct non-trivial), seed " << o.seed << ", tier " << o.tier
              << ", " << secs_since(t0) << " s" << (unconfirmed ? " [unconfirmed failures: see evidence]" : "") << std::endl;
    write_evidence(0);
    return 0;
}

}   // namespace pbt
