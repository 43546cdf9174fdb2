// Minimal property-based testing engine used by every harness in /verif.
//
// A check is a function  void(pbt::Src&, pbt::Case&)  that draws every random decision from Src
// (a recorded choice sequence), drives the code under test and calls PBT_CHECK for its oracle.
// Cases run in forked workers, so a sanitizer abort, a signal, an escaped exception or a hang is a
// failure of that one case, not of the run.  A failing case is replayed (3x), then its choice
// sequence is shrunk and written to a replay file.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; explicit Fail(const std::string& m) : msg(m) {} };
struct Discard {};

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

/// source of choices; 0 is always the simplest choice, so shrinking drives choices towards 0
class Src {
public:
    enum { MAX_CHOICES = 1 << 17 };
    Src(uint64_t seed, uint64_t *rec, volatile uint64_t *n_rec, int size)
        : m_state(seed), m_replay(NULL), m_replay_n(0), m_rec(rec), m_n_rec(n_rec), m_n(0), m_size(size) { *m_n_rec = 0; }
    Src(const uint64_t *replay, size_t n, uint64_t *rec, volatile uint64_t *n_rec, int size)
        : m_state(0), m_replay(replay), m_replay_n(n), m_rec(rec), m_n_rec(n_rec), m_n(0), m_size(size) { *m_n_rec = 0; }

    /// uniform in [0, n)
    uint64_t choose(uint64_t n) {
        if (n <= 1) return 0;
        if (m_n >= MAX_CHOICES) throw Discard();
        uint64_t v;
        if (m_replay) v = (m_n < m_replay_n ? m_replay[m_n] % n : 0);
        else v = splitmix(m_state) % n;
        m_rec[m_n++] = v;
        *m_n_rec = m_n;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choose((uint64_t)(hi - lo) + 1); }
    uint64_t u64() { uint64_t hi = choose(1ULL << 32); return (hi << 32) | choose(1ULL << 32); }
    bool chance(unsigned num, unsigned den) { return choose(den) >= den - num; }
    bool flip() { return choose(2) == 1; }
    unsigned char byte() { return (unsigned char)choose(256); }
    /// mostly small lengths, sometimes up to max
    size_t len(size_t max) {
        size_t cap;
        switch (choose(8)) {
            case 0: case 1: case 2: cap = 3; break;
            case 3: case 4: cap = 10; break;
            case 5: cap = 40; break;
            case 6: cap = 200; break;
            default: cap = max; break;
        }
        return (size_t)choose((cap < max ? cap : max) + 1);
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose(v.size())); }
    template <typename T, size_t N> const T& pick(const T (&v)[N]) { return v[choose(N)]; }
    /// weighted index
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0; for (unsigned x : w) tot += x;
        uint64_t r = choose(tot); size_t i = 0;
        for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    std::string bytes(size_t n) { std::string s; s.reserve(n); while (n--) s += (char)byte(); return s; }
    std::string of(const std::string& alphabet, size_t n) {
        std::string s; s.reserve(n); while (n--) s += alphabet[choose(alphabet.size())]; return s;
    }
    /// n pseudo-random bytes drawn from alphabet using one single choice (for big payloads)
    std::string blob(size_t n, const std::string& alphabet = std::string()) {
        uint64_t st = choose(1ULL << 32);
        std::string s; s.resize(n);
        for (size_t i = 0; i < n; ++i) {
            uint64_t r = splitmix(st);
            s[i] = alphabet.empty() ? (char)(r & 0xff) : alphabet[r % alphabet.size()];
        }
        return s;
    }
    int size() const { return m_size; }
    size_t used() const { return m_n; }
private:
    uint64_t m_state; const uint64_t *m_replay; size_t m_replay_n;
    uint64_t *m_rec; volatile uint64_t *m_n_rec; size_t m_n; int m_size;
};

std::string show(const std::string& s, size_t max = 160);

void publish_note(const std::string& s);

/// per-case bookkeeping
class Case {
public:
    Case(bool verbose) : m_nontrivial(false), m_key(0), m_verbose(verbose) {}
    void label(const std::string& l) { m_labels.insert(l); }
    void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
    /// identity of the case for the distinct count
    void key(const std::string& s) { m_key = fnv(s.data(), s.size(), m_key ? m_key : 1469598103934665603ULL); }
    void note(const std::string& s) { if (m_verbose || m_note.size() < 1200) { if (!m_note.empty()) m_note += " | "; m_note += m_verbose ? s : s.substr(0, 400); } if (m_verbose) publish_note(m_note); }
    /// replaces the note (for histories that grow)
    void set_note(const std::string& s) { m_note.clear(); note(s); }
    bool verbose() const { return m_verbose; }
    std::set<std::string> m_labels; bool m_nontrivial; uint64_t m_key; std::string m_note; bool m_verbose;
};

typedef std::function<void(Src&, Case&)> CheckFn;

struct Sub {
    std::string name;
    CheckFn fn;
    uint64_t quick, thorough;   ///< number of cases per tier
    double timeout;             ///< seconds after which one case counts as hung
    int confirm_of, confirm_min;///< replays and how many of them must fail
    int workers;                ///< 0 = default
};

struct Config {
    std::string property;
    std::string level;
    std::string rule;
    std::vector<std::string> assumptions;
    std::vector<Sub> subs;
    std::function<void()> once_per_process;     ///< run in each worker before its first case
    double quick_scale = 1;                     ///< multiplies the number of cases of the quick tier
};

int main(int argc, char **argv, Config& cfg);

/// true if a known finding with this id is listed (recorded, not repaired, defects)
bool known_finding(const std::string& id);
/// report that a listed known finding was reproduced by this run
void report_known(const std::string& id);

/// scratch directory, unique for this run, removed by the driver at the end
const std::string& scratch_dir();

#define PBT_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream pbt_os_; \
    pbt_os_ << "check failed: " << #cond << " @" << __LINE__ << ": " << msg; throw ::pbt::Fail(pbt_os_.str()); } } while (0)
#define PBT_EQ(a, b, msg) do { auto&& pbt_a_ = (a); auto&& pbt_b_ = (b); if (!(pbt_a_ == pbt_b_)) { std::ostringstream pbt_os_; \
    pbt_os_ << "expected equal: " << #a << " == " << #b << " @" << __LINE__ << ": got [" << ::pbt::str(pbt_a_) << "] want [" << ::pbt::str(pbt_b_) << "] " << msg; \
    throw ::pbt::Fail(pbt_os_.str()); } } while (0)

inline std::string str(const std::string& s) { return show(s, 300); }
inline std::string str(const char *s) { return show(s, 300); }
template <typename T> std::string str(const T& t) { std::ostringstream os; os << t; return os.str(); }

}   // namespace pbt
#endif
