// Shared exploration framework: exhaustive enumeration of cases over forked
// workers, crash and hang containment, replay files, known findings, evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <pdfmm/pdfmm.h>
#include <pdfmm/base/PdfError.h>

namespace vf {

inline uint64_t hash(std::string_view s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
std::string esc(std::string_view s, size_t max = 400);   // printable form of bytes
std::string hexs(std::string_view s);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Config
{
    std::string prop;
    std::string level = "model_checking";   // or exploration / fault_enumeration
    std::string rule;
    std::vector<std::string> assumptions;
    double caseTimeout = 20;       // a case running longer is a hang
    double quickBudget = 420;      // soft cap on exploration time, reported when hit
    double thoroughBudget = 3 * 3600;
    int workers = 8;
    bool crashIsViolation = true;
    size_t memLimitMb = 3000;      // RLIMIT_AS of a worker (ignored under ASan)
};

class Ctx
{
public:
    bool thorough = false;
    bool replaying = false;
    uint64_t seed = 1;

    // Next case. Runs body if the case belongs to this worker. desc is evaluated
    // only then; it identifies the case in the replay file. tag names the
    // part of the space, and the crash signature.
    void run(const char* tag, const std::function<std::string()>& desc, const std::function<void()>& body);
    // true if the next case would be run by this worker (then call run). Lets
    // enumerators skip building expensive bodies; otherwise call skip().
    bool mine() const;
    void skip() { ++m_next; }

    // A deviation from the property in the current case.
    void fail(const std::string& sig, const std::string& msg);
    void check(bool ok, const std::string& sig, const std::string& msg) { if (!ok) fail(sig, msg); }
    bool failed() const { return m_caseFailed; }

    void outcome(uint64_t h) { m_outcomes.insert(h); }
    void outcome(std::string_view s) { m_outcomes.insert(hash(s)); }
    void state(uint64_t h) { m_states.insert(h); }
    void state(std::string_view s) { m_states.insert(hash(s)); }
    void transition(uint64_t n = 1) { m_transitions += n; }
    void trace(uint64_t n = 1) { m_traces += n; }
    void count(const std::string& name, uint64_t n = 1) { m_counts[name] += n; }
    void sample(const std::string& s) { if (m_samples.size() < 6) m_samples.push_back(s); }
    void note(const std::string& s) { m_notes.insert(s); }
    bool capped() const { return m_capped; }
    const std::string& scratch() const { return m_scratch; }   // per-worker scratch directory
    int worker() const { return m_worker; }

// internal
    uint64_t m_next = 0;
    int m_worker = 0, m_workers = 1;
    uint64_t m_resume = 0;
    uint64_t m_only = UINT64_MAX;
    bool m_caseFailed = false, m_capped = false, m_stop = false;
    double m_deadline = 0;
    std::string m_desc, m_tag, m_scratch;
    std::unordered_set<uint64_t> m_outcomes, m_states;
    uint64_t m_transitions = 0, m_traces = 0, m_cases = 0, m_caseFails = 0;
    std::map<std::string, uint64_t> m_counts;
    std::vector<std::string> m_samples;
    std::set<std::string> m_notes;
    FILE* m_out = nullptr;
    void* m_shm = nullptr;
};

// The property being checked, for harnesses that serve several.
inline std::string prop(const char* def) { auto p = getenv("VERIF_PROP"); return p && *p ? p : def; }
int main(int argc, char** argv, const Config& cfg, const std::function<void(Ctx&)>& explore);

// --- enumerators ---------------------------------------------------------
// All sequences over [0,n) of length exactly k.
inline void sequences(unsigned n, unsigned k, const std::function<void(const std::vector<unsigned>&)>& f)
{
    std::vector<unsigned> v(k, 0);
    if (k == 0) { f(v); return; }
    if (n == 0) return;
    while (true)
    {
        f(v);
        unsigned i = k;
        while (i > 0 && ++v[i - 1] == n) { v[i - 1] = 0; --i; }
        if (i == 0) return;
    }
}
// All strings over alphabet with length in [lo,hi].
inline void strings(const std::string& alpha, unsigned lo, unsigned hi, const std::function<void(const std::string&)>& f)
{
    for (unsigned k = lo; k <= hi; k++)
        sequences((unsigned)alpha.size(), k, [&](const std::vector<unsigned>& v) {
            std::string s(k, 0);
            for (unsigned i = 0; i < k; i++) s[i] = alpha[v[i]];
            f(s);
        });
}
inline void words(const std::vector<std::string>& alpha, unsigned lo, unsigned hi, const std::function<void(const std::string&)>& f)
{
    for (unsigned k = lo; k <= hi; k++)
        sequences((unsigned)alpha.size(), k, [&](const std::vector<unsigned>& v) {
            std::string s;
            for (unsigned i = 0; i < k; i++) s += alpha[v[i]];
            f(s);
        });
}

// The code of the PdfError thrown by f, or -1 if none; std exceptions give -2.
template <class F> int errorOf(F&& f, std::string* what = nullptr)
{
    try { f(); return -1; }
    catch (const mm::PdfError& e) { if (what) *what = e.what(); return (int)e.GetError(); }
    catch (const std::exception& e) { if (what) *what = e.what(); return -2; }
}
}
