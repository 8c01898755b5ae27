#include "vf.h"
#include <cstdarg>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#include <sanitizer/lsan_interface.h>
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3500:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=4"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78"; }
#endif
#endif

namespace vf {
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string fmt(const char* f, ...)
{
    va_list a; va_start(a, f);
    char* p = nullptr;
    int n = vasprintf(&p, f, a);
    va_end(a);
    std::string s(p, n < 0 ? 0 : n);
    free(p);
    return s;
}
std::string esc(std::string_view s, size_t max)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (r.size() > max) { r += fmt("...(%zu bytes)", s.size()); break; }
        unsigned char c = s[i];
        if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) r += fmt("\\x%02X", c);
        else r += (char)c;
    }
    return r;
}
std::string hexs(std::string_view s) { std::string r; for (unsigned char c : s) r += fmt("%02X", c); return r; }

static std::string json(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

struct Shm { volatile uint64_t idx; volatile double start; volatile int running; char tag[128]; char desc[16384]; };

struct Runner
{
    static void rec(FILE* f, const std::string& sig, const std::string& tag, uint64_t idx, const std::string& desc, const std::string& msg)
    {
        auto clean = [](std::string s) { for (char& c : s) if (c == '\n' || c == '\t' || c == '\0') c = ' '; return s; };
        fprintf(f, "F\t%s\t%s\t%llu\t%s\t%s\n", clean(sig).c_str(), clean(tag).c_str(), (unsigned long long)idx, clean(desc).c_str(), clean(msg).c_str());
        fflush(f);
    }
    static void before(Ctx& c) { Shm* s = (Shm*)c.m_shm; if (!s) return; s->idx = c.m_next; strncpy(s->tag, c.m_tag.c_str(), 127); strncpy(s->desc, c.m_desc.c_str(), sizeof(s->desc) - 1); s->start = now(); s->running = 1; }
    static void after(Ctx& c) { Shm* s = (Shm*)c.m_shm; if (!s) return; s->running = 0; }

    static void flush(Ctx& c, const std::string& base)
    {
        FILE* f = fopen((base + ".sum").c_str(), "a");
        fprintf(f, "cases\t%llu\ntransitions\t%llu\ntraces\t%llu\ncapped\t%d\nspace\t%llu\n", (unsigned long long)c.m_cases, (unsigned long long)c.m_transitions, (unsigned long long)c.m_traces, c.m_capped ? 1 : 0, (unsigned long long)c.m_next);
        for (auto& p : c.m_counts) fprintf(f, "C\t%s\t%llu\n", p.first.c_str(), (unsigned long long)p.second);
        for (auto& s : c.m_samples) { std::string t = s; for (char& ch : t) if (ch == '\n') ch = ' '; fprintf(f, "S\t%s\n", t.c_str()); }
        for (auto& s : c.m_notes) fprintf(f, "N\t%s\n", s.c_str());
        fclose(f);
        for (auto [ext, set] : { std::make_pair(".oc", &c.m_outcomes), std::make_pair(".st", &c.m_states) })
        {
            FILE* g = fopen((base + ext).c_str(), "ab");
            std::vector<uint64_t> v(set->begin(), set->end());
            if (!v.empty()) fwrite(v.data(), 8, v.size(), g);
            fclose(g);
        }
    }
};

bool Ctx::mine() const
{
    if (m_stop) return false;
    if (m_only != UINT64_MAX) return m_next == m_only;
    return m_next >= m_resume && (m_next % m_workers) == (unsigned)m_worker;
}

void Ctx::run(const char* tag, const std::function<std::string()>& desc, const std::function<void()>& body)
{
    if (!mine()) { ++m_next; return; }
    if (m_deadline != 0 && now() > m_deadline) { m_capped = true; m_stop = true; ++m_next; return; }
    m_tag = tag;
    m_desc = desc();
    m_caseFailed = false;
    m_cases++;
    Runner::before(*this);
    try { body(); }
    catch (const mm::PdfError& e)
    {
        std::string cs = "";
        for (auto& i : e.GetCallstack()) { cs += " <- " + std::string(i.GetFilePath()) + ":" + std::to_string(i.GetLine()) + " " + std::string(i.GetInformation()); }
        fail(fmt("%s:unexpected-error", tag), fmt("unexpected PdfError %d: %s%s", (int)e.GetError(), e.what(), cs.c_str()));
    }
    catch (const std::exception& e) { fail(fmt("%s:unexpected-exception", tag), fmt("unexpected exception: %s", e.what())); }
    Runner::after(*this);
    if (m_samples.size() < 2 || (m_cases & (m_cases - 1)) == 0) if (m_samples.size() < 5) m_samples.push_back(std::string(tag) + ": " + m_desc.substr(0, 300));
    ++m_next;
}

void Ctx::fail(const std::string& sig, const std::string& msg)
{
    if (m_caseFailed && ++m_caseFails > 3) return;
    if (!m_caseFailed) m_caseFails = 0;
    m_caseFailed = true;
    if (replaying) fprintf(stderr, "REPLAY-FAIL sig=%s %s\n", sig.c_str(), msg.c_str());
    if (m_out) Runner::rec(m_out, sig, m_tag, m_next, m_desc, msg.substr(0, 4000));
}

static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void rmTree(const std::string& d)
{
    if (d.find("/.build/run.") == std::string::npos) return;
    if (DIR* dp = opendir(d.c_str()))
    {
        while (dirent* e = readdir(dp))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str());
        }
        closedir(dp);
    }
    rmdir(d.c_str());
}

struct Fail { std::string sig, tag, desc, msg; uint64_t idx; bool confirmed = true; };

int main(int argc, char** argv, const Config& cfg0, const std::function<void(Ctx&)>& explore)
{
    Config cfg = cfg0;
    std::string verif = "/verif", replayFile; bool thorough = false; 
    double budget = 0;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--verif") verif = argv[++i];
        else if (a == "--workers") cfg.workers = atoi(argv[++i]);
        else if (a == "--replay") replayFile = argv[++i];
        else if (a == "--budget") budget = atof(argv[++i]);
    }
    if (budget == 0) budget = thorough ? cfg.thoroughBudget : cfg.quickBudget;
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    double t0 = now();
    setenv("VERIF_HOME", verif.c_str(), 1);
    std::string run = verif + fmt("/.build/run.%s.%d", cfg.prop.c_str(), (int)getpid());
    mkdir((verif + "/.build").c_str(), 0755);
    mkdir(run.c_str(), 0755);
    mm::PdfCommon::SetMaxLoggingSeverity(mm::PdfLogSeverity::None);

    // Known findings
    std::map<std::string, std::string> known;
    {
        std::ifstream f(verif + "/known-findings.txt");
        std::string l;
        while (std::getline(f, l))
        {
            std::string pre = "KNOWN property=" + cfg.prop + " sig=";
            if (l.compare(0, pre.size(), pre) == 0)
            {
                std::string r = l.substr(pre.size());
                size_t sp = r.find(' ');
                known[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1);
            }
        }
    }

    uint64_t only = UINT64_MAX;
    if (!replayFile.empty())
    {
        std::ifstream f(replayFile);
        std::string l;
        while (std::getline(f, l))
        {
            if (l.compare(0, 6, "index ") == 0) only = strtoull(l.c_str() + 6, nullptr, 10);
            if (l == "tier thorough") thorough = true;
        }
        if (only == UINT64_MAX) { fprintf(stderr, "bad replay file\n"); return 2; }
        cfg.workers = 1;
    }

    int W = cfg.workers;
    Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(W, 0);
    std::vector<int> deaths(W, 0);
    std::vector<Fail> fails;
    bool capped = false;
    uint64_t hangs = 0, crashes = 0;

    auto child = [&](int w, int slot, uint64_t resume, uint64_t onlyIdx, const std::string& base) {
        int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (onlyIdx == UINT64_MAX || replayFile.empty()) { dup2(fd, 2); dup2(fd, 1); }
        close(fd);
#ifndef VF_ASAN
        if (cfg.memLimitMb) { rlimit r{ cfg.memLimitMb << 20, cfg.memLimitMb << 20 }; setrlimit(RLIMIT_AS, &r); }
#endif
        rlimit c0{ 0, 0 }; setrlimit(RLIMIT_CORE, &c0);
        rlimit fs{ 2048ull << 20, 2048ull << 20 }; setrlimit(RLIMIT_FSIZE, &fs);
        Ctx c;
        c.thorough = thorough;
        c.seed = seed;
        c.m_worker = w; c.m_workers = W; c.m_resume = resume; c.m_only = onlyIdx;
        c.replaying = onlyIdx != UINT64_MAX;
        c.m_scratch = base + ".d";
        mkdir(c.m_scratch.c_str(), 0755);
        c.m_shm = &shm[slot];
        if (onlyIdx == UINT64_MAX) c.m_deadline = t0 + budget;
        c.m_out = fopen((base + ".out").c_str(), "a");
        explore(c);
        Runner::flush(c, base);
        FILE* d = fopen((base + ".done").c_str(), "w"); fclose(d);
        fflush(nullptr);
        _exit(0);
    };

    auto collectFails = [&](const std::string& base, std::vector<Fail>& out) {
        std::ifstream f(base + ".out");
        std::string l;
        while (std::getline(f, l))
        {
            std::vector<std::string> p;
            size_t a = 0;
            while (true) { size_t b = l.find('\t', a); p.push_back(l.substr(a, b - a)); if (b == std::string::npos) break; a = b + 1; }
            if (p.size() == 6 && p[0] == "F") out.push_back({ p[1], p[2], p[4], p[5], strtoull(p[3].c_str(), nullptr, 10) });
        }
    };

    // Runs one case in a fresh process. Returns its fails (crash and hang included).
    auto confirm = [&](uint64_t idx, double timeout) {
        std::string base = run + fmt("/confirm%llu.%d", (unsigned long long)idx, rand());
        shm[W].running = 0;
        pid_t p = fork();
        if (p == 0) child(0, W, 0, idx, base);
        std::vector<Fail> out;
        double s = now(); bool hang = false; int st = 0;
        while (waitpid(p, &st, WNOHANG) == 0)
        {
            usleep(2000);
            if (shm[W].running && now() - shm[W].start > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
            if (now() - s > timeout + 300) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        }
        collectFails(base, out);
        if (hang) out.push_back({ std::string(shm[W].tag) + ":hang", shm[W].tag, shm[W].desc, fmt("case does not terminate within %.0f s", timeout), idx });
        else if (access((base + ".done").c_str(), F_OK) != 0)
        {
            std::string e = slurp(base + ".err");
            size_t q = e.find("ERROR: AddressSanitizer"); if (q == std::string::npos) q = e.find("runtime error"); if (q == std::string::npos) q = 0; else q = q > 120 ? q - 120 : 0;
            // where sanitizers say it happened, if they do
            std::string site; size_t u = e.find("SUMMARY: "); if (u != std::string::npos) { std::string l = e.substr(u + 9, e.find('\n', u) - u - 9); size_t sp = l.find(' ', l.find(' ') + 1), in = l.find(" in ", sp == std::string::npos ? 0 : sp); if (sp != std::string::npos) { std::string kind = l.substr(l.find(' ') + 1, sp - l.find(' ') - 1), fun = in != std::string::npos ? l.substr(in + 4) : l.substr(l.rfind('/') + 1); site = ":" + kind + ":"; for (char ch : fun.substr(0, fun.find('('))) site += isalnum((unsigned char)ch) ? ch : '_'; site = site.substr(0, 100); } }
            out.push_back({ std::string(shm[W].tag) + ":crash" + site, shm[W].tag, shm[W].desc, fmt("process died (status 0x%x): ", st) + e.substr(q, 3000), idx });
        }
        return out;
    };

    if (only != UINT64_MAX)
    {
        setenv("VERIF_REPLAY", "1", 1);
        auto out = confirm(only, cfg.caseTimeout * 2);
        for (auto& f : out) printf("REPRODUCED sig=%s case=%s\n  %s\n", f.sig.c_str(), f.desc.c_str(), f.msg.c_str());
        if (out.empty()) printf("not reproduced\n");
        rmTree(run);
        return out.empty() ? 0 : 1;
    }

    std::vector<std::string> bases(W);
    for (int w = 0; w < W; w++)
    {
        bases[w] = run + fmt("/w%d", w);
        pids[w] = fork();
        if (pids[w] == 0) child(w, w, 0, UINT64_MAX, bases[w]);
    }
    int live = W;
    while (live > 0)
    {
        usleep(3000);
        for (int w = 0; w < W; w++)
        {
            if (pids[w] == 0) continue;
            int st; bool hang = false;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == 0)
            {
                if (shm[w].running && now() - shm[w].start > cfg.caseTimeout)
                {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); hang = true;
                }
                else continue;
            }
            pids[w] = 0;
            if (!hang && access((bases[w] + ".done").c_str(), F_OK) == 0) { live--; continue; }
            if (!hang && !shm[w].running)
            {
                printf("harness error: worker %d ended outside a case (status 0x%x)\n%s\n", w, st, slurp(bases[w] + ".err").substr(0, 3000).c_str());
                for (auto p : pids) if (p) kill(p, SIGKILL);
                rmTree(run);
                return 2;
            }
            // The case killed the worker: confirm in a fresh process, then go on past it
            uint64_t idx = shm[w].idx;
            auto c = confirm(idx, cfg.caseTimeout * 2);
            bool conf = false;
            for (auto& f : c) { if (f.sig.find(":crash") != std::string::npos || f.sig.find(":hang") != std::string::npos) { fails.push_back(f); conf = true; } }
            if (!conf && !hang)
            {
                std::string e = slurp(bases[w] + ".err");
                Fail f{ std::string(shm[w].tag) + ":crash", shm[w].tag, shm[w].desc, fmt("process died (status 0x%x, not reproduced alone): ", st) + e.substr(e.size() > 2500 ? e.size() - 2500 : 0), idx };
                fails.push_back(f);
            }
            (hang ? hangs : crashes)++;
            if (++deaths[w] > (hang ? 5 : 40) || now() > t0 + budget) { live--; capped = true; continue; }
            shm[w].running = 0;
            pids[w] = fork();
            if (pids[w] == 0) child(w, w, idx + 1, UINT64_MAX, bases[w]);
        }
    }

    // Merge
    uint64_t cases = 0, transitions = 0, traces = 0, space = 0;
    std::map<std::string, uint64_t> counts;
    std::vector<std::string> samples; std::set<std::string> notes;
    std::vector<uint64_t> oc, stt;
    for (int w = 0; w < W; w++)
    {
        collectFails(bases[w], fails);
        std::ifstream f(bases[w] + ".sum");
        std::string l; int ns = 0;
        while (std::getline(f, l))
        {
            size_t a = l.find('\t'); std::string k = l.substr(0, a), v = l.substr(a + 1);
            if (k == "cases") cases += strtoull(v.c_str(), nullptr, 10);
            else if (k == "transitions") transitions += strtoull(v.c_str(), nullptr, 10);
            else if (k == "traces") traces += strtoull(v.c_str(), nullptr, 10);
            else if (k == "capped") capped |= v == "1";
            else if (k == "space") space = std::max(space, (uint64_t)strtoull(v.c_str(), nullptr, 10));
            else if (k == "C") { size_t b = v.find('\t'); counts[v.substr(0, b)] += strtoull(v.c_str() + b + 1, nullptr, 10); }
            else if (k == "S") { if (ns++ < 2) samples.push_back(v); }
            else if (k == "N") notes.insert(v);
        }
        for (auto [ext, vec] : { std::make_pair(".oc", &oc), std::make_pair(".st", &stt) })
        {
            std::string s = slurp(bases[w] + ext);
            size_t o = vec->size();
            vec->resize(o + s.size() / 8);
            if (!s.empty()) memcpy(vec->data() + o, s.data(), s.size() / 8 * 8);
        }
    }
    for (auto v : { &oc, &stt }) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }

    // Report
    std::map<std::string, std::vector<Fail*>> bySig;
    for (auto& f : fails) bySig[f.sig].push_back(&f);
    mkdir((verif + "/replays").c_str(), 0755);
    int violations = 0, lines = 0; size_t nKnown = 0;
    for (auto& p : bySig)
    {
        Fail* f = p.second[0];
        for (auto* g : p.second) if (g->desc.size() < f->desc.size()) f = g;
        auto k = known.find(p.first);
        if (k != known.end())
        {
            printf("KNOWN-FINDING: property=%s %s (%zu cases, e.g. %s)\n", cfg.prop.c_str(), k->second.c_str(), p.second.size(), f->desc.substr(0, 200).c_str());
            nKnown++;
            continue;
        }
        violations++;
        if (++lines > 25) continue;
        std::string sfx; for (char ch : p.first) sfx += isalnum((unsigned char)ch) ? ch : '_';
        std::string path = verif + "/replays/" + cfg.prop + "-" + sfx.substr(0, 80) + ".txt";
        std::ofstream o(path);
        o << "property " << cfg.prop << "\ntier " << (thorough ? "thorough" : "quick") << "\nindex " << f->idx << "\ntag " << f->tag << "\nsignature " << f->sig << "\ncase " << f->desc << "\nmessage " << f->msg << "\nfailing-cases-with-this-signature " << p.second.size()
          << "\nreproduce: " << verif << "/check " << cfg.prop << " --replay " << path << "\n";
        o.close();
        printf("VIOLATION property=%s replay=%s\n", cfg.prop.c_str(), path.c_str());
        printf("  sig=%s cases=%zu\n  case: %s\n  %s\n", p.first.c_str(), p.second.size(), f->desc.substr(0, 600).c_str(), f->msg.substr(0, 1200).c_str());
    }
    double wall = now() - t0;
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream e(verif + "/evidence/" + cfg.prop + ".json");
    e << "{\"property\":" << json(cfg.prop) << ",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":" << seed << ",\"level\":" << json(cfg.level) << ",\"coverage\":{";
    if (cfg.level == "model_checking")
        e << "\"states\":" << stt.size() << ",\"transitions\":" << transitions << ",\"traces_validated_against_impl\":" << traces << ",\"cases\":" << cases << ",\"distinct_outcomes\":" << oc.size();
    else
        e << "\"evaluations\":" << cases << ",\"distinct_nontrivial\":" << oc.size();
    e << ",\"rule\":" << json(cfg.rule) << ",\"exhaustive\":" << (capped ? "false" : "true") << ",\"space\":" << space << ",\"capped\":" << (capped ? "true" : "false");
    e << ",\"known_findings_hit\":" << nKnown << ",\"crashes\":" << crashes << ",\"hangs\":" << hangs;
    e << ",\"counters\":{"; bool first = true;
    for (auto& p : counts) { e << (first ? "" : ",") << json(p.first) << ":" << p.second; first = false; }
    e << "},\"notes\":["; first = true;
    for (auto& s : notes) { e << (first ? "" : ",") << json(s); first = false; }
    e << "],\"samples\":["; first = true;
    for (auto& s : samples) { e << (first ? "" : ",") << json(s); first = false; }
    e << "]},\"assumptions\":["; first = true;
    for (auto& s : cfg.assumptions) { e << (first ? "" : ",") << json(s); first = false; }
    e << "],\"wall_s\":" << fmt("%.2f", wall) << ",\"violations\":" << violations << "}\n";
    e.close();
    printf("%s: %llu cases of %llu, %zu states, %llu transitions, %zu distinct outcomes, %d violations, %zu known%s, %.1f s\n", cfg.prop.c_str(), (unsigned long long)cases, (unsigned long long)space, stt.size(), (unsigned long long)transitions, oc.size(), violations, nKnown, capped ? " (CAPPED)" : "", wall);
    for (auto& p : counts) printf("  %s: %llu\n", p.first.c_str(), (unsigned long long)p.second);
    rmTree(run);
    return violations ? 1 : 0;
}
}
