// P09: chains of cross-reference sections. The model is "newest mention decides".
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;

enum Kind_ { Table = 0, Stream = 1, Hybrid = 2 };
// mentions of an object in a section
enum { Absent, Use0, Use1, Free1, Comp, StmUse, TabUseStmComp, Free0 };
struct Sec { int kind; std::vector<int> m; };
struct Lay { int split = 0, eol = 0, w = 0; bool noIndex = false, pred = false, flate = false, rev = false, stmPrev = false, compRoot = false, sparse0 = false; string junk; int tail = 0; };
struct Case { std::vector<Sec> s; Lay l; };     // oldest first

static string desc(const Case& c)
{
    string t; const char* K = "TSH"; const char* M = "-nNfcsbF";
    for (auto& s : c.s) { t += K[s.kind]; for (int m : s.m) t += M[m]; t += ' '; }
    auto& l = c.l;
    return t + vf::fmt("split %d eol %d w %d noIndex %d pred %d flate %d rev %d stmPrev %d compRoot %d sparse %d junk %zu tail %d", l.split, l.eol, l.w, l.noIndex, l.pred, l.flate, l.rev, l.stmPrev, l.compRoot, l.sparse0, l.junk.size(), l.tail);
}

static const int FIRST = 3, CONT = 20, XS = 30;
typedef std::map<int64_t, XEnt> Ents;
static string num10(int64_t v) { return vf::fmt("%010lld", (long long)v); }

struct Built { string bytes; std::vector<size_t> off, prevPos, stmPos, stmOff; size_t startPos = 0; };

static string tableText(const Ents& ents, const Lay& l)
{
    string o = "xref\n";
    static const char* E[] = { " \n", "\r\n", " \r" };
    std::vector<std::pair<int64_t, std::vector<XEnt>>> subs;
    for (auto it = ents.begin(); it != ents.end();)
    {
        std::vector<XEnt> v; int64_t f = it->first;
        do { v.push_back(it->second); ++it; } while (l.split == 0 && it != ents.end() && it->first == f + (int64_t)v.size());
        subs.push_back({ f, v });
    }
    if (l.split == 2) std::reverse(subs.begin(), subs.end());
    if (subs.empty()) o += "0 0\n";
    for (auto& s : subs)
    {
        o += vf::fmt("%lld %zu%s", (long long)s.first, s.second.size(), l.eol == 1 ? "\r\n" : l.eol == 2 ? " \n" : "\n");
        for (auto& e : s.second) o += vf::fmt("%010llu %05d %c", (unsigned long long)e.off, e.g, e.t) + E[l.eol];
    }
    return o;
}
static string pngUp(const string& d, size_t row)
{
    string o, last(row, 0);
    for (size_t p = 0; p < d.size(); p += row) { o += (char)2; for (size_t i = 0; i < row; i++) o += (char)((unsigned char)d[p + i] - (unsigned char)last[i]); last = d.substr(p, row); }
    return o;
}
static Built build(const Case& c)
{
    Built b; auto& l = c.l; int K = (int)c.s.size();
    string& o = b.bytes;
    o = l.junk + "%PDF-1.7\n%\xE2\xE3\xCF\xD3\n";
    size_t base = l.junk.size();
    auto at = [&] { return o.size() - base; };
    int nobj = (int)c.s[0].m.size();
    std::vector<Ents> tab(K), stm(K);
    auto put = [&](int64_t n, int g, const string& body) { size_t p = at(); o += vf::fmt("%lld %d obj\n", (long long)n, g) + body + "\nendobj\n"; return XEnt{ 'n', p, g }; };
    auto val = [&](int s, int n, int var) { return Val::D({ { "V", Val::I(s * 100 + n * 10 + var) } }); };
    for (int s = 0; s < K; s++)
    {
        std::vector<std::pair<int64_t, Val>> packed;
        Ents& main = c.s[s].kind == Stream ? stm[s] : tab[s];
        if (s == 0)
        {
            main[0] = { 'f', 0, 65535 };
            Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } }), pages = Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } });
            if (l.compRoot && c.s[s].kind == Stream) { packed.push_back({ 2, pages }); packed.push_back({ 1, cat }); }
            else { main[1] = put(1, 0, write(cat)); main[2] = put(2, 0, write(pages)); }
        }
        else if (c.s[s].kind != Stream && !l.sparse0) main[0] = { 'f', 0, 65535 };
        for (int i = 0; i < nobj; i++)
        {
            int n = FIRST + i;
            auto use = [&](int g, int var) {
                Val v = val(s, n, var);
                if (i != 0) return put(n, g, write(v));
                string data = vf::fmt("data %d %d %d", s, n, var); v.m["Length"] = Val::I(data.size());
                return put(n, g, write(v) + "\nstream\n" + data + "\nendstream");
            };
            switch (c.s[s].m[i])
            {
                case Use0: main[n] = use(0, 0); break;
                case Use1: main[n] = use(1, 1); break;
                case Free1: main[n] = { 'f', 0, 1 }; break;
                case Free0: main[n] = { 'f', 0, 0 }; break;
                case Comp: packed.push_back({ n, val(s, n, 2) }); break;
                case StmUse: stm[s][n] = use(0, 3); break;
                case TabUseStmComp: main[n] = use(0, 4); packed.push_back({ n, val(s, n, 5) }); break;
            }
        }
        if (!packed.empty())
        {
            string head, body; int idx = 0;
            // an object of no interest and one that is listed elsewhere come along
            packed.insert(packed.begin(), { 900, Val::I(900) });
            for (auto& p : packed) { head += vf::fmt("%lld %zu ", (long long)p.first, body.size()); body += write(p.second) + " "; if (p.first != 900) stm[s][p.first] = { 'c', (uint64_t)(CONT + s), idx }; idx++; }
            string data = head + body;
            Val d = Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(idx) }, { "First", Val::I(head.size()) } });
            if (l.flate) { data = deflate(data); d.m["Filter"] = Val::N("FlateDecode"); }
            d.m["Length"] = Val::I(data.size());
            stm[s][CONT + s] = put(CONT + s, 0, write(d) + "\nstream\n" + data + "\nendstream");
        }
    }
    b.off.assign(K, 0); b.prevPos.assign(K, 0); b.stmPos.assign(K, 0); b.stmOff.assign(K, 0);
    const int64_t SIZE = 100;
    std::vector<std::pair<int, size_t>> prevFix;     // (section whose offset goes there, position)
    auto xrefStream = [&](int s, bool hidden) {
        size_t p = at(); Ents e = stm[s]; e[XS + s] = { 'n', p, 0 };
        int wi = l.w; bool all1 = true, thirdZero = true;
        if (l.noIndex) for (int n = 0; n < SIZE; n++) if (!e.count(n) && (K == 1)) e[n] = { 'f', 0, 0 };
        for (auto& x : e) { if (x.second.t != 'n') all1 = false; if (x.second.g) thirdZero = false; }
        static const int Ws[][3] = { { 1, 4, 2 }, { 1, 2, 2 }, { 2, 3, 3 }, { 4, 4, 4 }, { 1, 8, 2 }, { 0, 3, 2 }, { 1, 3, 0 }, { 3, 5, 8 } };
        if ((wi == 5 && !all1) || (wi == 6 && !thirdZero)) wi = 0;
        const int* W = Ws[wi];
        string data; Val idx = Val::A(); size_t row = W[0] + W[1] + W[2];
        auto emit = [&](const XEnt& x) { uint64_t v[3] = { x.t == 'f' ? 0u : x.t == 'n' ? 1u : 2u, x.off, (uint64_t)x.g }; for (int k = 0; k < 3; k++) for (int z = W[k] - 1; z >= 0; z--) data += (char)(v[k] >> (8 * z)); };
        for (auto it = e.begin(); it != e.end();)
        {
            int64_t f = it->first, cnt = 0;
            do { emit(it->second); ++it; cnt++; } while (l.split == 0 && it != e.end() && it->first == f + cnt);
            idx.a.push_back(Val::I(f)); idx.a.push_back(Val::I(cnt));
        }
        Val d = Val::D({ { "Type", Val::N("XRef") }, { "Size", Val::I(SIZE) }, { "Root", Val::Rf(1) }, { "W", Val::A({ Val::I(W[0]), Val::I(W[1]), Val::I(W[2]) }) } });
        if (!(l.noIndex && K == 1)) d.m["Index"] = idx;
        if (l.pred) { data = pngUp(data, row); d.m["DecodeParms"] = Val::D({ { "Predictor", Val::I(12) }, { "Columns", Val::I(row) } }); }
        if (l.pred || l.flate) { data = deflate(data); d.m["Filter"] = Val::N("FlateDecode"); }
        d.m["Length"] = Val::I(data.size());
        string ds = write(d);
        o += vf::fmt("%d 0 obj\n", XS + s);
        if (s > 0 && (!hidden || l.stmPrev)) { o += "<</Prev "; if (!hidden) b.prevPos[s] = o.size(); prevFix.push_back({ s - 1, o.size() }); o += num10(0) + " " + ds.substr(2); }
        else o += ds;
        o += "\nstream\n" + data + "\nendstream\nendobj\n";
        return p;
    };
    auto section = [&](int s) {
        if (c.s[s].kind == Stream) { b.off[s] = xrefStream(s, false); return; }
        if (c.s[s].kind == Hybrid) b.stmOff[s] = xrefStream(s, true);
        b.off[s] = at();
        o += tableText(tab[s], l) + "trailer\n<</Size " + std::to_string(SIZE) + "/Root 1 0 R";
        if (s > 0) { o += "/Prev "; b.prevPos[s] = o.size(); prevFix.push_back({ s - 1, o.size() }); o += num10(0); }
        if (c.s[s].kind == Hybrid) { o += "/XRefStm "; b.stmPos[s] = o.size(); o += num10(b.stmOff[s]); }
        o += ">>\n";
    };
    if (l.rev) for (int s = K - 1; s >= 0; s--) section(s); else for (int s = 0; s < K; s++) section(s);
    for (auto& f : prevFix) o.replace(f.second, 10, num10(b.off[f.first]));
    o += "startxref\n"; b.startPos = o.size(); o += num10(b.off[K - 1]) + "\n%%EOF";
    static const char* tails[] = { "\n", "", "\r\n", "\n\n\n  \n" };
    o += tails[l.tail];
    return b;
}
struct Want { int s = -1, m = Absent; };
static Want want(const Case& c, int i)
{
    for (int s = (int)c.s.size() - 1; s >= 0; s--) if (c.s[s].m[i] != Absent) return { s, c.s[s].m[i] };
    return {};
}
static void oneCase(const Case& c)
{
    Built b = build(c);
    PdfMemDocument doc; string what; int err;
    if ((err = vf::errorOf([&] { doc.LoadFromBuffer(b.bytes); }, &what)) != -1) { C->fail("load-failed", vf::fmt("error %d: ", err) + what); return; }
    int nobj = (int)c.s[0].m.size(); string st;
    std::set<std::pair<uint32_t, int>> exp{ { 1, 0 }, { 2, 0 } };
    for (int i = 0; i < nobj; i++)
    {
        Want w = want(c, i); int n = FIRST + i; C->transition();
        static const int gen[] = { -1, 0, 1, -1, 0, 0, 0, -1 }, var[] = { -1, 0, 1, -1, 2, 3, 4, -1 };
        int g = gen[w.m];
        st += vf::fmt("%d.%d ", w.s, w.m);
        for (int q = 0; q < 3; q++)
        {
            auto po = doc.GetObjects().GetObject(PdfReference(n, q));
            if ((po != nullptr) != (q == g)) { C->fail(po ? "object-present" : "object-missing", vf::fmt("%d %d is %s, the newest mention is %c of section %d", n, q, po ? "present" : "missing", "-nNfcsbF"[w.m], w.s)); return; }
            if (!po) continue;
            exp.insert({ n, g });
            auto v = fromObject(*po); int64_t code = v.num("V", -1), should = w.s * 100 + n * 10 + var[w.m];
            if (code != should) { C->fail("wrong-value", vf::fmt("%d %d holds %lld, the newest section says %lld", n, q, (long long)code, (long long)should)); return; }
            bool stream = i == 0 && w.m != Comp;
            if (po->HasStream() != stream) { C->fail("wrong-stream", vf::fmt("%d %d has stream: %d", n, q, (int)po->HasStream())); return; }
            if (stream) { auto d = po->GetStream()->GetCopy(); string s(d.data(), d.size()); if (s != vf::fmt("data %d %d %d", w.s, n, var[w.m])) { C->fail("wrong-stream", "stream of " + std::to_string(n) + " is " + vf::esc(s)); return; } }
        }
    }
    for (PdfObject* po : doc.GetObjects())
    {
        auto r = po->GetIndirectReference();
        if (exp.erase({ r.ObjectNumber(), r.GenerationNumber() })) continue;
        auto v = fromObject(*po); auto t = v.get("Type"); if (t && (t->s == "XRef" || t->s == "ObjStm")) continue;
        C->fail("extra-object", vf::fmt("%u %u is listed", r.ObjectNumber(), r.GenerationNumber())); return;
    }
    if (!exp.empty()) { C->fail("object-missing", "an expected object is not listed"); return; }
    if (doc.GetPages().GetCount() != 0) { C->fail("wrong-root", "page count is not 0"); return; }
    C->state(vf::hash(st + std::to_string(c.s.size()))); C->trace();
}
// pointers replaced by anything: an error or a document, in time
static void brokenCase(const string& bytes)
{
    string what; int err;
    err = vf::errorOf([&] { PdfMemDocument doc; doc.LoadFromBuffer(bytes); for (PdfObject* o : doc.GetObjects()) { (void)o->GetDataType(); if (o->HasStream()) o->GetStream()->GetCopy(); } }, &what);
    C->trace(); C->outcome(vf::hash(std::to_string(err))); C->transition();
    if (err == -2) C->fail("foreign-error", what);
    C->count(err == -1 ? "broken-loaded" : "broken-rejected");
}
static void assign(int nobj, int kinds, const std::function<void(const std::vector<Sec>&)>& f, int K)
{
    static const std::vector<int> M[3] = { { Absent, Use0, Use1, Free1, Free0 }, { Absent, Use0, Use1, Free1, Comp, Free0 }, { Absent, Use0, Free1, Comp, StmUse, TabUseStmComp } };
    std::vector<Sec> s(K);
    std::function<void(int)> rec = [&](int k) {
        if (k == K) { f(s); return; }
        for (int kind = 0; kind < kinds; kind++)
        {
            auto& ms = M[kind]; s[k].kind = kind;
            vf::sequences(ms.size(), nobj, [&](const std::vector<unsigned>& v) { s[k].m.clear(); for (auto x : v) s[k].m.push_back(ms[x]); rec(k + 1); });
        }
    };
    rec(0);
}
static void explore(vf::Ctx& c)
{
    C = &c; bool T = c.thorough;
    auto go = [&](const char* tag, const Case& k) { c.run(tag, [&] { return desc(k); }, [&] { oneCase(k); }); };
    std::vector<Lay> lays(1);
    auto with = [&](const std::function<void(Lay&)>& f) { Lay l; f(l); lays.push_back(l); };
    for (int e = 1; e < 3; e++) with([&](Lay& l) { l.eol = e; });
    for (int s = 1; s < 3; s++) with([&](Lay& l) { l.split = s; });
    for (int w = 1; w < 8; w++) { with([&](Lay& l) { l.w = w; }); with([&](Lay& l) { l.w = w; l.pred = true; l.split = 1; }); }
    with([](Lay& l) { l.flate = true; }); with([](Lay& l) { l.pred = true; }); with([](Lay& l) { l.noIndex = true; }); with([](Lay& l) { l.rev = true; }); with([](Lay& l) { l.stmPrev = true; }); with([](Lay& l) { l.rev = true; l.stmPrev = true; l.flate = true; });
    with([](Lay& l) { l.compRoot = true; }); with([](Lay& l) { l.sparse0 = true; }); with([](Lay& l) { l.sparse0 = true; l.split = 1; });
    for (int t = 1; t < 4; t++) with([&](Lay& l) { l.tail = t; });
    // all single sections and pairs of sections over one object, all layouts
    for (auto& l : lays)
    {
        assign(3, 3, [&](auto& s) { go("one", { s, l }); }, 1);
        assign(1, 3, [&](auto& s) { go("two-lay", { s, l }); }, 2);
        assign(1, 3, [&](auto& s) { go("three-lay", { s, l }); }, 3);
        if (T) assign(2, 3, [&](auto& s) { go("two-lay2", { s, l }); }, 2);
    }
    assign(2, 3, [&](auto& s) { go("two", { s, {} }); }, 2);
    assign(3, 2, [&](auto& s) { go("two3", { s, {} }); }, 2);
    assign(1, 3, [&](auto& s) { go("four", { s, {} }); }, 4);
    if (T) { assign(3, 3, [&](auto& s) { go("two3", { s, {} }); }, 2); assign(2, 2, [&](auto& s) { go("three2", { s, {} }); }, 3); assign(1, 3, [&](auto& s) { go("five", { s, {} }); }, 5); }
    else assign(2, 2, [&](auto& s) { if (s[0].m[0] != Use1 && s[1].m[1] != Use1) go("three2", { s, {} }); }, 3);
    // every pointer of every chain shape redirected
    std::vector<int> both{ Use0, Comp };
    for (int K = 1; K <= (T ? 4 : 3); K++)
        vf::sequences(3, K, [&](const std::vector<unsigned>& kinds) {
            for (int rev = 0; rev < 2; rev++)
            {
                Case k; k.l.rev = rev; k.l.stmPrev = rev;
                for (int i = 0; i < K; i++) k.s.push_back({ (int)kinds[i], kinds[i] == Table ? std::vector<int>{ Use0, Free1 } : both });
                Built b = build(k);
                std::vector<std::pair<string, size_t>> ptr{ { "startxref", b.startPos } };
                for (int i = 0; i < K; i++) { if (b.prevPos[i]) ptr.push_back({ vf::fmt("Prev%d", i), b.prevPos[i] }); if (b.stmPos[i]) ptr.push_back({ vf::fmt("XRefStm%d", i), b.stmPos[i] }); }
                std::vector<string> to;
                for (int i = 0; i < K; i++) { to.push_back(num10(b.off[i])); if (b.stmOff[i]) to.push_back(num10(b.stmOff[i])); }
                for (auto x : { (long long)b.off[K - 1] + 1, (long long)b.off[K - 1] - 1, (long long)b.bytes.size(), (long long)b.bytes.size() - 1, (long long)b.bytes.size() + 1, 0LL, 1LL, 17LL, 9999999999LL }) to.push_back(num10(x));
                for (auto x : { "-000000001", "-999999999", "null      ", "1.5       ", "1 0 R     ", "(a)       ", "[1]       ", "2147483648", "4294967296", "4294967295" }) to.push_back(x);
                for (size_t p = 0; p < ptr.size(); p++) for (auto& t : to)
                {
                    string x = b.bytes; x.replace(ptr[p].second, 10, t);
                    c.run("broken", [&] { return desc(k) + ": " + ptr[p].first + " -> " + t; }, [&] { brokenCase(x); });
                    if (K <= 2 || T) for (size_t q = p + 1; q < ptr.size(); q++) for (auto& u : to)
                    {
                        string y = x; y.replace(ptr[q].second, 10, u);
                        c.run("broken2", [&] { return desc(k) + ": " + ptr[p].first + " -> " + t + ", " + ptr[q].first + " -> " + u; }, [&] { brokenCase(y); });
                    }
                }
                // all pointers among the sections: every graph of them
                std::vector<string> secs(to.begin(), to.begin() + (to.size() - 19));
                vf::sequences(secs.size(), ptr.size(), [&](const std::vector<unsigned>& v) {
                    string x = b.bytes; for (size_t p = 0; p < ptr.size(); p++) x.replace(ptr[p].second, 10, secs[v[p]]);
                    c.run("graph", [&] { string t = desc(k); for (size_t p = 0; p < ptr.size(); p++) t += " " + ptr[p].first + "->" + secs[v[p]]; return t; }, [&] { brokenCase(x); });
                });
            }
        });
    // junk before the header shifts every offset
    for (auto j : { "\n", " \n ", "junk line\n", "%PDX-\n" }) { Lay l; l.junk = j; for (int kind = 0; kind < 1; kind++) assign(2, 1, [&](auto& s) { go("junk", { s, l }); }, 1); }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P09"; cfg.caseTimeout = 10;
    cfg.rule = "every chain of up to four cross-reference sections (tables, streams, hybrids) with every mention of up to three objects per section, in every listed layout, is loaded and compared with the newest-mention model; then every pointer of every chain shape is redirected to every other place";
    cfg.assumptions = { "An object both in the table and in the hybrid stream of one section is taken from the table", "Cross-reference and object streams may stay listed as objects" };
    return vf::main(argc, argv, cfg, explore);
}
