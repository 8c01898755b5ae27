// P10: the indirect object list against a map model, all operation sequences.
#include "ref.h"
#include <deque>
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;

struct Start
{
    string name;
    string bytes;                                   // empty: new document
    string before;                                  // loaded first into the same document object
    bool copy = false;
    std::map<int64_t, int> freeGen;                 // numbers the file lists as free: first admissible generation
};
static Val user(int64_t id) { return Val::D({ { "Id", Val::I(id) } }); }

static string withTable(const std::vector<std::pair<int64_t, int>>& live, const std::map<int64_t, int>& fr, bool stream = false)
{
    Builder b(stream ? "%PDF-1.7\n" : "%PDF-1.4\n");
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } }));
    b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } }));
    for (auto& l : live) b.obj(l.first, user(1000 + l.first), l.second);
    std::map<int64_t, XEnt> e;
    for (auto& o : b.offs) e[o.first] = { 'n', o.second.first, o.second.second };
    int64_t next = 0;
    for (auto it = fr.rbegin(); it != fr.rend(); ++it) { e[it->first] = { 'f', (uint64_t)next, it->second }; next = it->first; }
    e[0] = { 'f', (uint64_t)next, 65535 };
    Val t = Val::D({ { "Root", Val::Rf(1) } });
    size_t x;
    if (stream) x = b.xrefStream(e.rbegin()->first + 1, t, e);
    else { t.m["Size"] = Val::I(e.rbegin()->first + 1); x = b.xrefTable(t, e); }
    b.startxref(x);
    return b.out;
}

enum { Create, CreateArr, CreateCopy, CreateMove, RemoveFirst, RemoveLast, RemoveMid, RemoveMissing, RemoveStale, Replace, ReplaceMissing, Toggle, Collect, NOPS };
static const char* opName[] = { "create", "array", "copy", "move", "remove-first", "remove-last", "remove-mid", "remove-missing", "remove-stale", "replace", "replace-missing", "toggle-reuse", "collect" };

struct World
{
    std::unique_ptr<PdfMemDocument> doc, orig;
    std::map<PdfReference, int64_t> live;           // identifier -> payload (-1: not a user object)
    std::map<int64_t, int> minGen;                  // admissible generation for numbers used before
    PdfReference stale; bool hasStale = false;
    int64_t nextId = 1;
};

static int64_t idOf(const PdfObject& o)
{
    if (o.IsDictionary() && o.GetDictionary().HasKey("Id")) return o.GetDictionary().MustFindKey("Id").GetNumber();
    if (o.IsArray() && o.GetArray().GetSize() == 1 && o.GetArray()[0].IsNumber()) return o.GetArray()[0].GetNumber();
    return -1;
}

static void verify(World& w, const string& at, bool full)
{
    auto& L = w.doc->GetObjects();
    if (L.GetSize() != w.live.size() || L.size() != w.live.size()) { C->fail("size", at + vf::fmt(": list holds %u objects, the map %zu", L.GetSize(), w.live.size())); return; }
    auto it = w.live.begin();
    for (PdfObject* o : L)
    {
        if (it == w.live.end() || o->GetIndirectReference() != it->first) { C->fail("iteration", at + ": iteration gives " + o->GetIndirectReference().ToString() + (it == w.live.end() ? " beyond the end" : ", the map has " + it->first.ToString())); return; }
        if (idOf(*o) != it->second) { C->fail("content", at + ": " + o->GetIndirectReference().ToString() + vf::fmt(" holds %lld instead of %lld", (long long)idOf(*o), (long long)it->second)); return; }
        if (o->GetDocument() != w.doc.get()) { C->fail("document", at + ": object without its document"); return; }
        if (L.GetObject(it->first) != o || &L.MustGetObject(it->first) != o) { C->fail("lookup", at + ": lookup of " + it->first.ToString() + " gives another object"); return; }
        ++it;
    }
    std::map<uint32_t, int> nums;
    for (auto& p : w.live) if (++nums[p.first.ObjectNumber()] > 1) { C->fail("number-twice", at + vf::fmt(": number %u is held by two live objects", p.first.ObjectNumber())); return; }
    if (!w.live.empty() && L.GetObjectCount() <= w.live.rbegin()->first.ObjectNumber()) { C->fail("count", at + ": object count is not above the highest number"); return; }
    if (!full) return;
    std::set<uint32_t> probe{ 1 };
    for (auto& p : w.live) { probe.insert(p.first.ObjectNumber()); probe.insert(p.first.ObjectNumber() + 1); probe.insert(p.first.ObjectNumber() - 1); }
    for (auto& p : w.minGen) probe.insert((uint32_t)p.first);
    for (uint32_t n : probe)
        for (int g : { 0, 1, 2, 3, 4, 65534, 65535 })
        {
            PdfReference r(n, (uint16_t)g);
            auto f = w.live.find(r);
            auto got = L.GetObject(r);
            if ((got != nullptr) != (f != w.live.end())) { C->fail("lookup", at + ": lookup of " + r.ToString() + (got ? " finds an object that does not exist" : " finds nothing")); return; }
            if (!got && vf::errorOf([&] { L.MustGetObject(r); }) != (int)PdfErrorCode::NoObject) { C->fail("mustget", at + ": MustGetObject of " + r.ToString() + " does not report a missing object"); return; }
        }
    C->transition();
}

static bool created(World& w, PdfObject& o, int64_t id, const string& at)
{
    PdfReference r = o.GetIndirectReference();
    if (w.live.count(r)) { C->fail("id-in-use", at + ": new object takes " + r.ToString() + ", which is in use"); return false; }
    for (auto& p : w.live) if (p.first.ObjectNumber() == r.ObjectNumber()) { C->fail("number-in-use", at + ": new object takes " + r.ToString() + " while " + p.first.ToString() + " is live"); return false; }
    auto m = w.minGen.find(r.ObjectNumber());
    if (m != w.minGen.end() && r.GenerationNumber() < m->second) { C->fail("reuse-generation", at + ": freed number came back as " + r.ToString() + vf::fmt(", its generation must be at least %d", m->second)); return false; }
    if (r.ObjectNumber() == 0 || r.ObjectNumber() > 8388607) { C->fail("number-range", at + ": new object number " + r.ToString()); return false; }
    w.live[r] = id;
    return true;
}
static void removed(World& w, const PdfReference& r)
{
    w.live.erase(r);
    w.minGen[r.ObjectNumber()] = r.GenerationNumber() + 1 >= 65535 ? 70000 : r.GenerationNumber() + 1;
    w.stale = r; w.hasStale = true;
}

static void load(World& w, const Start& s)
{
    w.doc.reset(new PdfMemDocument());
    if (!s.before.empty()) { w.doc->LoadFromBuffer(s.before); for (int i = 0; i < 3; i++) { auto& o = w.doc->GetObjects().CreateDictionaryObject(); w.doc->GetObjects().RemoveObject(o.GetIndirectReference()); } }
    if (!s.bytes.empty()) w.doc->LoadFromBuffer(s.bytes);
    if (s.copy) { w.orig = std::move(w.doc); w.doc.reset(new PdfMemDocument(*w.orig)); }
    for (PdfObject* o : w.doc->GetObjects()) w.live[o->GetIndirectReference()] = idOf(*o);
    for (auto& f : s.freeGen) w.minGen[f.first] = f.second;
    if (s.bytes.empty()) for (int i = 0; i < 2; i++) { auto& o = w.doc->GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("Id", PdfObject((int64_t)(500 + i))); w.live[o.GetIndirectReference()] = 500 + i; }
}

static void oneCase(const Start& s, const std::vector<unsigned>& ops)
{
    World w; load(w, s);
    auto& L = w.doc->GetObjects();
    verify(w, "start " + s.name, true);
    string at = s.name + ":";
    for (size_t k = 0; k < ops.size() && !C->failed(); k++)
    {
        at += string(" ") + opName[ops[k]];
        std::vector<PdfReference> us;
        for (auto& p : w.live) if (p.second >= 0) us.push_back(p.first);
        int64_t id = w.nextId++;
        switch (ops[k])
        {
            case Create: { auto& o = L.CreateDictionaryObject("T"); o.GetDictionary().AddKey("Id", PdfObject(id)); if (!created(w, o, id, at)) return; break; }
            case CreateArr: { auto& o = L.CreateArrayObject(); o.GetArray().Add(PdfObject(id)); if (!created(w, o, id, at)) return; break; }
            case CreateCopy: { PdfObject src = toObject(user(id)); auto& o = L.CreateObject(src); if (!created(w, o, id, at)) return; break; }
            case CreateMove: { PdfObject src = toObject(user(id)); auto& o = L.CreateObject(std::move(src)); if (!created(w, o, id, at)) return; break; }
            case RemoveFirst: case RemoveLast: case RemoveMid:
            {
                if (us.empty()) break;
                PdfReference r = ops[k] == RemoveFirst ? us.front() : ops[k] == RemoveLast ? us.back() : us[us.size() / 2];
                std::unique_ptr<PdfObject> o;
                if (ops[k] == RemoveMid) { auto it = L.begin(); while ((*it)->GetIndirectReference() != r) ++it; o = L.RemoveObject(it); }
                else o = L.RemoveObject(r);
                if (!o || idOf(*o) != w.live[r]) { C->fail("remove", at + ": removal does not hand out the object " + r.ToString()); return; }
                removed(w, r);
                break;
            }
            case RemoveMissing:
            {
                PdfReference r = us.empty() ? PdfReference(1, 7) : PdfReference(us.back().ObjectNumber(), (uint16_t)(us.back().GenerationNumber() ^ 1));
                if (w.live.count(r)) break;
                if (L.RemoveObject(r)) { C->fail("remove-missing", at + ": removal of missing " + r.ToString() + " removed something"); return; }
                if (L.RemoveObject(PdfReference(L.GetObjectCount() + 5, 0))) { C->fail("remove-missing", at + ": removal beyond the end removed something"); return; }
                break;
            }
            case RemoveStale:
                if (w.hasStale && !w.live.count(w.stale) && L.RemoveObject(w.stale)) { C->fail("remove-missing", at + ": removal of already removed " + w.stale.ToString() + " removed something"); return; }
                break;
            case Replace:
            {
                if (us.empty()) break;
                PdfReference r = us[us.size() / 2];
                auto n = new PdfObject(toObject(user(id)));
                auto old = L.ReplaceObject(r, n);
                if (!old || idOf(*old) != w.live[r]) { C->fail("replace", at + ": replacing does not hand out the old object"); return; }
                w.live[r] = id;
                break;
            }
            case ReplaceMissing:
            {
                for (PdfReference r : { PdfReference(2, 9), w.hasStale ? w.stale : PdfReference(1, 3), PdfReference(L.GetObjectCount() + 3, 0) })
                {
                    if (w.live.count(r)) continue;
                    auto n = new PdfObject(toObject(user(id)));
                    int rc = vf::errorOf([&] { L.ReplaceObject(r, n); });
                    if (rc < 0) { C->fail("replace-missing", at + ": replacing missing " + r.ToString() + " succeeds"); return; }
                    delete n;
                }
                break;
            }
            case Toggle: L.SetCanReuseObjectNumbers(!L.GetCanReuseObjectNumbers()); break;
            case Collect:           // removes every object nothing refers to, the user's ones among them
            {
                w.doc->CollectGarbage();
                std::set<PdfReference> left; for (PdfObject* o : L) left.insert(o->GetIndirectReference());
                auto was = w.live;
                for (auto& p : was) if (!left.count(p.first)) removed(w, p.first); else if (p.second >= 0) { C->fail("collect", at + ": " + p.first.ToString() + " was not collected"); return; }
                break;
            }
        }
        verify(w, at, k + 1 == ops.size());
    }
    string st; for (auto& p : w.live) st += p.first.ToString() + " "; for (auto& f : L.GetFreeObjects()) st += "f" + f.ToString();
    C->state(s.name + st); C->trace();
}

static void explore(vf::Ctx& c)
{
    C = &c;
    std::vector<Start> st;
    st.push_back({ "new", "", "" });
    std::map<int64_t, int> fr{ { 5, 3 }, { 7, 65535 }, { 9, 1 } };
    std::map<int64_t, int> mg{ { 5, 3 }, { 7, 70000 }, { 9, 1 } };
    string gaps = withTable({ { 4, 0 }, { 6, 2 }, { 8, 65534 } }, fr);
    st.push_back({ "gaps", gaps, "", false, mg });
    st.push_back({ "gaps-stream", withTable({ { 4, 0 }, { 6, 2 }, { 8, 65533 } }, fr, true), "", false, mg });
    st.push_back({ "copy", gaps, "", true, mg });
    st.push_back({ "second-load", withTable({ { 3, 0 }, { 4, 0 }, { 6, 0 } }, {}), gaps, false, {} });
    st.push_back({ "gen-limit", withTable({ { 3, 65533 }, { 4, 65534 }, { 5, 65532 } }, { { 6, 65534 }, { 7, 65533 } }), "", false, { { 6, 65534 }, { 7, 65533 } } });
    st.push_back({ "last-unavailable", withTable({ { 3, 0 } }, { { 4, 65535 }, { 5, 65535 } }), "", false, { { 4, 70000 }, { 5, 70000 } } });
    // all operations to a depth, and the ones that change the free list one or two deeper
    static const unsigned core[] = { Create, RemoveFirst, RemoveLast, RemoveMid, Toggle };
    unsigned depth = c.thorough ? 5 : 4, deep = c.thorough ? 8 : 6;
    for (auto& s : st)
        for (unsigned d = 0; d <= deep; d++)
            vf::sequences(d <= depth ? (unsigned)NOPS : 5, d, [&](const std::vector<unsigned>& v) {
                auto u = v; if (d > depth) for (auto& x : u) x = core[x];
                c.run(s.name.c_str(), [&] { string r = s.name; for (auto o : u) r += string(" ") + opName[o]; return r; }, [&] { oneCase(s, u); });
            });
    // around the 16 bit limit and with large numbers
    std::vector<Start> big;
    for (int64_t n : { 65533, 65534, 65535, 65536, 70000, 131070 }) big.push_back({ vf::fmt("number-%lld", (long long)n), withTable({ { 3, 0 }, { n, 0 } }, {}), "", false, {} });
    for (auto& s : big)
        for (unsigned d = 1; d <= 3; d++)
            vf::sequences(d <= 2 ? (unsigned)NOPS : 6, d, [&](const std::vector<unsigned>& v) {
                static const unsigned few[] = { Create, RemoveLast, RemoveFirst, CreateCopy, Toggle, ReplaceMissing };
                auto u = v; if (d > 2) for (auto& x : u) x = few[x];
                c.run("large", [&] { string r = s.name; for (auto o : u) r += string(" ") + opName[o]; return r; }, [&] { oneCase(s, u); });
            });
    // at the largest object number: creation must fail rather than exceed it
    for (int64_t n : { 8388604, 8388605, 8388606 })
        c.run("limit", [&] { return vf::fmt("number %lld", (long long)n); }, [&] {
            Start s{ "limit", withTable({ { 3, 0 } }, {}), "", false, {} };
            World w; load(w, s);
            w.doc->GetObjects().TryIncrementObjectCount(PdfReference((uint32_t)n, 0));
            for (int i = 0; i < 5; i++)
            {
                int64_t id = i; PdfObject* o = nullptr;
                int rc = vf::errorOf([&] { o = &w.doc->GetObjects().CreateDictionaryObject(); o->GetDictionary().AddKey("Id", PdfObject(id)); });
                if (rc == -1) { if (!created(w, *o, id, "at the limit")) return; if (o->GetIndirectReference().ObjectNumber() <= n) { c.fail("number-range", "a number below the count was given out"); return; } }
                else if (rc == -2) c.fail("foreign-error", "foreign exception at the limit");
                verify(w, "at the limit", true);
            }
        });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P10";
    cfg.rule = "all operation sequences up to the depth from every start state; a state is the set of live and free identifiers reached, a transition a full comparison with the map model";
    cfg.assumptions = { "New identifiers may be any unused number; nothing is required about which one" };
    return vf::main(argc, argv, cfg, explore);
}
