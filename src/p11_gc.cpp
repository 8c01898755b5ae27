// P11: garbage collection against reachability computed on a plain graph.
#include "ref.h"
#include <deque>
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
typedef std::pair<int64_t, int> Id;
struct Node { Val v; bool stream = false; string data; };
typedef std::map<Id, Node> Graph;

// edge kinds between nodes
enum { None = 0, Good = 1, WrongGen = 2, Dangling = 3 };
static const int NPLACE = 9;
static void place(Val& holder, int how, int j, const Val& r)
{
    string k = vf::fmt("E%d", j);
    auto add = [&](const Val& v) { if (holder.k == Arr) holder.a.push_back(v); else holder.m[k] = v; };
    switch (how)
    {
        case 0: case 6: case 7: case 8: add(r); break;
        case 1: add(Val::A({ r })); break;
        case 2: add(Val::D({ { "X", r } })); break;
        case 3: add(Val::A({ Val::I(1), Val::A({ Val(), Val::D({ { "Y", r } }) }) })); break;
        case 4: add(Val::D({ { "P", Val::D({ { "Q", Val::A({ r }) } }) } })); break;
        case 5: add(Val::A({ r, r })); break;
    }
}
// n nodes with identifiers base+i; edges[i][j] for i = 0 (root) .. n, j = 0..n-1
struct Case { int n; std::vector<int> e; int how; int rootAt; int gen; int store; };

static Val refTo(const Case& c, int j, int kind)
{
    int64_t num = 10 + 2 * j; int g = j == 1 ? c.gen : 0;
    if (kind == WrongGen) g ^= 1;
    if (kind == Dangling) num = 99;
    return Val::Rf(num, g);
}
static void build(const Case& c, Graph& g, Val& trailer)
{
    g[{ 1, 0 }].v = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } });
    g[{ 2, 0 }].v = Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } });
    g[{ 3, 0 }].v = Val::D({ { "Title", Val::S("t") } });
    trailer = Val::D({ { "Root", Val::Rf(1) }, { "Info", Val::Rf(3) } });
    for (int i = 0; i <= c.n; i++)
    {
        Node nd;
        bool arr = (c.how == 6 && i % 2) || c.how == 7;         // nodes that are arrays
        bool isRef = c.how == 8;                                  // nodes that are a bare reference when they have one edge
        nd.v = arr && i ? Val::A({ Val::I(i) }) : Val::D({ { "N", Val::I(i) } });
        int cnt = 0; Val last;
        for (int j = 0; j < c.n; j++)
        {
            int k = c.e[i * c.n + j];
            if (!k) continue;
            Val r = refTo(c, j, k); cnt++; last = r;
            if (i == 0)
            {
                Val& h = c.rootAt == 0 ? g[{ 1, 0 }].v : c.rootAt == 1 ? trailer : g[{ 3, 0 }].v;
                place(h, c.how, j, r);
            }
            else place(nd.v, c.how, j, r);
        }
        if (i == 0) continue;
        if (isRef && cnt == 1) nd.v = last;
        if (nd.v.k == Dict && (c.how == 2 || (c.how == 0 && i == 2))) { nd.stream = true; nd.data = vf::fmt("data %d", i); }
        g[{ 10 + 2 * (i - 1), i == 2 ? c.gen : 0 }] = nd;
    }
}
static std::set<Id> reach(const Graph& g, const Val& trailer)
{
    std::set<Id> seen; std::deque<const Val*> q{ &trailer };
    while (!q.empty())
    {
        const Val* v = q.front(); q.pop_front();
        if (v->k == Ref) { Id id{ v->i, v->g }; auto it = g.find(id); if (it != g.end() && seen.insert(id).second) q.push_back(&it->second.v); }
        for (auto& x : v->a) q.push_back(&x);
        for (auto& x : v->m) q.push_back(&x.second);
    }
    return seen;
}
static string describe(const Case& c)
{
    string s = vf::fmt("n=%d how=%d root=%d gen=%d store=%d edges ", c.n, c.how, c.rootAt, c.gen, c.store);
    for (int i = 0; i <= c.n; i++) { for (int j = 0; j < c.n; j++) s += char('0' + c.e[i * c.n + j]); s += ' '; }
    return s;
}
static void oneCase(const Case& c)
{
    Graph g; Val trailer; build(c, g, trailer);
    std::unique_ptr<PdfMemDocument> doc;
    std::set<Id> exempt;
    std::map<Id, Id> map;                                 // identifiers in g -> in the document
    string bytes;
    if (c.store == 0)
    {
        // built through the interface: contents first created, then references filled in
        doc.reset(new PdfMemDocument());
        // identifiers differ: map them
        std::map<Id, PdfReference> to;
        to[{ 1, 0 }] = doc->GetCatalog().GetObject().GetIndirectReference();
        to[{ 2, 0 }] = doc->GetCatalog().GetDictionary().MustGetKey("Pages").GetReference();
        to[{ 3, 0 }] = doc->GetTrailer().GetDictionary().MustGetKey("Info").GetReference();
        for (auto& n : g) if (!to.count(n.first)) to[n.first] = doc->GetObjects().CreateObject(PdfObject()).GetIndirectReference();
        std::function<Val(const Val&)> tr = [&](const Val& v) {
            Val x = v;
            if (v.k == Ref) { auto it = to.find({ v.i, v.g }); if (it != to.end()) x = Val::Rf(it->second.ObjectNumber(), it->second.GenerationNumber()); else x = v.i == 99 ? v : Val::Rf(to[{ v.i, v.g ^ 1 }].ObjectNumber(), v.g); }
            for (auto& y : x.a) y = tr(y);
            for (auto& y : x.m) y.second = tr(y.second);
            return x; };
        Graph h;
        for (auto& n : g)
        {
            Node m = n.second; m.v = tr(m.v);
            auto& r = to[n.first]; auto& o = doc->GetObjects().MustGetObject(r);
            if (n.first.first <= 3)
            {
                for (auto& kv : m.v.m) if (kv.first[0] == 'E') o.GetDictionary().AddKey(PdfName(kv.first), toObject(kv.second));
                m.v = fromObject(o);
            }
            else if (m.stream) { o = toObject(m.v); o.GetOrCreateStream().SetData(m.data, true); m.v.m["Length"] = Val::I(m.data.size()); }
            else o = toObject(m.v);
            h[{ r.ObjectNumber(), r.GenerationNumber() }] = m;
        }
        for (auto& kv : trailer.m) if (kv.first[0] == 'E') doc->GetTrailer().GetDictionary().AddKey(PdfName(kv.first), toObject(tr(kv.second)));
        trailer = fromObject(doc->GetTrailer().GetObject());
        for (PdfObject* o : doc->GetObjects()) { Id id{ o->GetIndirectReference().ObjectNumber(), o->GetIndirectReference().GenerationNumber() }; if (!h.count(id)) h[id].v = fromObject(*o); }
        g = h;
    }
    else
    {
        Builder b("%PDF-1.5\n");
        std::map<int64_t, XEnt> ents;
        Val packed = Val::A(); string head, body; int idx = 0;
        for (auto& n : g)
        {
            bool z = c.store == 2 && !n.second.stream && n.first.second == 0 && n.first.first > 3;
            if (z) { head += vf::fmt("%lld %zu ", (long long)n.first.first, body.size()); body += write(n.second.v) + " "; ents[n.first.first] = { 'c', 50, idx++ }; }
            else if (n.second.stream) { b.stream(n.first.first, n.second.v, n.second.data, n.first.second); n.second.v.m["Length"] = Val::I(n.second.data.size()); }
            else b.obj(n.first.first, n.second.v, n.first.second);
        }
        Val t = trailer; size_t x;
        if (c.store == 2)
        {
            if (idx) b.stream(50, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(idx) }, { "First", Val::I(head.size()) } }), head + body);
            for (auto& o : b.offs) ents[o.first] = { 'n', o.second.first, o.second.second };
            ents[0] = { 'f', 0, 65535 };
            x = b.xrefStream(60, t, ents);
            exempt = { { 50, 0 }, { 60, 0 } };
        }
        else x = b.xrefTableAuto(t);
        b.startxref(x);
        bytes = b.out;
        doc.reset(new PdfMemDocument());
        doc->LoadFromBuffer(bytes);
    }
    auto want = reach(g, trailer);
    doc->CollectGarbage();
    for (int round = 0; round < 2; round++)
    {
        std::set<Id> got;
        for (PdfObject* o : doc->GetObjects()) got.insert({ o->GetIndirectReference().ObjectNumber(), o->GetIndirectReference().GenerationNumber() });
        for (auto& id : want) if (!got.count(id)) { C->fail("reachable-removed", vf::fmt("%lld %d is reachable but was removed", (long long)id.first, id.second)); return; }
        for (auto& id : got) if (!want.count(id) && !exempt.count(id)) { C->fail("unreachable-kept", vf::fmt("%lld %d is unreachable but was kept", (long long)id.first, id.second)); return; }
        for (auto& id : want)
        {
            auto& o = doc->GetObjects().MustGetObject(PdfReference((uint32_t)id.first, (uint16_t)id.second));
            auto& n = g[id];
            Val v = fromObject(o); if (c.store == 0) { v.m.erase("Length"); n.v.m.erase("Length"); }
            if (!equal(v, n.v)) { C->fail("content-changed", vf::fmt("%lld %d was %s, now %s", (long long)id.first, id.second, show(n.v).c_str(), show(v).c_str())); return; }
            if (o.HasStream() != n.stream || (n.stream && string(o.GetStream()->GetCopy(true).data(), n.data.size()) != n.data)) { C->fail("stream-changed", vf::fmt("stream of %lld %d changed", (long long)id.first, id.second)); return; }
        }
        if (round == 0) doc->CollectGarbage();              // idempotent
    }
    // numbers of removed objects come back without clashing with kept ones
    for (size_t i = 0; i < g.size() - want.size() + 2; i++)
    {
        auto r = doc->GetObjects().CreateDictionaryObject().GetIndirectReference();
        for (auto& id : want) if (id.first == r.ObjectNumber()) { C->fail("number-clash", "a new object took the number of a kept object, " + r.ToString()); return; }
        if (g.count({ r.ObjectNumber(), r.GenerationNumber() })) { C->fail("identifier-reused", "a new object took the identifier of a collected object, " + r.ToString()); return; }
    }
    string st; for (auto& id : want) st += vf::fmt("%lld ", (long long)id.first);
    C->state(vf::fmt("%d ", c.n) + st); C->trace(); C->transition();
}
static void all(vf::Ctx& c, int n, int kinds, const std::vector<int>& hows, const std::vector<int>& roots, const std::vector<int>& gens, const std::vector<int>& stores)
{
    vf::sequences(kinds, n * (n + 1), [&](const std::vector<unsigned>& v) {
        for (int how : hows) for (int r : roots) for (int g : gens) for (int s : stores)
        {
            Case k{ n, std::vector<int>(v.begin(), v.end()), how, r, s == 0 ? 0 : g, s };
            c.run(vf::fmt("graph%d", n).c_str(), [&] { return describe(k); }, [&] { oneCase(k); });
        }
    });
}
static void explore(vf::Ctx& c)
{
    C = &c;
    std::vector<int> H{ 0, 1, 2, 3, 4, 5, 6, 7, 8 };
    all(c, 1, 4, H, { 0, 1, 2 }, { 0, 1 }, { 0, 1, 2 });
    all(c, 2, c.thorough ? 4 : 3, H, { 0, 1, 2 }, { 1 }, { 0, 1, 2 });
    all(c, 3, 2, H, { 0 }, { 1 }, { 0, 1, 2 });
    if (c.thorough) { all(c, 3, 2, H, { 1, 2 }, { 0, 1 }, { 0, 1, 2 }); all(c, 3, 3, { 0, 3, 7 }, { 0 }, { 1 }, { 1 }); all(c, 4, 2, { 0, 6, 8 }, { 0 }, { 1 }, { 2 }); }
    // all graphs in which every node has at most one reference
    int n = c.thorough ? 6 : 5;
    vf::sequences(n + 1, n + 1, [&](const std::vector<unsigned>& v) {
        Case k{ n, std::vector<int>(n * (n + 1), 0), (int)(v[0] + v[1] + v[2]) % NPLACE, (int)v[1] % 3, 0, 1 + (int)v[2] % 2 };
        for (int i = 0; i <= n; i++) if (v[i] < (unsigned)n) k.e[i * n + v[i]] = Good;
        c.run("function", [&] { return describe(k); }, [&] { oneCase(k); });
    });
    // long chains: one object refers to the next
    for (int len : { 1000, c.thorough ? 25000 : 10000 }) for (int back = 0; back < 2; back++)
        c.run("chain", [&] { return vf::fmt("chain of %d objects, back %d", len, back); }, [&] {
            PdfMemDocument doc;
            std::vector<PdfReference> r; std::vector<PdfObject*> po;
            for (int i = 0; i < len; i++) { po.push_back(&doc.GetObjects().CreateDictionaryObject()); r.push_back(po.back()->GetIndirectReference()); }
            auto lone = doc.GetObjects().CreateDictionaryObject().GetIndirectReference();
            for (int i = 0; i + 1 < len; i++) { po[back ? i + 1 : i]->GetDictionary().AddKey("Next", r[back ? i : i + 1]); }
            doc.GetCatalog().GetDictionary().AddKey("Chain", r[back ? len - 1 : 0]);
            unsigned n0 = doc.GetObjects().GetSize();
            doc.CollectGarbage();
            if (doc.GetObjects().GetObject(lone)) c.fail("unreachable-kept", "the object outside the chain was kept");
            if (doc.GetObjects().GetSize() != n0 - 1) c.fail("reachable-removed", vf::fmt("%u of %u objects kept", doc.GetObjects().GetSize(), n0 - 1));
        });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P11";
    cfg.rule = "all reference graphs over the nodes, for every placement of references, place of the root edges and way of storing; a state is a reachable set, a transition a collection compared with it";
    cfg.assumptions = { "Object streams and cross-reference streams of the loaded file may be kept or removed" };
    return vf::main(argc, argv, cfg, explore);
}
