// P08: incremental updates. Every public mutator at every place of a document,
// in pairs within one round and over rounds, against a graph model; the bytes
// before must stay, and both the library and the strict reader must see the model.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
typedef std::pair<int64_t, int> Id;
struct Node { Val v; bool stream = false; string data; };
typedef std::map<Id, Node> Graph;
static Id idOf(const PdfObject& o) { return { o.GetIndirectReference().ObjectNumber(), o.GetIndirectReference().GenerationNumber() }; }
static PdfReference rf(const Id& i) { return PdfReference((uint32_t)i.first, (uint16_t)i.second); }
static string ids(const Id& i) { return vf::fmt("%lld %d", (long long)i.first, i.second); }

static const int STARTS = 4;
static string startDoc(int k)
{
    Builder b("%PDF-1.5\n%\xE2\xE3\xCF\xD3\n");
    std::map<int64_t, Val> o;
    o[1] = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) }, { "M", Val::Rf(3) }, { "A", Val::Rf(4) }, { "N", Val::Rf(5) }, { "S", Val::Rf(6) }, { "R", Val::Rf(7) }, { "Z", Val::Rf(8) } });
    o[2] = Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } });
    o[3] = Val::D({ { "D", Val::D({ { "E", Val::D({ { "F", Val::I(1) } }) } }) }, { "A", Val::A({ Val::A({ Val::I(1), Val::I(2) }), Val::D({ { "G", Val::I(2) } }) }) }, { "S", Val::S("str") }, { "N", Val::R(1.5) }, { "R", Val::Rf(4) }, { "B", Val::B(true) } });
    o[4] = Val::A({ Val::I(1), Val::A({ Val::I(2), Val::I(3) }), Val::D({ { "H", Val::I(3) } }), Val::S("s"), Val::R(4.5) });
    o[5] = Val::I(7); o[8] = Val::S("x"); o[9] = Val::D({ { "Title", Val::S("T") } });
    Val sd = Val::D({ { "X", Val::D({ { "Y", Val::I(1) } }) } });
    Val s6 = sd; s6.m["Filter"] = Val::N("FlateDecode");
    Val tr = Val::D({ { "Root", Val::Rf(1) }, { "Info", Val::Rf(9) }, { "ID", Val::A({ Val::S("0123456789abcdef", true), Val::S("0123456789abcdef", true) }) } });
    std::map<int64_t, XEnt> e; e[0] = { 'f', 0, 65535 };
    size_t x;
    if (k == 1)                 // object stream and cross-reference stream
    {
        string head, body; int i = 0;
        for (auto& p : o) { head += vf::fmt("%lld %zu ", (long long)p.first, body.size()); body += write(p.second) + " "; e[p.first] = { 'c', 10, i++ }; }
        b.stream(10, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(i) }, { "First", Val::I(head.size()) } }), head + body);
    }
    else for (auto& p : o) b.obj(p.first, p.second);
    b.stream(6, s6, deflate("data six")); b.stream(7, Val::D(), "data seven");
    for (auto& p : b.offs) e[p.first] = { 'n', p.second.first, p.second.second };
    if (k == 1) x = b.xrefStream(11, tr, e);
    else
    {
        if (k == 2) { e[0].off = 12; e[12] = { 'f', 0, 2 }; }       // a free number, and a first update already there
        tr.m["Size"] = Val::I(e.rbegin()->first + 1);
        x = b.xrefTable(tr, e);
    }
    b.startxref(x);
    if (k == 2)
    {
        b.obj(5, Val::I(7));
        std::map<int64_t, XEnt> u; u[5] = { 'n', b.offs[5].first, 0 };
        Val t = tr; t.m["Prev"] = Val::I(x);
        size_t y = b.xrefTable(t, u); b.startxref(y);
    }
    return b.out;
}
static Graph startModel(int k)
{
    File f = readFile(startDoc(k));
    if (f.problems.size()) { printf("start document %d: %s\n", k, f.problems[0].c_str()); exit(2); }
    Graph g;
    for (auto& o : f.objs) { auto t = o.second.v.get("Type"); if (t && (t->s == "ObjStm" || t->s == "XRef")) continue; Node n{ o.second.v, o.second.stream, "" }; if (n.stream) n.data = f.decoded(o.second); g[{ o.first, o.second.g }] = n; }
    return g;
}
// --- operations -------------------------------------------------------------
struct Doc { std::unique_ptr<PdfMemDocument> d; Graph g; string bytes; int n = 0; };
struct Op { string name; std::function<bool(Doc&)> f; };
static std::vector<Op> OPS;
struct Path { const char* name; int obj; std::vector<string> p; };
static bool locate(Doc& d, const Path& p, PdfObject*& o, Val*& v)
{
    auto it = d.g.find({ p.obj, 0 });
    if (it == d.g.end()) return false;
    o = d.d->GetObjects().GetObject(PdfReference(p.obj, 0)); v = &it->second.v;
    if (!o) { C->fail("object-gone", vf::fmt("object %d is not in the loaded document", p.obj)); return false; }
    for (auto& s : p.p)
    {
        if (isdigit((unsigned char)s[0])) { size_t i = atoi(s.c_str()); if (v->k != Arr || v->a.size() <= i) return false; v = &v->a[i]; o = &o->GetArray()[i]; }
        else { if (v->k != Dict || !v->m.count(s)) return false; v = &v->m[s]; o = &o->GetDictionary().MustGetKey(s); }
    }
    return true;
}
static void buildOps()
{
    auto on = [](const Path& p, const string& n, Kind k, std::function<void(Doc&, PdfObject&, Val&)> f) {
        OPS.push_back({ string(p.name) + "." + n, [=](Doc& d) { PdfObject* o; Val* v; if (!locate(d, p, o, v) || v->k != k) return false; f(d, *o, *v); return true; } });
    };
    auto N = [](Doc& d) { return (int64_t)(1000 + ++d.n); };
    Path dicts[] = { { "obj", 3, {} }, { "obj/D", 3, { "D" } }, { "obj/D/E", 3, { "D", "E" } }, { "obj/A/1", 3, { "A", "1" } }, { "arr/2", 4, { "2" } }, { "catalog", 1, {} }, { "streamdict", 6, {} }, { "streamdict/X", 7, { "X" } }, { "stream7", 7, {} } };
    for (auto& p : dicts)
    {
        bool top = p.p.empty() && p.obj != 3;
        // whole-dictionary changes of a stream would drop its Filter: not a change of the dictionary alone
        auto onDict = [&](const Path& p, const string& n, Kind k, std::function<void(Doc&, PdfObject&, Val&)> f) { OPS.push_back({ string(p.name) + "." + n, [=](Doc& d) { PdfObject* o; Val* v; if (!locate(d, p, o, v) || v->k != k || (p.p.empty() && d.g[{ p.obj, 0 }].stream)) return false; f(d, *o, *v); return true; } }); };
        on(p, "addNew", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); string k = vf::fmt("K%d", d.n); o.GetDictionary().AddKey(PdfName(k), PdfObject(n)); v.m[k] = Val::I(n); });
        on(p, "addNested", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); auto& x = o.GetDictionary().AddKey("W", PdfObject(PdfDictionary())); x.GetDictionary().AddKey("In", PdfObject(n)); auto& y = x.GetDictionary().AddKey("Ar", PdfArray()); y.GetArray().Add(PdfObject(n)); v.m["W"] = Val::D({ { "In", Val::I(n) }, { "Ar", Val::A({ Val::I(n) }) } }); });
        on(p, "addRef", Dict, [=](Doc& d, PdfObject& o, Val& v) { if (!d.g.count({ 5, 0 })) return; o.GetDictionary().AddKeyIndirect("Rf", d.d->GetObjects().MustGetObject(PdfReference(5, 0))); v.m["Rf"] = Val::Rf(5); });
        on(p, "addSafe", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.GetDictionary().AddKeyIndirectSafe("Sf", PdfObject(n)); v.m["Sf"] = Val::I(n); });
        on(p, "replaceFirst", Dict, [=](Doc& d, PdfObject& o, Val& v) { for (auto& kv : v.m) { string k = kv.first; if (k == "Pages" || k == "Type" || k == "Filter" || k == "Length" || kv.second.k == Ref) continue; auto n = N(d); o.GetDictionary().AddKey(PdfName(k), PdfObject(n)); kv.second = Val::I(n); break; } });
        on(p, "removeFirst", Dict, [=](Doc& d, PdfObject& o, Val& v) { for (auto& kv : v.m) { string k = kv.first; if (k == "Pages" || k == "Type" || k == "Filter" || k == "Length" || (top && kv.second.k == Ref)) continue; o.GetDictionary().RemoveKey(k); v.m.erase(k); break; } });
        on(p, "iterate", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); for (auto& kv : o.GetDictionary()) { if (kv.second.IsNumber() && kv.first != "Length") { kv.second.SetNumber(n); v.m[kv.first.GetString()] = Val::I(n); break; } } });
        if (!top)
        {
            onDict(p, "clear", Dict, [=](Doc&, PdfObject& o, Val& v) { o.GetDictionary().Clear(); v.m.clear(); });
            onDict(p, "assignDict", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfDictionary x; x.AddKey("As", PdfObject(n)); o.GetDictionary() = x; v = Val::D({ { "As", Val::I(n) } }); });
            onDict(p, "moveDict", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfDictionary x; x.AddKey("Mv", PdfArray()); x.MustGetKey("Mv").GetArray().Add(PdfObject(n)); o.GetDictionary() = std::move(x); v = Val::D({ { "Mv", Val::A({ Val::I(n) }) } }); });
        }
        if (p.obj != 6 && p.obj != 7 && p.obj != 1)
        {
            onDict(p, "assignObj", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o = PdfObject(n); v = Val::I(n); });
            onDict(p, "assignObjDict", Dict, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfDictionary x; x.AddKey("Q", PdfObject(n)); PdfObject y(x); o = y; v = Val::D({ { "Q", Val::I(n) } }); o.GetDictionary().AddKey("Q2", PdfObject(n)); v.m["Q2"] = Val::I(n); });
        }
    }
    Path arrs[] = { { "array", 4, {} }, { "array/1", 4, { "1" } }, { "obj/A", 3, { "A" } }, { "obj/A/0", 3, { "A", "0" } } };
    for (auto& p : arrs)
    {
        on(p, "add", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.GetArray().Add(PdfObject(n)); v.a.push_back(Val::I(n)); });
        on(p, "addNested", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); auto& x = o.GetArray().Add(PdfObject(PdfArray())); x.GetArray().Add(PdfObject(n)); v.a.push_back(Val::A({ Val::I(n) })); });
        on(p, "addRef", Arr, [=](Doc& d, PdfObject& o, Val& v) { if (!d.g.count({ 5, 0 })) return; o.GetArray().AddIndirect(d.d->GetObjects().MustGetObject(PdfReference(5, 0))); v.a.push_back(Val::Rf(5)); });
        on(p, "addSafe", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.GetArray().AddIndirectSafe(PdfObject(n)); v.a.push_back(Val::I(n)); });
        on(p, "removeAt0", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.empty()) return; o.GetArray().RemoveAt(0); v.a.erase(v.a.begin()); });
        on(p, "setAt0", Arr, [=](Doc& d, PdfObject& o, Val& v) { if (v.a.empty()) return; auto n = N(d); o.GetArray().SetAt(0, PdfObject(n)); v.a[0] = Val::I(n); });
        on(p, "setAt0Ref", Arr, [=](Doc& d, PdfObject& o, Val& v) { if (v.a.empty() || !d.g.count({ 5, 0 })) return; o.GetArray().SetAtIndirect(0, &d.d->GetObjects().MustGetObject(PdfReference(5, 0))); v.a[0] = Val::Rf(5); });
        on(p, "setAt0Safe", Arr, [=](Doc& d, PdfObject& o, Val& v) { if (v.a.empty()) return; auto n = N(d); o.GetArray().SetAtIndirectSafe(0, PdfObject(n)); v.a[0] = Val::I(n); });
        on(p, "insert0", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.GetArray().insert(o.GetArray().begin(), PdfObject(n)); v.a.insert(v.a.begin(), Val::I(n)); });
        on(p, "insertRange", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); std::vector<PdfObject> xs{ PdfObject(n), PdfObject(PdfArray()) }; auto& a = o.GetArray(); a.insert(a.begin(), xs.begin(), xs.end()); a[1].GetArray().Add(PdfObject(n + 1)); Val in[] = { Val::I(n), Val::A({ Val::I(n + 1) }) }; v.a.insert(v.a.begin(), in, in + 2); });
        on(p, "erase0", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.empty()) return; o.GetArray().erase(o.GetArray().begin()); v.a.erase(v.a.begin()); });
        on(p, "eraseLast", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.empty()) return; o.GetArray().erase(o.GetArray().end() - 1); v.a.pop_back(); });
        on(p, "eraseTail", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.size() < 2) return; o.GetArray().erase(o.GetArray().begin() + 1, o.GetArray().end()); v.a.erase(v.a.begin() + 1, v.a.end()); });
        on(p, "removeAtLast", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.empty()) return; o.GetArray().RemoveAt(v.a.size() - 1); v.a.pop_back(); });
        on(p, "eraseRange", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.size() < 2) return; o.GetArray().erase(o.GetArray().begin(), o.GetArray().begin() + 2); v.a.erase(v.a.begin(), v.a.begin() + 2); });
        on(p, "clear", Arr, [=](Doc&, PdfObject& o, Val& v) { o.GetArray().Clear(); v.a.clear(); });
        on(p, "resizeUp", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.GetArray().Resize((unsigned)v.a.size() + 2, PdfObject(n)); v.a.resize(v.a.size() + 2, Val::I(n)); });
        on(p, "resizeDown", Arr, [=](Doc&, PdfObject& o, Val& v) { if (v.a.empty()) return; o.GetArray().resize(v.a.size() - 1); v.a.pop_back(); });
        on(p, "elem0", Arr, [=](Doc& d, PdfObject& o, Val& v) { if (v.a.empty()) return; auto n = N(d); o.GetArray()[0] = PdfObject(n); v.a[0] = Val::I(n); });
        on(p, "back", Arr, [=](Doc& d, PdfObject& o, Val& v) { if (v.a.empty()) return; auto n = N(d); o.GetArray().back() = PdfObject(PdfArray()); o.GetArray().back().GetArray().Add(PdfObject(n)); v.a.back() = Val::A({ Val::I(n) }); });
        on(p, "iterate", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); for (size_t i = 0; i < v.a.size(); i++) if (v.a[i].k == Int) { (*(o.GetArray().begin() + i)).SetNumber(n); v.a[i] = Val::I(n); break; } });
        on(p, "assignArr", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfArray x; x.Add(PdfObject(n)); o.GetArray() = x; v = Val::A({ Val::I(n) }); });
        on(p, "growThenNested", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); for (int i = 0; i < 9; i++) { o.GetArray().Add(PdfObject(n)); v.a.push_back(Val::I(n)); } });
        on(p, "assignObj", Arr, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfArray x; x.Add(PdfObject(n)); o = PdfObject(x); v = Val::A({ Val::I(n) }); });
    }
    struct SP { Path p; Kind k; };
    SP sc[] = { { { "number", 5, {} }, Int }, { { "string", 8, {} }, Str }, { { "obj/S", 3, { "S" } }, Str }, { { "obj/N", 3, { "N" } }, Real }, { { "obj/B", 3, { "B" } }, Bool }, { { "obj/D/E/F", 3, { "D", "E", "F" } }, Int }, { { "array/1/0", 4, { "1", "0" } }, Int }, { { "array/3", 4, { "3" } }, Str }, { { "obj/R", 3, { "R" } }, Ref }, { { "X/Y", 6, { "X", "Y" } }, Int } };
    for (auto& s : sc)
    {
        auto& p = s.p;
        if (s.k == Int) { on(p, "SetNumber", Int, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.SetNumber(n); v = Val::I(n); }); }
        if (s.k == Int || s.k == Real) on(p, "SetReal", s.k, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); double x = v.k == Int ? n : n + 0.25; o.SetReal(x); v = v.k == Int ? Val::I(n) : Val::R(x); });
        if (s.k == Bool) on(p, "SetBool", Bool, [=](Doc&, PdfObject& o, Val& v) { v = Val::B(!v.b); o.SetBool(v.b); });
        if (s.k == Str) on(p, "SetString", Str, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); o.SetString(PdfString(vf::fmt("s%d", (int)n))); v = Val::S(vf::fmt("s%d", (int)n)); });
        if (s.k == Ref) on(p, "SetReference", Ref, [=](Doc&, PdfObject& o, Val& v) { o.SetReference(PdfReference(5, 0)); v = Val::Rf(5); });
        on(p, "assign", s.k, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfObject x{ PdfName(vf::fmt("N%d", (int)n)) }; o = x; v = Val::N(vf::fmt("N%d", (int)n)); });
        on(p, "moveAssign", s.k, [=](Doc& d, PdfObject& o, Val& v) { auto n = N(d); PdfDictionary x; x.AddKey("Z", PdfObject(n)); o = PdfObject(std::move(x)); o.GetDictionary().AddKey("Z2", PdfObject(n)); v = Val::D({ { "Z", Val::I(n) }, { "Z2", Val::I(n) } }); });
        on(p, "assignVariant", s.k, [=](Doc&, PdfObject& o, Val& v) { o = PdfVariant(true); v = Val::B(true); });
    }
    // streams
    for (int num : { 6, 7 })
    {
        auto st = [num](const string& n, std::function<void(Doc&, PdfObject&, Node&)> f) {
            OPS.push_back({ vf::fmt("stream%d.", num) + n, [=](Doc& d) { auto it = d.g.find({ num, 0 }); if (it == d.g.end() || !it->second.stream) return false; f(d, d.d->GetObjects().MustGetObject(PdfReference(num, 0)), it->second); return true; } });
        };
        st("SetData", [=](Doc& d, PdfObject& o, Node& n) { n.data = vf::fmt("set %d", (int)N(d)); o.GetOrCreateStream().SetData(n.data); });
        st("SetDataRaw", [=](Doc& d, PdfObject& o, Node& n) { n.data = vf::fmt("setraw %d", (int)N(d)); o.GetDictionary().RemoveKey("Filter"); o.MustGetStream().SetData(n.data, PdfFilterList{}); });
        st("SetDataFilters", [=](Doc& d, PdfObject& o, Node& n) { n.data = vf::fmt("setf %d", (int)N(d)); o.GetStream()->SetData(n.data, PdfFilterList{ PdfFilterType::FlateDecode }); });
        st("SetDataStream", [=](Doc& d, PdfObject& o, Node& n) { n.data = vf::fmt("sets %d", (int)N(d)); SpanStreamDevice in(n.data); o.GetStream()->SetData(in); });
        st("Output", [=](Doc& d, PdfObject& o, Node& n) { n.data = vf::fmt("out %d", (int)N(d)); { auto s = o.GetStream()->GetOutputStream(); s.Write(n.data); } });
        st("OutputAppend", [=](Doc& d, PdfObject& o, Node& n) { string x = vf::fmt(" app %d", (int)N(d)); { auto s = o.GetStream()->GetOutputStream(true); s.Write(x); } n.data += x; });
        st("OutputFilters", [=](Doc& d, PdfObject& o, Node& n) { n.data = vf::fmt("outf %d", (int)N(d)); { auto s = o.GetStream()->GetOutputStream(PdfFilterList{ PdfFilterType::FlateDecode }); s.Write(n.data); } });
        st("Unwrap", [=](Doc&, PdfObject& o, Node&) { o.GetStream()->Unwrap(); });
        st("copyFrom", [=](Doc& d, PdfObject& o, Node& n) { int other = num == 6 ? 7 : 6; auto it = d.g.find({ other, 0 }); if (it == d.g.end() || !it->second.stream) return; o.MustGetStream() = d.d->GetObjects().MustGetObject(PdfReference(other, 0)).MustGetStream(); n.data = it->second.data; });
        st("assignObj", [=](Doc& d, PdfObject& o, Node& n) { int other = num == 6 ? 7 : 6; auto it = d.g.find({ other, 0 }); if (it == d.g.end() || !it->second.stream) return; o = d.d->GetObjects().MustGetObject(PdfReference(other, 0)); n = it->second; });
        st("dropStream", [=](Doc& d, PdfObject& o, Node& n) { auto k = N(d); o = PdfObject(k); n = Node{ Val::I(k) }; });
        st("read", [=](Doc&, PdfObject& o, Node& n) { auto c = o.MustGetStream().GetCopy(); if (string(c.data(), c.size()) != n.data) C->fail("stream-differs-before", "stream reads '" + vf::esc(string(c.data(), c.size())) + "' wanted '" + vf::esc(n.data) + "'"); });
    }
    OPS.push_back({ "dict3.makeStream", [=](Doc& d) { auto it = d.g.find({ 3, 0 }); if (it == d.g.end() || it->second.v.k != Dict) return false; it->second.stream = true; it->second.data = vf::fmt("mk %d", (int)N(d)); d.d->GetObjects().MustGetObject(PdfReference(3, 0)).GetOrCreateStream().SetData(it->second.data); return true; } });
    // whole objects
    OPS.push_back({ "doc.createDict", [=](Doc& d) { auto n = N(d); auto& o = d.d->GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("C", PdfObject(n)); d.g[idOf(o)] = { Val::D({ { "C", Val::I(n) } }) }; d.d->GetCatalog().GetDictionary().AddKey(PdfName(vf::fmt("C%d", d.n)), o.GetIndirectReference()); d.g[{ 1, 0 }].v.m[vf::fmt("C%d", d.n)] = Val::Rf(idOf(o).first, idOf(o).second); return true; } });
    OPS.push_back({ "doc.createStream", [=](Doc& d) { auto n = N(d); auto& o = d.d->GetObjects().CreateDictionaryObject(); Node x; x.v = Val::D(); x.stream = true; x.data = vf::fmt("cs %d", (int)n); o.GetOrCreateStream().SetData(x.data); d.g[idOf(o)] = x; d.d->GetCatalog().GetDictionary().AddKey(PdfName(vf::fmt("C%d", d.n)), o.GetIndirectReference()); d.g[{ 1, 0 }].v.m[vf::fmt("C%d", d.n)] = Val::Rf(idOf(o).first, idOf(o).second); return true; } });
    OPS.push_back({ "doc.createArray", [=](Doc& d) { auto n = N(d); auto& o = d.d->GetObjects().CreateObject(PdfArray()); o.GetArray().Add(PdfObject(n)); d.g[idOf(o)] = { Val::A({ Val::I(n) }) }; d.d->GetCatalog().GetDictionary().AddKey(PdfName(vf::fmt("C%d", d.n)), o.GetIndirectReference()); d.g[{ 1, 0 }].v.m[vf::fmt("C%d", d.n)] = Val::Rf(idOf(o).first, idOf(o).second); return true; } });
    for (int num : { 3, 5, 7, 8 }) OPS.push_back({ vf::fmt("doc.remove%d", num), [=](Doc& d) { if (!d.g.count({ num, 0 })) return false; d.d->GetObjects().RemoveObject(PdfReference(num, 0)); d.g.erase({ num, 0 }); return true; } });
    OPS.push_back({ "doc.removeNewest", [=](Doc& d) { auto it = d.g.rbegin(); if (it->first.first <= 9) return false; Id i = it->first; d.d->GetObjects().RemoveObject(rf(i)); d.g.erase(i); return true; } });
    OPS.push_back({ "doc.replace4", [=](Doc& d) { if (!d.g.count({ 4, 0 })) return false; auto n = N(d); d.d->GetObjects().ReplaceObject(PdfReference(4, 0), new PdfObject(n)); d.g[{ 4, 0 }] = { Val::I(n) }; return true; } });
    OPS.push_back({ "doc.title", [=](Doc& d) { auto n = N(d); d.d->GetMetadata().SetTitle(PdfString(vf::fmt("t%d", (int)n))); d.g[{ 9, 0 }].v.m["Title"] = Val::S(vf::fmt("t%d", (int)n)); return true; } });
    OPS.push_back({ "doc.saveElsewhere", [=](Doc& d) { charbuff b; StringStreamDevice o(b); d.d->Save(o, (PdfSaveOptions)((int)PdfSaveOptions::NoModifyDateUpdate | (int)PdfSaveOptions::NoCollectGarbage)); return true; } });
    OPS.push_back({ "none", [](Doc&) { return true; } });
}
// --- checking ---------------------------------------------------------------
static Val strip(const Node& n)
{
    Val v = n.v;
    if (n.stream) { v.m.erase("Length"); v.m.erase("Filter"); v.m.erase("DecodeParms"); }
    return v;
}
static bool same(const Node& a, const Node& b, string& why)
{
    if (a.stream != b.stream) { why = a.stream ? "lost its stream" : "has a stream"; return false; }
    if (!equal(strip(a), strip(b), true)) { why = "should be " + show(strip(a)) + " but is " + show(strip(b)); return false; }
    if (a.data != b.data) { why = "data should be '" + vf::esc(a.data) + "' but is '" + vf::esc(b.data) + "'"; return false; }
    return true;
}
static std::set<Id> reach(const Graph& g)
{
    std::set<Id> seen; Val t = Val::A({ Val::Rf(1), Val::Rf(9) }); std::vector<const Val*> q{ &t };
    while (!q.empty())
    {
        const Val* v = q.back(); q.pop_back();
        if (v->k == Ref) { Id id{ v->i, v->g }; auto it = g.find(id); if (it != g.end() && seen.insert(id).second) q.push_back(&it->second.v); }
        for (auto& x : v->a) q.push_back(&x);
        for (auto& x : v->m) q.push_back(&x.second);
    }
    return seen;
}
static bool update(Doc& d, bool gc, int round)
{
    charbuff buf(d.bytes); StringStreamDevice dev(buf, (DeviceAccess)0x3, false);
    string what; int err;
    auto opts = (PdfSaveOptions)((int)PdfSaveOptions::NoModifyDateUpdate | (gc ? 0 : (int)PdfSaveOptions::NoCollectGarbage));
    if ((err = vf::errorOf([&] { d.d->SaveUpdate(dev, opts); }, &what)) != -1) { C->fail("update-failed", vf::fmt("round %d, error %d: ", round, err) + what); return false; }
    string out(buf.data(), buf.size());
    if (out.compare(0, d.bytes.size(), d.bytes) != 0) { C->fail("original-changed", vf::fmt("round %d changed bytes of the original", round)); return false; }
    if (out.size() <= d.bytes.size()) { C->fail("nothing-appended", vf::fmt("round %d appended nothing", round)); return false; }
    d.bytes = out;
    if (gc) { auto r = reach(d.g); for (auto it = d.g.begin(); it != d.g.end();) if (r.count(it->first)) ++it; else it = d.g.erase(it); }
    return true;
}
static bool compare(Doc& d, int round, std::unique_ptr<PdfMemDocument>* keep)
{
    Options o; o.checkSizes = false;
    File f = readFile(d.bytes, o);
    for (auto& p : f.problems) { C->fail("file:" + p.substr(0, p.find_first_of("0123456789")), vf::fmt("round %d: ", round) + p); return false; }
    {
        auto root = f.trailer.get("Root"), info = f.trailer.get("Info"), id = f.trailer.get("ID");
        if (!root || root->k != Ref || root->i != 1) { C->fail("file-trailer", vf::fmt("round %d: the newest trailer has no or another Root", round)); return false; }
        if (!info || info->k != Ref || info->i != 9) { C->fail("file-trailer", vf::fmt("round %d: the newest trailer has no or another Info", round)); return false; }
        if (!id || id->k != Arr || id->a.size() != 2 || id->a[0].s != "0123456789abcdef") { C->fail("file-trailer", vf::fmt("round %d: the newest trailer has no ID or another permanent part", round)); return false; }
    }
    string why;
    for (auto& n : d.g)
    {
        auto it = f.objs.find(n.first.first);
        if (it == f.objs.end() || it->second.g != n.first.second) { C->fail("file-object-missing", vf::fmt("round %d: ", round) + ids(n.first)); return false; }
        Node m{ it->second.v, it->second.stream, "" };
        if (m.stream) try { m.data = f.decoded(it->second); } catch (const Bad& x) { C->fail("file-stream-undecodable", vf::fmt("round %d: ", round) + ids(n.first) + " " + x.what()); return false; }
        if (!same(n.second, m, why)) { C->fail("file-object-differs", vf::fmt("round %d: ", round) + ids(n.first) + " " + why); return false; }
    }
    for (auto& x : f.objs) if (!d.g.count({ x.first, x.second.g })) { auto t = x.second.v.get("Type"); if (t && (t->s == "XRef" || t->s == "ObjStm")) continue; C->fail("file-object-back", vf::fmt("round %d: %lld %d is still in use", round, (long long)x.first, x.second.g)); return false; }
    std::unique_ptr<PdfMemDocument> m(new PdfMemDocument());
    string what; int err;
    static std::shared_ptr<string> hold; auto h = std::make_shared<string>(d.bytes);
    if ((err = vf::errorOf([&] { m->LoadFromBuffer(*h); }, &what)) != -1) { C->fail("load-failed", vf::fmt("round %d, error %d: ", round, err) + what); return false; }
    std::set<Id> got;
    for (PdfObject* po : m->GetObjects())
    {
        Id i = idOf(*po); got.insert(i);
        auto it = d.g.find(i);
        Node n; n.v = fromObject(*po); if (po->HasStream()) { n.stream = true; auto c = po->GetStream()->GetCopy(); n.data.assign(c.data(), c.size()); }
        if (it == d.g.end()) { auto t = n.v.get("Type"); if (t && (t->s == "XRef" || t->s == "ObjStm")) continue; C->fail("object-back", vf::fmt("round %d: ", round) + ids(i) + " came back"); return false; }
        if (!same(it->second, n, why)) { C->fail("object-differs", vf::fmt("round %d: ", round) + ids(i) + " " + why); return false; }
    }
    for (auto& n : d.g) if (!got.count(n.first)) { C->fail("object-lost", vf::fmt("round %d: ", round) + ids(n.first)); return false; }
    if (keep) { *keep = std::move(m); hold = h; }
    C->state(vf::hash(d.bytes)); C->trace();
    return true;
}
// AddKeyIndirectSafe and friends may make the value an object of its own: adopt that
static void adopt(Doc& d)
{
    std::vector<std::pair<PdfObject*, Id>> fresh;
    for (PdfObject* o : d.d->GetObjects()) if (!d.g.count(idOf(*o))) { Val v = fromObject(*o); if (v.k == Int && v.i > 1000) d.g[idOf(*o)] = { v }; }
    // where the model holds the number and the document a reference to it, take the reference
    for (auto& n : d.g)
    {
        auto o = d.d->GetObjects().GetObject(rf(n.first)); if (!o) continue;
        std::function<void(Val&, const Val&)> walk = [&](Val& m, const Val& r) {
            if (m.k == Int && r.k == Ref) { auto it = d.g.find({ r.i, r.g }); if (it != d.g.end() && it->second.v.k == Int && it->second.v.i == m.i) m = r; return; }
            if (m.k == Arr && r.k == Arr && m.a.size() == r.a.size()) for (size_t i = 0; i < m.a.size(); i++) walk(m.a[i], r.a[i]);
            if (m.k == Dict && r.k == Dict) for (auto& x : m.m) { auto y = r.m.find(x.first); if (y != r.m.end()) walk(x.second, y->second); }
        };
        walk(n.second.v, fromObject(*o));
    }
}
// seq: operations; cuts[i]: an update after operation i, followed by a reload or not
enum { NoCut = 0, CutReload = 1, CutStay = 2 };
static void oneCase(int start, bool gc, const std::vector<unsigned>& seq, const std::vector<int>& cuts)
{
    Doc d; d.bytes = startDoc(start); d.g = startModel(start);
    auto first = std::make_shared<string>(d.bytes);
    d.d.reset(new PdfMemDocument()); d.d->LoadFromBuffer(*first);
    int round = 0;
    for (size_t i = 0; i < seq.size(); i++)
    {
        string what;
        int err = vf::errorOf([&] { OPS[seq[i]].f(d); }, &what);
        if (err != -1) { C->fail("op-failed", OPS[seq[i]].name + vf::fmt(": error %d: ", err) + what); return; }
        if (C->failed()) return;
        adopt(d);
        C->transition();
        if (i + 1 == seq.size() || cuts[i] != NoCut)
        {
            round++;
            if (!update(d, gc, round)) return;
            std::unique_ptr<PdfMemDocument> next;
            if (!compare(d, round, i + 1 == seq.size() ? nullptr : &next)) return;
            if (i + 1 < seq.size() && cuts[i] == CutReload) d.d = std::move(next);
        }
    }
}
static void explore(vf::Ctx& c)
{
    C = &c;
    buildOps();
    unsigned n = OPS.size();
    if (c.worker() == 0) c.count("mutators", n);
    auto desc = [&](int s, bool gc, const std::vector<unsigned>& v, const std::vector<int>& cuts) { string t = vf::fmt("start %d gc %d:", s, gc); for (size_t i = 0; i < v.size(); i++) { t += " " + OPS[v[i]].name; if (i < cuts.size() && cuts[i]) t += cuts[i] == CutReload ? " | update, reload |" : " | update, go on |"; } return t; };
    auto go = [&](const char* tag, int s, bool gc, std::vector<unsigned> v, std::vector<int> cuts) { c.run(tag, [&, s, gc] { return desc(s, gc, v, cuts); }, [&, s, gc] { oneCase(s, gc, v, cuts); }); };
    for (int s = 0; s < 3; s++) for (int gc = 0; gc < 2; gc++) for (unsigned a = 0; a < n; a++) go("one", s, gc, { a }, {});
    for (int s = 0; s < 3; s++) for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++)
    {
        if (!c.thorough && s == 2 && (a + b) % 4) { continue; }
        if (s != 1 || c.thorough || (a + b) % 2 == 0) go("two", s, (a ^ b) & 1, { a, b }, { NoCut });
        go("rounds", s, c.thorough ? (a + b) & 1 : 0, { a, b }, { CutReload });
        if (s != 2) go("stay", s, 0, { a, b }, { CutStay });
    }
    if (c.thorough)
        for (int s = 0; s < 2; s++) for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) for (unsigned e = (a * 7 + b * 3) % 5; e < n; e += 5)
            go("three", s, 0, { a, b, e }, { (int)(a + b) % 3, (int)(b + e) % 3 });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P08";
    cfg.rule = "every public mutator at every listed place of the document, alone, in all ordered pairs within one update, and in all ordered pairs over two updates with and without reloading between; a state is a distinct updated file, a transition one mutator call";
    cfg.assumptions = { "Stream Length and Filter may change", "Cross-reference and object streams of the original may stay listed" };
    return vf::main(argc, argv, cfg, explore);
}
