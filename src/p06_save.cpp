// P06 / P07: every edit sequence from every start document, saved under every
// option set; P06 compares what the library loads with the edited document, P07
// reads the bytes with the strict independent reader.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
static string P;
typedef std::pair<int64_t, int> Id;
struct Node { Val v; bool stream = false; string data; };
typedef std::map<Id, Node> Graph;
static Id idOf(const PdfObject& o) { return { o.GetIndirectReference().ObjectNumber(), o.GetIndirectReference().GenerationNumber() }; }
static string ids(const Id& i) { return vf::fmt("%lld %d", (long long)i.first, i.second); }
static bool structural(const Node& n) { auto t = n.v.get("Type"); return t && t->k == Name && (t->s == "XRef" || t->s == "ObjStm"); }

// --- start documents ------------------------------------------------------
static const int STARTS = 6;
static string startBytes(int k)
{
    Builder b(k == 3 ? "%PDF-1.5\n" : "%PDF-1.4\n%\xE2\xE3\xCF\xD3\n");
    auto cat = [](int pages) { return Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(pages) } }); };
    Val pages = Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } });
    Val mix = Val::D({ { "K", Val::A({ Val::S("a(b)\\\r\n", false), Val::S(string("\x00\xff", 2), true), Val::R(-0.5), Val::Rf(7), Val::N("A B#") }) } });
    if (k == 1)            // table with gap, generations and a free list
    {
        b.obj(1, cat(2)); b.obj(2, pages); b.obj(5, mix, 2);
        b.stream(7, Val::D({ { "Filter", Val::N("FlateDecode") } }), deflate("hello stream"));
        b.stream(8, Val::D({ { "P", Val::I(1) } }), string("raw\0endstream\nx", 15), 1);
        b.obj(9, Val::D({ { "Title", Val::S("T") } }));
        std::map<int64_t, XEnt> e;
        for (auto& o : b.offs) e[o.first] = { 'n', o.second.first, o.second.second };
        e[0] = { 'f', 4, 65535 }; e[4] = { 'f', 6, 1 }; e[6] = { 'f', 0, 3 };
        Val t = Val::D({ { "Root", Val::Rf(1) }, { "Info", Val::Rf(9) }, { "Size", Val::I(10) }, { "ID", Val::A({ Val::S("0123456789abcdef", true), Val::S("0123456789abcdef", true) }) } });
        b.obj(9, Val::D({ { "Title", Val::S("T") } })); // refreshed offset
        e[9].off = b.offs[9].first;
        // link the leaves from the catalog
        b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) }, { "M", Val::Rf(5, 2) }, { "S", Val::Rf(8, 1) } }));
        e[1].off = b.offs[1].first;
        size_t x = b.xrefTable(t, e); b.startxref(x);
    }
    else if (k == 2)       // numbering starts at 4, catalog last
    {
        b.obj(4, pages); b.obj(5, mix); b.stream(6, Val::D(), "");
        b.obj(12, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(4) }, { "M", Val::Rf(5) }, { "Version", Val::N("1.6") } }));
        size_t x = b.xrefTableAuto(Val::D({ { "Root", Val::Rf(12) }, { "Info", Val::D({ { "Title", Val::S("direct") } }) } }));
        b.startxref(x);
    }
    else if (k == 3)       // cross-reference stream and object stream
    {
        std::vector<Val> vs{ cat(2), pages, Val::D({ { "X", Val::A({ Val::I(1), Val::Rf(5), Val::S("s") }) } }), Val::I(42) };
        vs[0].m["M"] = Val::Rf(3); vs[0].m["N"] = Val::Rf(4);
        string head, body; std::map<int64_t, XEnt> e;
        for (size_t i = 0; i < vs.size(); i++) { head += vf::fmt("%zu %zu ", i + 1, body.size()); body += write(vs[i]) + " "; e[i + 1] = { 'c', 10, (int)i }; }
        b.stream(10, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(vs.size()) }, { "First", Val::I(head.size()) }, { "Filter", Val::N("FlateDecode") } }), deflate(head + body));
        b.stream(5, Val::D({ { "Filter", Val::A({ Val::N("FlateDecode") }) }, { "DecodeParms", Val::A({ Val::D({ { "Predictor", Val::I(12) }, { "Columns", Val::I(2) } }) }) } }), deflate(string("\2ab\2\1\1", 6)));
        e[10] = { 'n', b.offs[10].first, 0 }; e[5] = { 'n', b.offs[5].first, 0 };
        e[0] = { 'f', 6, 65535 }; e[6] = { 'f', 0, 1 };
        size_t x = b.xrefStream(11, Val::D({ { "Root", Val::Rf(1) } }), e);
        b.startxref(x);
    }
    return b.out;
}
struct Env
{
    std::unique_ptr<PdfMemDocument> doc;
    std::vector<Id> user;                  // objects edited by the operations, in order
    Graph model;                           // what the operations made of them
    Val cat;                               // expected catalog
    string title; bool hasTitle = false;
    int n = 0;
};
static void plain(Val& v)
{
    if (v.k == Str && v.s.compare(0, 2, "T:") == 0) v.s.erase(0, 2);   // all text here is ASCII
    for (auto& x : v.a) plain(x);
    for (auto& x : v.m) plain(x.second);
}
static Node nodeOf(const PdfObject& o)
{
    Node n; n.v = fromObject(o); plain(n.v);
    if (o.HasStream()) { n.stream = true; auto c = o.GetStream()->GetCopy(false); n.data.assign(c.data(), c.size()); }
    return n;
}
static Graph snapshot(PdfMemDocument& d)
{
    Graph g;
    for (PdfObject* o : d.GetObjects()) g[idOf(*o)] = nodeOf(*o);
    return g;
}
static void start(Env& e, int k)
{
    if (k == 0 || k >= 4)
    {
        e.doc.reset(new PdfMemDocument());
        if (k == 4) e.doc->GetObjects().SetCanReuseObjectNumbers(false);
        if (k == 5) { for (int i = 0; i < 3; i++) { auto r = e.doc->GetObjects().CreateDictionaryObject().GetIndirectReference(); e.doc->GetObjects().RemoveObject(r); } }
    }
    else { auto b = std::make_shared<string>(startBytes(k)); static std::vector<std::shared_ptr<string>> keep; keep.clear(); keep.push_back(b); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(*b); }
    Id c = idOf(e.doc->GetCatalog().GetObject()), p{ 0, 0 }, inf{ 0, 0 };
    auto& pg = e.doc->GetCatalog().GetDictionary().MustGetKey("Pages"); p = { pg.GetReference().ObjectNumber(), pg.GetReference().GenerationNumber() };
    if (auto i = e.doc->GetTrailer().GetDictionary().GetKey("Info")) if (i->IsReference()) inf = { i->GetReference().ObjectNumber(), i->GetReference().GenerationNumber() };
    for (auto& n : snapshot(*e.doc)) if (n.first != c && n.first != p && n.first != inf && !structural(n.second)) { e.user.push_back(n.first); e.model[n.first] = n.second; }
    e.cat = fromObject(e.doc->GetCatalog().GetObject());
}
static const char* OPS[] = { "newdict", "newflate", "newraw", "newmix", "link", "root", "rmfirst", "rmlast", "setdata", "scalar", "title", "unroot" };
static const int NOPS = 12;
static void apply(Env& e, int op)
{
    auto& objs = e.doc->GetObjects();
    auto ref = [](const Id& i) { return PdfReference((uint32_t)i.first, (uint16_t)i.second); };
    auto add = [&](PdfObject& o, Node n) { Id i = idOf(o); e.user.push_back(i); e.model[i] = n; };
    e.n++;
    switch (op)
    {
        case 0: { auto& o = objs.CreateDictionaryObject("Ty", "Su"); o.GetDictionary().AddKey("A", (int64_t)e.n); add(o, { Val::D({ { "Type", Val::N("Ty") }, { "Subtype", Val::N("Su") }, { "A", Val::I(e.n) } }) }); break; }
        case 1: { auto& o = objs.CreateDictionaryObject(); string d = vf::fmt("flate data %d aaaaaaaaaaaaaaaaaaaaaaaa", e.n); o.GetOrCreateStream().SetData(d); Node n; n.v = Val::D(); n.stream = true; n.data = d; add(o, n); break; }
        case 2: { auto& o = objs.CreateDictionaryObject(); string d = vf::fmt("raw data\r\nendstream %d", e.n); o.GetOrCreateStream().SetData(d, true); Node n; n.v = Val::D(); n.stream = true; n.data = d; add(o, n); break; }
        case 3: { Val v = Val::A({ Val::S("x)y(", false), Val::S(string("\x01\xfe", 2), true), Val::R(2.25), Val::N("n#\x80"), Val(), Val::B(true), Val::D({ { "q", Val::A({ Val::I(-7) }) } }) }); auto& o = objs.CreateObject(toObject(v)); add(o, { v }); break; }
        case 4: if (e.user.size() >= 1)
        {
            Id last = e.user.back(), first = e.user.front(); auto& o = objs.MustGetObject(ref(last));
            if (o.IsDictionary()) { o.GetDictionary().AddKey("L", ref(first)); e.model[last].v.m["L"] = Val::Rf(first.first, first.second); }
            else if (o.IsArray()) { o.GetArray().Add(ref(first)); e.model[last].v.a.push_back(Val::Rf(first.first, first.second)); }
            break;
        } else break;
        case 5: if (e.user.size()) { Id last = e.user.back(); string k = vf::fmt("U%d", e.n); e.doc->GetCatalog().GetDictionary().AddKey(PdfName(k), ref(last)); e.cat.m[k] = Val::Rf(last.first, last.second); } break;
        case 6: if (e.user.size()) { objs.RemoveObject(ref(e.user.front())); e.model.erase(e.user.front()); e.user.erase(e.user.begin()); } break;
        case 7: if (e.user.size()) { objs.RemoveObject(ref(e.user.back())); e.model.erase(e.user.back()); e.user.pop_back(); } break;
        case 8: for (auto& i : e.user) if (e.model[i].stream) { string d = vf::fmt("new data %d", e.n); objs.MustGetObject(ref(i)).GetOrCreateStream().SetData(d); e.model[i].data = d; e.model[i].v.m.erase("DecodeParms"); break; } break;
        case 9: if (e.user.size()) { auto& o = objs.MustGetObject(ref(e.user.back())); o = PdfObject(PdfVariant((int64_t)100 + e.n)); e.model[e.user.back()] = { Val::I(100 + e.n) }; } break;
        case 10: e.title = vf::fmt("Title %d", e.n); e.hasTitle = true; e.doc->GetMetadata().SetTitle(PdfString(e.title)); break;
        case 11: { string k; for (auto& m : e.cat.m) if (m.first[0] == 'U' || m.first == "M") { k = m.first; break; } if (k.size()) { e.doc->GetCatalog().GetDictionary().RemoveKey(k); e.cat.m.erase(k); } break; }
    }
}
struct SaveHow { PdfSaveOptions o; bool xs; const char* name; };
static PdfSaveOptions O(std::initializer_list<PdfSaveOptions> l) { int r = 0; for (auto x : l) r |= (int)x; return (PdfSaveOptions)r; }
static const PdfSaveOptions GCoff = PdfSaveOptions::NoCollectGarbage;
static const SaveHow HOWS[] = {
    { PdfSaveOptions::None, false, "default" },
    { O({ PdfSaveOptions::Clean, GCoff }), false, "clean,nogc" },
    { O({ PdfSaveOptions::NoFlateCompress, GCoff, PdfSaveOptions::NoModifyDateUpdate }), false, "noflate,nogc,nomod" },
    { O({ PdfSaveOptions::NoFlateCompress, PdfSaveOptions::Clean, PdfSaveOptions::NoModifyDateUpdate }), false, "noflate,clean,nomod" },
    { O({ GCoff, PdfSaveOptions::NoModifyDateUpdate }), true, "xrefstream" },
    { O({ PdfSaveOptions::NoFlateCompress, PdfSaveOptions::Clean, GCoff, PdfSaveOptions::NoModifyDateUpdate }), true, "xrefstream,noflate,clean" },
    { PdfSaveOptions::NoCollectGarbage, false, "nogc" },
    { O({ PdfSaveOptions::Clean }), false, "clean" } };
static const int NHOWS = 8;
static string save(PdfMemDocument& d, const SaveHow& h)
{
    charbuff buf; StringStreamDevice dev(buf);
    if (h.xs)
    {
        PdfWriter w(d.GetObjects(), d.GetTrailer().GetObject());
        w.SetPdfVersion(d.GetMetadata().GetPdfVersion()); w.SetSaveOptions(h.o); w.SetUseXRefStream(true);
        w.Write(dev);
    }
    else d.Save(dev, h.o);
    return string(buf.data(), buf.size());
}
static Val strip(const Node& n)
{
    Val v = n.v;
    if (n.stream) { v.m.erase("Length"); v.m.erase("Filter"); v.m.erase("DecodeParms"); }
    return v;
}
static bool sameNode(const Node& a, const Node& b, string& why)
{
    if (a.stream != b.stream) { why = a.stream ? "lost its stream" : "has a stream now"; return false; }
    if (!equal(strip(a), strip(b), true, true)) { why = "was " + show(strip(a)) + " now " + show(strip(b)); return false; }
    if (a.data != b.data) { why = "data was '" + vf::esc(a.data) + "' now '" + vf::esc(b.data) + "'"; return false; }
    return true;
}
static std::set<Id> reach(const Graph& g, const Val& trailer)
{
    std::set<Id> seen; std::vector<const Val*> q{ &trailer };
    while (!q.empty())
    {
        const Val* v = q.back(); q.pop_back();
        if (v->k == Ref) { Id id{ v->i, v->g }; auto it = g.find(id); if (it != g.end() && seen.insert(id).second) q.push_back(&it->second.v); }
        for (auto& x : v->a) q.push_back(&x);
        for (auto& x : v->m) q.push_back(&x.second);
    }
    return seen;
}
static void p07(const string& bytes, const Graph& mem)
{
    File f = readFile(bytes);
    for (auto& p : f.problems) { C->fail("file:" + p.substr(0, p.find_first_of("0123456789")), p); return; }
    for (auto& n : mem)
    {
        auto it = f.objs.find(n.first.first);
        if (it == f.objs.end() || it->second.g != n.first.second) { if (structural(n.second)) continue; C->fail("object-missing", ids(n.first) + " is in the document but not in the file"); return; }
        Node m; m.v = it->second.v; m.stream = it->second.stream;
        if (m.stream) try { m.data = f.decoded(it->second); } catch (const Bad& x) { C->fail("stream-undecodable", ids(n.first) + ": " + x.what()); return; }
        string why;
        if (structural(n.second) || (m.v.get("Type") && m.v.get("Type")->s == "XRef")) continue;
        if (!sameNode(n.second, m, why)) { C->fail("object-differs", ids(n.first) + " " + why); return; }
    }
    for (auto& o : f.objs) if (!mem.count({ o.first, o.second.g })) { Node m; m.v = o.second.v; if (!structural(m)) { C->fail("object-extra", vf::fmt("%lld %d is in the file but not in the document", (long long)o.first, o.second.g)); return; } }
    auto r = f.trailer.get("Root");
    if (!r || !f.resolve(r)) { C->fail("root-missing", "the trailer's Root does not resolve"); return; }
    auto id = f.trailer.get("ID");
    if (!id || id->k != Arr || id->a.size() != 2 || id->a[0].k != Str) { C->fail("id-missing", "no file identifier"); return; }
}
// Returns the snapshot of the loaded result
static void p06(const string& bytes, Env& e, const Graph& before, const Val& trailerBefore, const Graph& after, const SaveHow& h, PdfVersion ver, std::unique_ptr<PdfMemDocument>& re)
{
    re.reset(new PdfMemDocument());
    int err; string what;
    if ((err = vf::errorOf([&] { re->LoadFromBuffer(bytes); }, &what)) != -1) { C->fail("load-failed", vf::fmt("error %d: ", err) + what); return; }
    Graph g = snapshot(*re);
    bool gc = ((int)h.o & (int)GCoff) == 0;
    auto live = reach(before, trailerBefore);
    string why;
    // the edits are there
    for (auto& n : e.model)
    {
        auto it = g.find(n.first);
        if (gc && !live.count(n.first)) { if (it != g.end()) { C->fail("garbage-kept", ids(n.first) + " is unreachable but in the file"); return; } continue; }
        if (it == g.end()) { C->fail("object-lost", ids(n.first) + " is not in the loaded document"); return; }
        if (!sameNode(n.second, it->second, why)) { C->fail("object-differs", ids(n.first) + " " + why); return; }
    }
    // everything else is as it was in memory
    for (auto& n : after)
    {
        if (structural(n.second)) continue;
        auto it = g.find(n.first);
        if (it == g.end()) { C->fail("object-lost", ids(n.first) + " is not in the loaded document"); return; }
        if (!sameNode(n.second, it->second, why)) { C->fail("object-differs", ids(n.first) + " " + why); return; }
    }
    for (auto& n : g) if (!after.count(n.first) && !structural(n.second)) { C->fail("object-extra", ids(n.first) + " came back"); return; }
    for (auto& n : before) if (!after.count(n.first) && (!gc || live.count(n.first))) { C->fail("object-lost", ids(n.first) + " was removed by saving"); return; }
    if (!equal(fromObject(re->GetCatalog().GetObject()), e.cat, true, true)) { C->fail("catalog-differs", "catalog was " + show(e.cat) + " now " + show(fromObject(re->GetCatalog().GetObject()))); return; }
    if (e.hasTitle) { auto t = re->GetMetadata().GetTitle(); if (!t.has_value() || t->GetString() != e.title) { C->fail("title-differs", "title is " + (t.has_value() ? string(t->GetString()) : string("absent"))); return; } }
    // the version: at least what was asked, and 1.5 where cross-reference streams need it
    PdfVersion want = h.xs && ver < PdfVersion::V1_5 ? PdfVersion::V1_5 : ver;
    if (re->GetMetadata().GetPdfVersion() != want) { C->fail("version-differs", vf::fmt("version %d, wanted %d", (int)re->GetMetadata().GetPdfVersion(), (int)want)); return; }
}
static void oneCase(int st, const std::vector<unsigned>& seq, const SaveHow& h)
{
    Env e; start(e, st);
    for (auto op : seq) apply(e, op);
    Graph before = snapshot(*e.doc); Val tr = fromObject(e.doc->GetTrailer().GetObject());
    PdfVersion ver = e.doc->GetMetadata().GetPdfVersion();
    string bytes, what; int err;
    if ((err = vf::errorOf([&] { bytes = save(*e.doc, h); }, &what)) != -1) { C->fail("save-failed", vf::fmt("error %d: ", err) + what); return; }
    Graph after = snapshot(*e.doc);
    string st2; for (auto& n : after) st2 += ids(n.first) + show(strip(n.second)) + vf::fmt("%d", n.second.stream);
    C->state(st2); C->transition(seq.size() + 1); C->trace();
    if (P == "P07")
    {
        p07(bytes, after);
        if (C->failed()) return;
        // the same document saved again the other way
        SaveHow h2 = h; h2.xs = !h.xs;
        if ((err = vf::errorOf([&] { bytes = save(*e.doc, h2); }, &what)) != -1) { C->fail("save-failed", vf::fmt("second save, error %d: ", err) + what); return; }
        p07(bytes, snapshot(*e.doc));
        return;
    }
    std::unique_ptr<PdfMemDocument> re;
    p06(bytes, e, before, tr, after, h, ver, re);
    if (C->failed()) return;
    // saved again from the loaded document
    Graph b2 = snapshot(*re); Val t2 = fromObject(re->GetTrailer().GetObject());
    PdfVersion v2 = re->GetMetadata().GetPdfVersion();
    string bytes2;
    if ((err = vf::errorOf([&] { bytes2 = save(*re, h); }, &what)) != -1) { C->fail("save-failed", vf::fmt("second save, error %d: ", err) + what); return; }
    Graph a2 = snapshot(*re);
    std::unique_ptr<PdfMemDocument> re2;
    p06(bytes2, e, b2, t2, a2, h, v2, re2);
}
static void explore(vf::Ctx& c)
{
    C = &c;
    for (unsigned d = 0; d <= 4; d++)
        vf::sequences(NOPS, d, [&](const std::vector<unsigned>& v) {
            for (int s = 0; s < STARTS; s++) for (int h = 0; h < NHOWS; h++)
            {
                // quick: the deepest level from two start documents and two ways of saving
                if (d == 4 && !c.thorough && !((s == 1 || s == 3) && (h == 2 || h == 5))) continue;
                c.run("edits", [&] { string t = vf::fmt("start %d, save %s:", s, HOWS[h].name); for (auto o : v) t += string(" ") + OPS[o]; return t; }, [&] { oneCase(s, v, HOWS[h]); });
            }
        });
    // numbering: all subsets of the numbers 1..6 in use, saved by every means
    for (int mask = 0; mask < 64; mask++) for (int reuse = 0; reuse < 2; reuse++) for (int h = 0; h < NHOWS; h++)
        c.run("numbering", [&] { return vf::fmt("keep mask %d reuse %d save %s", mask, reuse, HOWS[h].name); }, [&] {
            Env e; e.doc.reset(new PdfMemDocument());
            auto& objs = e.doc->GetObjects();
            objs.SetCanReuseObjectNumbers(reuse);
            std::vector<PdfReference> r; for (int i = 0; i < 6; i++) r.push_back(objs.CreateDictionaryObject().GetIndirectReference());
            for (int i = 0; i < 6; i++)
                if (mask >> i & 1) { e.doc->GetCatalog().GetDictionary().AddKey(PdfName(vf::fmt("K%d", i)), r[i]); e.model[{ r[i].ObjectNumber(), r[i].GenerationNumber() }] = { Val::D() }; }
                else objs.RemoveObject(r[i]);
            // the catalog and pages move to the end, so that low numbers fall free
            e.cat = fromObject(e.doc->GetCatalog().GetObject());
            Graph before = snapshot(*e.doc); Val tr = fromObject(e.doc->GetTrailer().GetObject()); PdfVersion ver = e.doc->GetMetadata().GetPdfVersion();
            string bytes = save(*e.doc, HOWS[h]);
            Graph after = snapshot(*e.doc);
            c.transition(); c.trace(); c.state(vf::fmt("n%d%d", mask, reuse));
            if (P == "P07") p07(bytes, after); else { std::unique_ptr<PdfMemDocument> re; p06(bytes, e, before, tr, after, HOWS[h], ver, re); }
        });
    // numbering of loaded documents: catalog and pages anywhere among 1..7, others absent or free
    for (int cat = 1; cat <= 7; cat++) for (int pg = 1; pg <= 7; pg++) for (int freeMask = 0; freeMask < 16; freeMask++) for (int h = 0; h < NHOWS; h++)
    {
        if (cat == pg) continue;
        c.run("loaded-numbering", [&] { return vf::fmt("catalog %d pages %d free mask %d save %s", cat, pg, freeMask, HOWS[h].name); }, [&] {
            Builder b;
            b.obj(cat, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(pg) } }));
            b.obj(pg, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } }));
            std::map<int64_t, XEnt> ents; ents[0] = { 'f', 0, 65535 };
            for (auto& o : b.offs) ents[o.first] = { 'n', o.second.first, 0 };
            int64_t prev = 0;
            for (int i = 7; i >= 1; i--) if (!ents.count(i) && (freeMask >> (i % 3) & 1)) { ents[i] = { 'f', (uint64_t)prev, i }; prev = i; }
            ents[0].off = prev;
            size_t x = b.xrefTable(Val::D({ { "Root", Val::Rf(cat) }, { "Size", Val::I(ents.rbegin()->first + 1) } }), ents); b.startxref(x);
            Env e; e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(b.out);
            e.cat = fromObject(e.doc->GetCatalog().GetObject());
            if (freeMask & 8) e.doc->GetObjects().SetCanReuseObjectNumbers(false);
            if (freeMask & 1) { auto& o = e.doc->GetObjects().CreateDictionaryObject(); e.doc->GetCatalog().GetDictionary().AddKey("N", o.GetIndirectReference()); e.cat.m["N"] = Val::Rf(idOf(o).first, idOf(o).second); e.model[idOf(o)] = { Val::D() }; }
            Graph before = snapshot(*e.doc); Val tr = fromObject(e.doc->GetTrailer().GetObject()); PdfVersion ver = e.doc->GetMetadata().GetPdfVersion();
            string bytes = save(*e.doc, HOWS[h]);
            Graph after = snapshot(*e.doc);
            c.transition(); c.trace(); c.state(vf::fmt("l%d%d%d", cat, pg, freeMask));
            if (P == "P07") p07(bytes, after); else { std::unique_ptr<PdfMemDocument> re; p06(bytes, e, before, tr, after, HOWS[h], ver, re); }
        });
    }
    // versions: header, catalog key and what is set before saving
    static const PdfVersion VS[] = { PdfVersion::V1_0, PdfVersion::V1_1, PdfVersion::V1_2, PdfVersion::V1_3, PdfVersion::V1_4, PdfVersion::V1_5, PdfVersion::V1_6, PdfVersion::V1_7 };
    for (int a = 0; a < 8; a++) for (int k = -1; k < 8; k++) for (int set = -1; set < 8; set++) for (int h = 0; h < NHOWS; h += 2)
    {
        if (P == "P07") break;
        if (HOWS[h].xs && set >= 0 && set < k) continue;       // the plain writer leaves the catalog alone
        c.run("version", [&] { return vf::fmt("header 1.%d catalog %d set %d save %s", a, k, set, HOWS[h].name); }, [&] {
            Builder b(vf::fmt("%%PDF-1.%d\n", a));
            Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } });
            if (k >= 0) cat.m["Version"] = Val::N(vf::fmt("1.%d", k));
            b.obj(1, cat); b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } }));
            size_t x = b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })); b.startxref(x);
            PdfMemDocument d; d.LoadFromBuffer(b.out);
            PdfVersion ver = VS[std::max(a, k)];
            if (d.GetMetadata().GetPdfVersion() != ver) { c.fail("version-loaded", vf::fmt("loaded as %d", (int)d.GetMetadata().GetPdfVersion())); return; }
            if (set >= 0) { d.GetMetadata().SetPdfVersion(VS[set]); ver = VS[set]; }
            if (HOWS[h].xs && ver < PdfVersion::V1_5) ver = PdfVersion::V1_5;
            string bytes = save(d, HOWS[h]);
            PdfMemDocument r; r.LoadFromBuffer(bytes);
            c.transition(); c.trace();
            if (r.GetMetadata().GetPdfVersion() != ver) c.fail("version-differs", vf::fmt("saved as %d, loaded as %d", (int)ver, (int)r.GetMetadata().GetPdfVersion()));
        });
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    P = cfg.prop = vf::prop("P06");
    cfg.rule = P == "P06" ? "all edit sequences up to the depth from every start document, each saved by every option set, loaded and compared with the edited model, and once more from the loaded document; plus numbering and version families; a state is a saved object graph, a transition an edit or save"
                          : "all edit sequences up to the depth from every start document, each saved by every option set and once more as the other cross-reference kind, read by a strict independent reader; plus numbering families; a state is a saved object graph, a transition an edit or save";
    cfg.assumptions = { "Stream Length and Filter may change on saving as long as the decoded data is the same", "Numbers missing from a cross-reference section count as free", "Cross-reference and object streams of the loaded file may be kept or dropped" };
    return vf::main(argc, argv, cfg, explore);
}
