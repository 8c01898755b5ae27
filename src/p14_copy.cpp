// P14: copying pages between documents. Source and target families, all histories
// of append and insert operations; the saved target and the source are compared
// with the originals as graphs, by an independent reader.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;

// --- documents ---------------------------------------------------------------
// numbering: 0 dense, 1 gaps and high numbers, 2 free entries and generations, 3 object stream
struct Spec { int pages, tree, numbering, features; string mark; };
enum { Shared = 1, Cycle = 2, LinkAway = 4, Outline = 8, Inherit = 16, Dangling = 32, Names = 64 };
static string docBytes(const Spec& sp)
{
    auto N = [&](int64_t i) -> int64_t { return sp.numbering == 1 ? 5 + i * 3 + (i > 6 ? 40 : 0) : sp.numbering == 2 ? i + 2 : i; };
    auto G = [&](int64_t i) -> int { return sp.numbering == 2 && i >= 3 && i % 2 ? 2 : 0; };
    auto R = [&](int64_t i) { return Val::Rf(N(i), G(i)); };
    std::map<int64_t, std::pair<Val, string>> o; std::set<int64_t> st;      // logical number -> value, data
    Val kids = Val::A();
    Val root = Val::D({ { "Type", Val::N("Pages") } });
    // logical numbers: 1 catalog, 2 pages, 3 inner node, 10.. pages, 20.. contents, 30.. annots, 40 shared resources, 41 font, 50.. outlines
    for (int i = 0; i < sp.pages; i++)
    {
        Val pg = Val::D({ { "Type", Val::N("Page") }, { "Contents", R(20 + i) }, { "Mark", Val::S(sp.mark + vf::fmt("%d", i)) } });
        o[20 + i] = { Val::D(i % 2 ? std::map<string, Val>{ { "Filter", Val::N("FlateDecode") } } : std::map<string, Val>{}), vf::fmt("%s content %d\n", sp.mark.c_str(), i) }; st.insert(20 + i);
        if (i % 2) o[20 + i].second = deflate(o[20 + i].second);
        bool inner = sp.tree == 1 && i > 0;
        pg.m["Parent"] = R(inner ? 3 : 2);
        if (!inner) kids.a.push_back(R(10 + i));
        if (!(sp.features & Inherit) || (i == 0 && sp.tree == 0)) pg.m["MediaBox"] = Val::A({ Val::I(0), Val::I(0), Val::I(100 + i), Val::I(200) });
        if (sp.features & Shared) pg.m["Resources"] = R(40);
        else if (!(sp.features & Inherit)) pg.m["Resources"] = Val::D({ { "Font", Val::D({ { "F", R(41) } }) } });
        Val an = Val::A();
        if (sp.features & Cycle) { o[30 + i].first = Val::D({ { "Type", Val::N("Annot") }, { "P", R(10 + i) }, { "Rect", Val::A({ Val::I(1), Val::I(2), Val::I(3), Val::R(4.5) }) }, { "Self", R(30 + i) } }); an.a.push_back(R(30 + i)); }
        if (sp.features & Cycle) pg.m["Nest"] = Val::A({ Val::A({ R(41), Val::A({ Val::D({ { "K", Val::A({ Val::A({ R(20 + i) }) }) } }), R(30 + i) }) }), Val::D({ { "D", Val::D({ { "E", Val::A({ Val::A({ R(41) }) }) } }) } }) });
        if (sp.features & LinkAway) { int t = (i + 1) % sp.pages; an.a.push_back(Val::D({ { "Type", Val::N("Annot") }, { "Dest", Val::A({ R(10 + t), Val::N("Fit") }) } })); }
        if (sp.features & Dangling) pg.m["Nowhere"] = Val::Rf(77);
        if (an.a.size()) pg.m["Annots"] = an;
        o[10 + i].first = pg;
    }
    if (sp.tree == 1 && sp.pages > 1)
    {
        Val in = Val::D({ { "Type", Val::N("Pages") }, { "Parent", R(2) }, { "Count", Val::I(sp.pages - 1) } }), k = Val::A();
        for (int i = 1; i < sp.pages; i++) k.a.push_back(R(10 + i));
        in.m["Kids"] = k; kids.a.push_back(R(3));
        if (sp.features & Inherit) { in.m["Rotate"] = Val::I(90); in.m["Resources"] = R(40); }
        o[3].first = in;
    }
    root.m["Kids"] = kids; root.m["Count"] = Val::I(sp.pages);
    if (sp.features & Inherit) { root.m["MediaBox"] = Val::A({ Val::I(0), Val::I(0), Val::I(333), Val::I(444) }); root.m["CropBox"] = R(42); root.m["Resources"] = Val::D({ { "Font", Val::D({ { "F", R(41) } }) }, { "From", Val::S(sp.mark) }, { "ColorSpace", Val::D({ { "C", Val::A({ Val::N("Indexed"), Val::A({ Val::N("ICCBased"), R(43) }), Val::I(1) }) } }) } }); o[42].first = Val::A({ Val::I(5), Val::I(6), Val::I(7), Val::I(8) }); }
    o[2].first = root;
    o[40].first = Val::D({ { "Font", Val::D({ { "F", R(41) } }) }, { "XObject", Val::D({ { "X", R(43) } }) } });
    o[41].first = Val::D({ { "Type", Val::N("Font") }, { "Name", Val::N(sp.mark) } });
    o[43] = { Val::D({ { "Resources", R(40) } }), string("\0x\r\nendstream", 13) }; st.insert(43);
    Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", R(2) }, { "Keep", Val::S(sp.mark) } });
    if (sp.features & Outline)
    {
        cat.m["Outlines"] = R(50);
        o[50].first = Val::D({ { "Type", Val::N("Outlines") }, { "First", R(51) }, { "Last", R(52) } });
        o[51].first = Val::D({ { "Title", Val::S(sp.mark + "A") }, { "Parent", R(50) }, { "Next", R(52) }, { "First", R(53) }, { "Last", R(53) } });
        o[52].first = Val::D({ { "Title", Val::S(sp.mark + "B") }, { "Parent", R(50) }, { "Prev", R(51) } });
        o[53].first = Val::D({ { "Title", Val::S(sp.mark + "C") }, { "Parent", R(51) } });
        if (sp.pages) o[52].first.m["Dest"] = Val::A({ R(10), Val::N("Fit") });
    }
    o[1].first = cat;
    Builder b("%PDF-1.5\n"); std::map<int64_t, XEnt> ents; string head, body; int idx = 0;
    for (auto& x : o)
    {
        int64_t n = N(x.first); int g = G(x.first);
        if (st.count(x.first)) b.stream(n, x.second.first, x.second.second, g);
        else if (sp.numbering == 3 && x.first > 1) { head += vf::fmt("%lld %zu ", (long long)n, body.size()); body += write(x.second.first) + " "; ents[n] = { 'c', 60, idx++ }; }
        else b.obj(n, x.second.first, g);
    }
    Val t = Val::D({ { "Root", R(1) } });
    if (sp.numbering == 3)
    {
        b.stream(60, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(idx) }, { "First", Val::I(head.size()) } }), head + body);
        for (auto& x : b.offs) ents[x.first] = { 'n', x.second.first, x.second.second };
        ents[0] = { 'f', 0, 65535 };
        b.startxref(b.xrefStream(61, t, ents));
    }
    else if (sp.numbering == 2)
    {
        for (auto& x : b.offs) ents[x.first] = { 'n', x.second.first, x.second.second };
        ents[0] = { 'f', 1, 65535 }; ents[1] = { 'f', 70, 3 }; ents[70] = { 'f', 0, 1 };
        t.m["Size"] = Val::I(71);
        b.startxref(b.xrefTable(t, ents));
    }
    else b.startxref(b.xrefTableAuto(t));
    return b.out;
}

// --- graph comparison ----------------------------------------------------------
struct Iso
{
    const File& a; const File& b; std::map<int64_t, int64_t> f, g; std::vector<std::pair<int64_t, int64_t>> todo;
    std::set<int64_t> pages;                 // source pages compared through page()
    Iso(const File& x, const File& y) : a(x), b(y) {}
    static Val pageVal(const File& f, int64_t n)
    {
        Val v = f.objs.at(n).v; v.m.erase("Parent");
        for (auto k : { "MediaBox", "CropBox", "Rotate", "Resources" }) v.m[k] = inherited(f, n, k);
        if (v.m["CropBox"].k == Null) v.m["CropBox"] = v.m["MediaBox"];
        if (v.m["Rotate"].k == Null) v.m["Rotate"] = Val::I(0);
        if (v.m["Resources"].k == Null) v.m["Resources"] = Val::D();
        return v;
    }
    void val(const Val& x0, const Val& y0, const string& at)
    {
        const Val *x = &x0, *y = &y0;
        if (x->k == Ref || y->k == Ref)
        {
            auto xr = a.resolve(x), yr = b.resolve(y);
            bool xn = !xr || xr->k == Null, yn = !yr || yr->k == Null;
            if (xn || yn) { if (xn != yn) throw Bad(at + " is " + (xn ? "null" : show(*x)) + " in the source and " + (yn ? "null" : show(*y)) + " in the copy"); return; }
            if (x->k != Ref || y->k != Ref)
            {
                // a direct value may not become shared, nor a shared one direct
                throw Bad(at + ": a reference became direct or the other way");
            }
            auto i = f.find(x->i), j = g.find(y->i);
            if (i != f.end() ? i->second != y->i : j != g.end()) throw Bad(at + ": sharing differs");
            if (i == f.end()) { f[x->i] = y->i; g[y->i] = x->i; todo.push_back({ x->i, y->i }); }
            return;
        }
        if (x->k != y->k && !(x->k <= Real && y->k <= Real)) throw Bad(at + " is " + show(*x) + " in the source and " + show(*y) + " in the copy");
        if (x->k == Arr)
        {
            if (x->a.size() != y->a.size()) throw Bad(at + " has another length");
            for (size_t i = 0; i < x->a.size(); i++) val(x->a[i], y->a[i], at + vf::fmt("[%zu]", i));
        }
        else if (x->k == Dict)
        {
            for (auto& m : x->m) { auto o = y->get(m.first); val(m.second, o ? *o : Val(), at + "/" + m.first); }
            for (auto& m : y->m) if (!x->get(m.first)) { auto r = b.resolve(&m.second); if (r && r->k != Null) throw Bad(at + "/" + m.first + " is new in the copy"); }
        }
        else if (!equal(*x, *y)) throw Bad(at + " is " + show(*x) + " in the source and " + show(*y) + " in the copy");
    }
    void page(int64_t x, int64_t y)
    {
        auto i = f.find(x), j = g.find(y);
        if (i != f.end() ? i->second != y : j != g.end()) throw Bad("a page is referred to as another object than the one in the page tree");
        f[x] = y; g[y] = x; pages.insert(x);
        val(pageVal(a, x), pageVal(b, y), "page");
    }
    void drain()
    {
        while (todo.size())
        {
            auto t = todo.back(); todo.pop_back();
            if (pages.count(t.first)) continue;
            auto& x = a.objs.at(t.first); auto& y = b.objs.at(t.second);
            Val vx = x.v, vy = y.v; vx.m.erase("Parent"); vy.m.erase("Parent");
            if (x.stream != y.stream) throw Bad("a stream became none or the other way");
            if (x.stream)
            {
                for (auto k : { "Length", "Filter", "DecodeParms" }) { vx.m.erase(k); vy.m.erase(k); }
                if (const_cast<File&>(a).decoded(x) != const_cast<File&>(b).decoded(y)) throw Bad("stream data differs");
            }
            val(vx, vy, vf::fmt("object %lld", (long long)t.first));
        }
    }
};
static string save(PdfMemDocument& d, bool gc) { string s; StringStreamDevice o(s); d.Save(o, gc ? PdfSaveOptions::None : PdfSaveOptions::NoCollectGarbage); return s; }

// --- histories ---------------------------------------------------------------------
struct Step { int kind, a, b; };    // 0 append all, 1 append range a count b, 2 insert page a at b, 3 self append, 4 self insert page a at b, 5 churn objects, 6 create page at a
static const char* KN[] = { "append", "append-range", "insert", "self-append", "self-insert", "churn", "createpage" };
static string descr(const Spec& s) { return vf::fmt("[%d pages tree %d num %d feat %d]", s.pages, s.tree, s.numbering, s.features); }
static void history(const Spec& T, const Spec& S, const std::vector<Step>& steps, bool gc)
{
    string tb, sb = docBytes(S);
    PdfMemDocument src; src.LoadFromBuffer(sb);
    PdfMemDocument dst;
    if (T.pages >= 0) { tb = docBytes(T); dst.LoadFromBuffer(tb); } else tb = save(dst, false);
    struct Inst { File f; std::vector<int64_t> nums; };
    std::vector<std::unique_ptr<Inst>> inst;
    auto addInst = [&](const string& b) { auto i = std::make_unique<Inst>(); i->f = readFile(b); i->nums = pageNumbers(i->f); inst.push_back(std::move(i)); return inst.size() - 1; };
    std::vector<std::pair<size_t, size_t>> list;                       // instance, page index
    string outlines;
    auto addOutlines = [&](const File& f) { auto o = outlineTree(f); if (o.size()) outlines += (outlines.size() ? " " : "") + o; };
    size_t i0 = addInst(tb); for (size_t i = 0; i < inst[i0]->nums.size(); i++) list.push_back({ i0, i });
    addOutlines(inst[i0]->f);
    for (auto& s : steps)
    {
        bool self = s.kind == 3 || s.kind == 4;
        if (s.kind == 5)
        {
            std::vector<PdfReference> r; for (int i = 0; i < 4; i++) r.push_back(dst.GetObjects().CreateDictionaryObject().GetIndirectReference());
            dst.GetObjects().RemoveObject(r[1]); dst.GetObjects().RemoveObject(r[3]);
            continue;
        }
        PdfMemDocument& from = self ? dst : src;
        size_t k = addInst(self ? save(dst, false) : sb); size_t n = inst[k]->nums.size();
        std::vector<std::pair<size_t, size_t>> add; size_t at = list.size(); bool bad = false;
        auto& pages = dst.GetPages(); int e = -1;
        if (s.kind == 0 || s.kind == 3) { for (size_t i = 0; i < n; i++) add.push_back({ k, i }); e = vf::errorOf([&] { pages.AppendDocumentPages(from); }); }
        else if (s.kind == 1) { bad = (size_t)s.a + s.b > n; if (!bad) for (int i = 0; i < s.b; i++) add.push_back({ k, (size_t)s.a + i }); e = vf::errorOf([&] { pages.AppendDocumentPages(from, s.a, s.b); }); }
        else if (s.kind == 2 || s.kind == 4) { bad = (size_t)s.a >= n; at = std::min((size_t)s.b, list.size()); if (!bad) add.push_back({ k, (size_t)s.a }); e = vf::errorOf([&] { pages.InsertDocumentPageAt(s.b, from, s.a); }); }
        if (bad ? e != (int)PdfErrorCode::PageNotFound : e != -1) { C->fail("result", vf::fmt("%s %d %d of %zu pages gives error %d", KN[s.kind], s.a, s.b, n, e)); return; }
        if (bad) continue;
        if (self) for (auto& a : add) if (false) a.first = 0;
        list.insert(list.begin() + at, add.begin(), add.end());
        if (s.kind <= 4) addOutlines(inst[k]->f);
        C->transition();
    }
    // new objects do not clash
    auto extra = dst.GetObjects().CreateDictionaryObject().GetIndirectReference();
    dst.GetObjects().MustGetObject(extra).GetDictionary().AddKey("Extra", PdfName("X"));
    dst.GetCatalog().GetDictionary().AddKey("ExtraObj", extra);
    if (dst.GetPages().GetCount() != list.size()) { C->fail("count", vf::fmt("%u pages, not %zu", dst.GetPages().GetCount(), list.size())); return; }
    for (size_t i = 0; i < list.size(); i++)
    {
        auto& want = inst[list[i].first]->f.objs.at(inst[list[i].first]->nums[list[i].second]).v;
        auto m = dst.GetPages().GetPageAt((unsigned)i).GetDictionary().FindKey("Mark");
        auto w = want.get("Mark"); string ws = w ? w->s : "", ms = m ? strBytes(m->GetString()) : "";
        if (ms.compare(0, 2, "T:") == 0) ms.erase(0, 2);
        if (ws != ms) { C->fail("order", vf::fmt("page %zu is %s, not %s", i, ms.c_str(), ws.c_str())); return; }
    }
    string out = save(dst, gc);
    File f = readFile(out);
    if (f.problems.size()) { C->fail("file", "the saved file: " + f.problems[0]); return; }
    try
    {
        auto nums = pageNumbers(f);
        if (nums.size() != list.size()) throw Bad(vf::fmt("%zu pages in the file, not %zu", nums.size(), list.size()));
        for (size_t k = 0; k < inst.size(); k++)
        {
            Iso iso(inst[k]->f, f);
            for (size_t i = 0; i < list.size(); i++) if (list[i].first == k) iso.page(inst[k]->nums[list[i].second], nums[i]);
            iso.drain();
        }
        auto ot = outlineTree(f);
        if (ot != outlines) throw Bad("outlines are " + ot + ", not " + outlines);
        // the rest of the target's catalog
        auto cat = f.resolve(f.trailer.get("Root")); auto ex = f.resolve(cat->get("ExtraObj"));
        if (!ex || !ex->get("Extra")) throw Bad("the object created afterwards is lost");
        if (T.pages >= 0 && (!cat->get("Keep") || cat->get("Keep")->s != T.mark)) throw Bad("the catalog changed");
    }
    catch (const Bad& e) { C->fail("copy", e.what()); return; }
    // the source is unchanged, in memory and when saved
    if (src.GetPages().GetCount() != (unsigned)S.pages) { C->fail("source", "the source has another number of pages"); return; }
    string sb2 = save(src, false); File f2 = readFile(sb2), f1 = readFile(sb);
    try
    {
        auto n1 = pageNumbers(f1), n2 = pageNumbers(f2);
        if (n1 != n2) throw Bad("other pages");
        for (auto& o : f1.objs)
        {
            auto ty = o.second.v.get("Type"); if (ty && (ty->s == "XRef" || ty->s == "ObjStm")) continue;
            auto i = f2.objs.find(o.first); if (i == f2.objs.end()) throw Bad(vf::fmt("object %lld is gone", (long long)o.first));
            if (o.second.stream != i->second.stream || (o.second.stream && f1.decoded(o.second) != f2.decoded(i->second))) throw Bad(vf::fmt("the stream of object %lld changed", (long long)o.first));
            if (o.second.stream) for (auto k : { "Length", "Filter" }) { o.second.v.m.erase(k); i->second.v.m.erase(k); }
            if (!equal(o.second.v, i->second.v)) throw Bad(vf::fmt("object %lld was %s, now %s", (long long)o.first, show(o.second.v).c_str(), show(i->second.v).c_str()));
        }
    }
    catch (const Bad& e) { C->fail("source", string("the source changed: ") + e.what()); return; }
    PdfMemDocument again; again.LoadFromBuffer(out);
    if (again.GetPages().GetCount() != list.size()) { C->fail("reload", "the page count differs after reloading"); return; }
    C->trace(); C->state(vf::hash(out)); 
}
// --- a page as form XObject ------------------------------------------------------------
static void formCase(int contents, int res, bool self, bool crop)
{
    Builder b("%PDF-1.4\n");
    Val pg = Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(2) }, { "MediaBox", Val::A({ Val::I(0), Val::I(0), Val::I(100), Val::I(200) }) } });
    Val pages = Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(1) }, { "Kids", Val::A({ Val::Rf(3) }) } });
    if (crop) pg.m["CropBox"] = Val::A({ Val::I(10), Val::I(20), Val::I(60), Val::I(80) });
    Val r = Val::D({ { "Font", Val::D({ { "F", Val::Rf(7) } }) } });
    if (res == 1) pg.m["Resources"] = r; if (res == 2) { b.obj(8, r); pg.m["Resources"] = Val::Rf(8); } if (res == 3) pages.m["Resources"] = r; if (res == 4) { b.obj(8, r); pages.m["Resources"] = Val::Rf(8); }
    string want;
    b.stream(5, Val::D(), "q 1 0 0 1 2 3 cm"); b.stream(6, Val::D({ { "Filter", Val::N("FlateDecode") } }), deflate("BT ET Q"));
    switch (contents)
    {
        case 0: break;
        case 1: pg.m["Contents"] = Val::Rf(5); want = "q 1 0 0 1 2 3 cm"; break;
        case 2: pg.m["Contents"] = Val::A({ Val::Rf(5), Val::Rf(6) }); want = "q 1 0 0 1 2 3 cm BT ET Q"; break;
        case 3: b.obj(9, Val::A({ Val::Rf(6), Val::Rf(5), Val::Rf(6) })); pg.m["Contents"] = Val::Rf(9); want = "BT ET Q q 1 0 0 1 2 3 cm BT ET Q"; break;
        case 4: pg.m["Contents"] = Val::A(); break;
        case 5: pg.m["Contents"] = Val(); break;
        case 6: pg.m["Contents"] = Val::A({ Val::Rf(6), Val::Rf(99), Val::Rf(5) }); want = "BT ET Q q 1 0 0 1 2 3 cm"; break;
    }
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } })); b.obj(2, pages); b.obj(3, pg); b.obj(7, Val::D({ { "Name", Val::N("FN") } }));
    b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })));
    PdfMemDocument src, other; src.LoadFromBuffer(b.out);
    if (!self) for (int i = 0; i < 5; i++) other.GetObjects().CreateDictionaryObject();
    PdfMemDocument& d = self ? src : other;
    auto xp = d.CreateXObjectForm(PdfRect(0, 0, 1, 1)); auto& x = *xp;
    x.FillFromPage(src.GetPages().GetPageAt(0), false);
    if (res && (!x.GetResources() || !x.GetResources()->GetDictionary().FindKey("Font"))) { C->fail("form-resources", "the form's resources are not the page's"); return; }
    d.GetCatalog().GetDictionary().AddKey("X", x.GetObject().GetIndirectReference());
    File f = readFile(save(d, true));
    auto cat = f.resolve(f.trailer.get("Root")); auto& o = f.objs.at(cat->get("X")->i);
    if (!o.stream) { C->fail("form-stream", "the form has no stream"); return; }
    string got = f.decoded(o), norm; for (char ch : got) { if (isWs(ch)) { if (norm.size() && norm.back() != ' ') norm += ' '; } else norm += ch; } while (norm.size() && norm.back() == ' ') norm.pop_back();
    if (norm != want) { C->fail("form-contents", "the form's contents are " + vf::esc(got) + ", the page's " + want); return; }
    auto bb = o.v.get("BBox"); Val wb = crop ? Val::A({ Val::I(10), Val::I(20), Val::I(60), Val::I(80) }) : Val::A({ Val::I(0), Val::I(0), Val::I(100), Val::I(200) });
    if (!bb || !equal(*bb, wb)) { C->fail("form-box", "the form's box is not the visible part of the page"); return; }
    auto rr = o.v.get("Resources"); rr = rr ? f.resolve(rr) : nullptr; auto fo = rr ? f.resolve(rr->get("Font")) : nullptr; auto fn = fo ? f.resolve(fo->get("F")) : nullptr;
    if (res && (!fn || !fn->get("Name") || fn->get("Name")->s != "FN")) { C->fail("form-resources", "the saved form's resources do not lead to the page's font"); return; }
    C->trace(); C->transition();
}
static void explore(vf::Ctx& c)
{
    C = &c;
    auto run = [&](const char* tag, const Spec& T, const Spec& S, const std::vector<Step>& st, bool gc) {
        if (!c.mine()) { c.skip(); return; }
        c.run(tag, [&] { string d = "target " + descr(T) + " source " + descr(S) + (gc ? " gc:" : ":"); for (auto& s : st) d += vf::fmt(" %s %d %d,", KN[s.kind], s.a, s.b); return d; }, [&] { history(T, S, st, gc); });
    };
    std::vector<Step> all{ { 0, 0, 0 }, { 3, 0, 0 }, { 5, 0, 0 } };
    for (int a = 0; a <= 3; a++) for (int n = 0; n <= 3; n++) all.push_back({ 1, a, n });
    for (int a = 0; a <= 3; a++) for (int at : { 0, 1, 2, 9 }) { all.push_back({ 2, a, at }); if (at < 3) all.push_back({ 4, a, at }); }
    std::vector<Step> few{ { 0, 0, 0 }, { 1, 1, 1 }, { 1, 0, 2 }, { 2, 0, 0 }, { 2, 1, 1 }, { 2, 2, 9 }, { 3, 0, 0 }, { 4, 1, 0 }, { 5, 0, 0 } };
    std::vector<Spec> targets{ { -1, 0, 0, 0, "" }, { 1, 0, 0, Shared, "T" }, { 2, 1, 1, Cycle | Inherit | Outline, "T" }, { 3, 1, 2, LinkAway | Shared | Cycle, "T" }, { 2, 0, 3, Inherit, "T" }, { 0, 0, 0, Outline, "T" } };
    // sources: all feature sets over numbering, tree and page counts, one operation
    for (auto& T : targets) for (int pages = 1; pages <= 3; pages++) for (int tree = 0; tree < 2; tree++) for (int num = 0; num < 4; num++) for (int feat = 0; feat < 64; feat++)
    {
        Spec S{ pages, tree, num, feat, "S" };
        for (auto& s : few) run("one", T, S, { s }, (feat + num) & 1);
    }
    std::vector<Spec> sources{ { 2, 0, 0, Shared | Cycle, "S" }, { 3, 1, 1, Inherit | LinkAway | Outline, "S" }, { 3, 0, 2, Cycle | LinkAway | Shared, "S" }, { 1, 0, 3, Inherit, "S" } };
    for (auto& T : targets) for (auto& S : sources)
    {
        for (auto& s : all) for (int gc = 0; gc < 2; gc++) run("each", T, S, { s }, gc);
        for (auto& s : c.thorough ? all : few) for (auto& t : few) run("two", T, S, { s, t }, true);
        if (c.thorough) for (auto& s : few) for (auto& t : few) for (auto& u : few) run("three", T, S, { s, t, u }, false);
    }
    for (int k = 0; k < 7; k++) for (int r = 0; r < 5; r++) for (int s = 0; s < 2; s++) for (int cr = 0; cr < 2; cr++)
        c.run("form", [&] { return vf::fmt("contents %d resources %d self %d crop %d", k, r, s, cr); }, [&] { formCase(k, r, s, cr); });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P14";
    cfg.rule = "all target and source shapes of the families, all append and insert operations alone and in sequence; each saved result is compared with the originals as a graph by an independent reader; a state is a distinct resulting file";
    cfg.assumptions = { "Sources whose page trees are well formed" };
    return vf::main(argc, argv, cfg, explore);
}
