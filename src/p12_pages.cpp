// P12 / P13: every page tree shape, every sequence of page operations, against a
// plain list of pages with their effective attributes. The result is judged in
// memory, after saving and reloading, and in the file by an independent tree walk.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
static string P;

struct Attr { Val media, crop; int64_t rot = 0; string res; };      // effective values
struct Pg { int tag; Attr a; bool own = true; };
typedef std::vector<Pg> List;

static const char* INH[] = { "MediaBox", "CropBox", "Rotate", "Resources" };
static Val box(double a, double b, double c, double d) { return Val::A({ Val::R(a), Val::R(b), Val::R(c), Val::R(d) }); }

// --- reading attributes independently -----------------------------------
static Val rectOf(const File& f, const Val* v)
{
    std::vector<double> d;
    for (auto& x : v->a) { auto y = f.resolve(&x); d.push_back(y->k == Int ? (double)y->i : y->d); }
    if (d.size() != 4) throw Bad("box");
    return box(std::min(d[0], d[2]), std::min(d[1], d[3]), std::max(d[0], d[2]), std::max(d[1], d[3]));
}
struct Inh { std::map<string, const Val*> m; };
static void inherit(const File& f, const Val& node, Inh& in) { for (auto k : INH) { auto v = node.get(k); if (v) v = f.resolve(v); if (v && v->k != Null) in.m[k] = v; } }
static Attr attrsOf(const File& f, const Inh& in)
{
    Attr a; auto g = [&](const char* k) -> const Val* { auto it = in.m.find(k); return it == in.m.end() ? nullptr : it->second; };
    a.media = g("MediaBox") ? rectOf(f, g("MediaBox")) : box(0, 0, 0, 0);
    a.crop = g("CropBox") ? rectOf(f, g("CropBox")) : a.media;
    a.rot = g("Rotate") ? g("Rotate")->i : 0;
    a.res = "-";
    if (auto r = g("Resources")) { a.res = ""; if (auto x = r->get("Mark")) a.res = f.resolve(x)->s; }
    if (a.res.empty()) a.res = "-";                 // empty resources or none
    return a;
}
// strict walk of the page tree of a file
static void walk(const File& f, int64_t num, int64_t parent, Inh in, List& out, std::set<int64_t>& seen, std::vector<int64_t>* refs)
{
    if (!seen.insert(num).second) throw Bad(vf::fmt("object %lld is in the page tree twice", (long long)num));
    auto it = f.objs.find(num); if (it == f.objs.end() || it->second.v.k != Dict) throw Bad(vf::fmt("page tree refers to %lld, which is no dictionary", (long long)num));
    const Val& v = it->second.v;
    auto ty = v.get("Type"); if (!ty) throw Bad("page tree node without Type");
    auto pa = v.get("Parent");
    if (parent ? !pa || pa->k != Ref || pa->i != parent : pa != nullptr) throw Bad(vf::fmt("wrong Parent in %lld", (long long)num));
    inherit(f, v, in);
    if (ty->s == "Page") { Pg p; p.tag = (int)v.num("Tag", -1); p.a = attrsOf(f, in); out.push_back(p); if (refs) refs->push_back(num); return; }
    auto kids = v.get("Kids"); if (kids) kids = f.resolve(kids);
    auto cnt = v.get("Count"); if (cnt) cnt = f.resolve(cnt);
    if (!kids || kids->k != Arr || !cnt || cnt->k != Int) throw Bad(vf::fmt("malformed node %lld", (long long)num));
    size_t n0 = out.size();
    for (auto& k : kids->a) { if (k.k != Ref) throw Bad("kid is no reference"); walk(f, k.i, num, in, out, seen, refs); }
    if ((int64_t)(out.size() - n0) != cnt->i) throw Bad(vf::fmt("Count of node %lld is %lld with %zu pages below", (long long)num, (long long)cnt->i, out.size() - n0));
}
static string showL(const List& l) { string s; for (auto& p : l) s += vf::fmt("%d ", p.tag); return s.size() ? s : "(none)"; }
static string showA(const Attr& a) { return "media " + show(a.media) + " crop " + show(a.crop) + vf::fmt(" rotate %lld resources ", (long long)a.rot) + a.res; }
static bool sameA(const Attr& a, const Attr& b) { return equal(a.media, b.media) && equal(a.crop, b.crop) && a.rot == b.rot && a.res == b.res; }

// --- the library's view --------------------------------------------------
static Val ofRect(const PdfRect& r) { return box(r.GetLeft(), r.GetBottom(), r.GetLeft() + r.GetWidth(), r.GetBottom() + r.GetHeight()); }
static Attr libAttr(PdfPage& p)
{
    Attr a; a.media = ofRect(p.GetMediaBox()); a.crop = ofRect(p.GetCropBox()); a.rot = p.GetRotationRaw(); a.res = "-";
    if (auto r = p.GetResources()) { a.res = ""; if (auto m = r->GetDictionary().FindKey("Mark")) a.res = m->GetName().GetString(); }
    if (a.res.empty()) a.res = "-";
    return a;
}
static int tagOf(PdfPage& p) { auto t = p.GetDictionary().GetKey("Tag"); return t ? (int)t->GetNumber() : -1; }

static bool judge(PdfMemDocument& doc, const List& want, const char* when, const std::map<int, PdfPage*>* held, bool attrs)
{
    auto& pages = doc.GetPages();
    if (pages.GetCount() != want.size()) { C->fail("count", vf::fmt("%s: GetCount is %u, the list has %zu", when, pages.GetCount(), want.size())); return false; }
    List got;
    for (unsigned i = 0; i < want.size(); i++)
    {
        PdfPage* p = nullptr; string w;
        int e = vf::errorOf([&] { p = &pages.GetPageAt(i); }, &w);
        if (e != -1) { C->fail("page-missing", vf::fmt("%s: GetPageAt(%u) of %zu throws %d", when, i, want.size(), e)); return false; }
        Pg g; g.tag = tagOf(*p); g.a = libAttr(*p); got.push_back(g);
        if (p->GetIndex() != i) { C->fail("index", vf::fmt("%s: page %u says its index is %u", when, i, p->GetIndex())); return false; }
        if (p->GetPageNumber() != i + 1) { C->fail("page-number", vf::fmt("%s: page %u says its number is %u", when, i, p->GetPageNumber())); return false; }
        if (held) { auto h = held->find(g.tag); if (h != held->end() && h->second != p) { C->fail("page-identity", vf::fmt("%s: another page object for page %d than before", when, g.tag)); return false; } }
    }
    bool same = true; for (size_t i = 0; i < want.size(); i++) same &= got[i].tag == want[i].tag;
    if (!same) { C->fail("order", vf::fmt("%s: pages are %s, the list is %s", when, showL(got).c_str(), showL(want).c_str())); return false; }
    for (unsigned i = 0; i < want.size(); i++)
    {
        auto& p = pages.GetPageAt(i);
        if (&pages.GetPage(p.GetObject().GetIndirectReference()) != &p) { C->fail("by-reference", vf::fmt("%s: lookup by reference of page %u gives another page", when, i)); return false; }
        if (attrs && !sameA(got[i].a, want[i].a)) { C->fail("attributes", vf::fmt("%s: page %d has %s, not %s", when, want[i].tag, showA(got[i].a).c_str(), showA(want[i].a).c_str())); return false; }
    }
    for (unsigned i : { (unsigned)want.size(), (unsigned)want.size() + 1, 1000u, UINT32_MAX })
    {
        int e = vf::errorOf([&] { pages.GetPageAt(i); });
        if (e != (int)PdfErrorCode::PageNotFound) { C->fail("beyond", vf::fmt("%s: GetPageAt(%u) of %zu gives error %d", when, i, want.size(), e)); return false; }
    }
    return true;
}
static string save(PdfMemDocument& d) { string s; StringStreamDevice o(s); d.Save(o, PdfSaveOptions::None); return s; }
static bool judgeFile(const string& b, const List& want, bool attrs)
{
    File f = readFile(b);
    if (f.problems.size()) { C->fail("file", "the saved file: " + f.problems[0]); return false; }
    List got; std::set<int64_t> seen;
    try
    {
        auto cat = f.resolve(f.trailer.get("Root")); auto pg = cat ? cat->get("Pages") : nullptr;
        if (!pg || pg->k != Ref) throw Bad("no Pages");
        walk(f, pg->i, 0, Inh(), got, seen, nullptr);
    }
    catch (const Bad& e) { C->fail("file-tree", string("the saved page tree: ") + e.what()); return false; }
    bool same = got.size() == want.size(); for (size_t i = 0; same && i < want.size(); i++) same = got[i].tag == want[i].tag;
    if (!same) { C->fail("file-order", "the file has pages " + showL(got) + ", the list is " + showL(want)); return false; }
    if (attrs) for (size_t i = 0; i < want.size(); i++) if (!sameA(got[i].a, want[i].a)) { C->fail("file-attributes", vf::fmt("in the file page %d has %s, not %s", want[i].tag, showA(got[i].a).c_str(), showA(want[i].a).c_str())); return false; }
    return true;
}

// --- start trees ----------------------------------------------------------
// A shape is a string like "p(pp())": p a page, ( ) an inner node.
static void shapes(unsigned k, std::vector<string>& out)   // all forests with k nodes
{
    static std::map<unsigned, std::vector<string>> memo;
    auto it = memo.find(k); if (it != memo.end()) { out = it->second; return; }
    if (k == 0) out = { "" };
    else
    {
        std::vector<string> rest; shapes(k - 1, rest); for (auto& r : rest) out.push_back("p" + r);
        for (unsigned in = 0; in < k; in++) { std::vector<string> a, b; shapes(in, a); shapes(k - 1 - in, b); for (auto& x : a) for (auto& y : b) out.push_back("(" + x + ")" + y); }
    }
    memo[k] = out;
}
// how: bit 0 Kids indirect, bit 1 Count indirect, bit 2 attributes on every second node, bit 3 on pages too
static string treeDoc(const string& shape, int how, List& list)
{
    Builder b("%PDF-1.4\n");
    int64_t next = 10; int tag = 0; size_t pos = 0; int node = 0;
    std::function<std::pair<Val, int64_t>(int64_t, int64_t)> kids = [&](int64_t self, int64_t) {
        Val arr = Val::A(); int64_t cnt = 0;
        while (pos < shape.size() && shape[pos] != ')')
        {
            int64_t n = next++; arr.a.push_back(Val::Rf(n));
            int me = node++;
            Val d = Val::D({ { "Parent", Val::Rf(self) } });
            bool inner = shape[pos] == '('; pos++;
            if ((how & 4) && (inner ? me % 2 == 0 : (how & 8) && me % 3 == 0))
            {
                d.m["MediaBox"] = box(0, 0, 100 + me, 50); if (me % 4 != 2) d.m["CropBox"] = box(1, 1, 90 + me, 40);
                d.m["Rotate"] = Val::I(90 * (1 + me % 3)); d.m["Resources"] = Val::D({ { "Mark", Val::N(vf::fmt("R%d", me)) } });
                if (me % 3 == 1) { int64_t r = next++; b.obj(r, d.m["Resources"]); d.m["Resources"] = Val::Rf(r); }
            }
            if (!inner) { d.m["Type"] = Val::N("Page"); d.m["Tag"] = Val::I(++tag); cnt++; }
            else
            {
                auto k = kids(n, self); pos++;     // skips ')'
                d.m["Type"] = Val::N("Pages"); cnt += k.second;
                int64_t e = next++; if (how & 1) { b.obj(e, k.first); d.m["Kids"] = Val::Rf(e); } else d.m["Kids"] = k.first;
                e = next++; if (how & 2) { b.obj(e, Val::I(k.second)); d.m["Count"] = Val::Rf(e); } else d.m["Count"] = Val::I(k.second);
            }
            b.obj(n, d);
        }
        return std::pair<Val, int64_t>(arr, cnt);
    };
    auto k = kids(2, 0);
    Val root = Val::D({ { "Type", Val::N("Pages") }, { "Kids", k.first }, { "Count", Val::I(k.second) }, { "MediaBox", box(0, 0, 600, 700) } });
    if (how & 1) { b.obj(5, k.first); root.m["Kids"] = Val::Rf(5); }
    if (how & 2) { b.obj(6, Val::I(k.second)); root.m["Count"] = Val::Rf(6); }
    b.obj(2, root);
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } }));
    b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })));
    File f = readFile(b.out); std::set<int64_t> seen;
    walk(f, 2, 0, Inh(), list, seen, nullptr);
    return b.out;
}

// --- operations -------------------------------------------------------------
static const char* OPS[] = { "create", "create@0", "create@mid", "create@99", "rm@0", "rm@mid", "rm@last", "move 0>last", "move last>0", "move mid>0", "move 0>mid", "touch", "reload", "touchlast", "rm@bad", "move mid>99", "setbox last", "width 0", "rotate last", "res 0", "crop-height mid" };
static const unsigned NOPS = 16, NSET = 21;     // P12 uses the first NOPS, P13 all
struct Env { std::unique_ptr<PdfMemDocument> doc; List l; std::map<int, PdfPage*> held; int tag = 100; std::vector<std::unique_ptr<string>> keep; };
static bool apply(Env& e, unsigned op)
{
    auto& pages = e.doc->GetPages(); unsigned n = (unsigned)e.l.size(), mid = n / 2;
    auto create = [&](unsigned at, bool end) {
        int t = e.tag++; double w = 200 + t;
        PdfPage& p = end ? pages.CreatePage(PdfRect(0, 0, w, 300)) : pages.CreatePageAt(at, PdfRect(0, 0, w, 300));
        p.GetDictionary().AddKey("Tag", PdfObject((int64_t)t));
        Pg g; g.tag = t; g.a.media = g.a.crop = box(0, 0, w, 300); g.a.res = "new"; 
        p.GetOrCreateResources().GetDictionary().AddKey("Mark", PdfName("new"));
        e.l.insert(e.l.begin() + std::min(at, n), g); e.held[t] = &p;
    };
    auto remove = [&](unsigned i) { if (!n) return; pages.RemovePageAt(i); e.held.erase(e.l[i].tag); e.l.erase(e.l.begin() + i); };
    auto move = [&](unsigned i, unsigned j) { if (!n) return; auto& p = pages.GetPageAt(i); e.held[e.l[i].tag] = &p; p.MoveAt(j); Pg g = e.l[i]; e.l.erase(e.l.begin() + i); e.l.insert(e.l.begin() + std::min(j, n - 1), g); };
    auto touch = [&](unsigned i) { e.held[e.l[i].tag] = &pages.GetPageAt(i); };
    switch (op)
    {
        case 0: create(n, true); break;
        case 1: create(0, false); break;
        case 2: create(mid, false); break;
        case 3: create(99, false); break;
        case 4: remove(0); break;
        case 5: remove(mid); break;
        case 6: remove(n - 1); break;
        case 7: move(0, n - 1); break;
        case 8: move(n - 1, 0); break;
        case 9: move(mid, 0); break;
        case 10: move(0, mid); break;
        case 11: for (unsigned i = 0; i < n; i++) touch(i); break;
        case 12: { e.keep.emplace_back(new string(save(*e.doc))); e.held.clear(); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(*e.keep.back()); break; }
        case 13: if (n) touch(n - 1); break;
        case 14:
        {
            int r = vf::errorOf([&] { pages.RemovePageAt(n); });
            if (r != (int)PdfErrorCode::PageNotFound) { C->fail("remove-beyond", vf::fmt("RemovePageAt(%u) of %u gives error %d", n, n, r)); return false; }
            break;
        }
        case 15: move(mid, 99); break;
        case 16: if (n) { pages.GetPageAt(n - 1).SetMediaBox(PdfRect(5, 6, 70, 80)); auto& a = e.l[n - 1].a; bool same = equal(a.crop, a.media); auto has = pages.GetPageAt(n - 1).GetDictionary().FindKeyParent("CropBox"); a.media = box(5, 6, 75, 86); if (same && !has) a.crop = a.media; } break;
        case 17: case 20: if (n)
        {
            unsigned i = op == 17 ? 0 : mid; auto& p = pages.GetPageAt(i); auto& a = e.l[i].a; bool has = p.GetDictionary().FindKeyParent("CropBox") != nullptr;
            bool r = op == 17 ? p.SetPageWidth(33) : p.SetPageHeight(44);
            auto set = [&](Val& v) { if (op == 17) v.a[2].d = v.a[0].d + 33; else v.a[3].d = v.a[1].d + 44; };
            set(a.media); if (has) set(a.crop); else a.crop = a.media;
            if (r != has) { C->fail("setter-result", "the size setter reports " + string(r ? "success" : "failure")); return false; }
        } break;
        case 18: if (n) { pages.GetPageAt(n - 1).SetRotationRaw(270); e.l[n - 1].a.rot = 270; } break;
        case 19: if (n && e.l[0].a.res == "-") { pages.GetPageAt(0).GetOrCreateResources().GetDictionary().AddKey("Mark", PdfName("set")); e.l[0].a.res = "set"; } break;
    }
    return true;
}
static void oneHistory(const string& shape, int how, const std::vector<unsigned>& ops)
{
    bool attrs = P == "P13";
    Env e; e.doc.reset(new PdfMemDocument());
    if (shape != "new") { e.keep.emplace_back(new string(treeDoc(shape, how, e.l))); e.doc->LoadFromBuffer(*e.keep.back()); }
    for (auto op : ops) { if (!apply(e, op)) return; C->transition(); C->state(vf::fmt("%zu ", vf::hash(shape)) + showL(e.l)); }
    if (!judge(*e.doc, e.l, "in memory", &e.held, attrs)) return;
    string b = save(*e.doc);
    if (!judgeFile(b, e.l, attrs)) return;
    PdfMemDocument d2; d2.LoadFromBuffer(b);
    if (!judge(d2, e.l, "after reloading", nullptr, attrs)) return;
    // the document is still the same after saving
    if (!judge(*e.doc, e.l, "after saving", &e.held, attrs)) return;
    C->trace();
    if (C->replaying) C->sample(b);
}
static void histories(vf::Ctx& c, const std::vector<string>& sh, const std::vector<int>& hows, unsigned n, unsigned depth, const char* tag)
{
    for (auto& s : sh) for (int how : hows) vf::sequences(n, depth, [&](const std::vector<unsigned>& v) {
        if (!c.mine()) { c.skip(); return; }
        c.run(tag, [&] { string d = s + vf::fmt(" how %d:", how); for (auto o : v) d += string(" ") + OPS[o] + ","; return d; }, [&] { oneHistory(s, how, v); });
    });
}

// --- P13: assignments of attributes to a chain root > node > page -------------
// value kinds: 0 absent, 1 direct, 2 indirect, 3 null, 4 reference to nothing, 5 array with indirect elements / reversed corners
static void attrCase(const std::vector<int>& k, bool boxes, int sib)
{
    Builder b("%PDF-1.4\n");
    int64_t next = 20;
    Val node[3] = { Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A({ Val::Rf(3) }) }, { "Count", Val::I(2) } }),
        Val::D({ { "Type", Val::N("Pages") }, { "Parent", Val::Rf(2) }, { "Kids", Val::A({ Val::Rf(4), Val::Rf(5) }) }, { "Count", Val::I(2) } }),
        Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(3) }, { "Tag", Val::I(1) } }) };
    for (int a = 0; a < 2; a++) for (int lvl = 0; lvl < 3; lvl++)
    {
        int kind = k[a * 3 + lvl]; string key = boxes ? (a ? "CropBox" : "MediaBox") : (a ? "Resources" : "Rotate");
        Val v = boxes ? box(lvl + a * 10, 1, 100 + lvl + a * 10, 200) : a ? Val::D({ { "Mark", Val::N(vf::fmt("L%d", lvl)) } }) : Val::I(90 * (lvl + 1));
        switch (kind)
        {
            case 0: continue;
            case 1: node[lvl].m[key] = v; break;
            case 2: b.obj(next, v); node[lvl].m[key] = Val::Rf(next++); break;
            case 3: node[lvl].m[key] = Val(); break;
            case 4: node[lvl].m[key] = Val::Rf(999); break;
            case 5: if (boxes) { std::swap(v.a[0], v.a[2]); b.obj(next, v.a[1]); v.a[1] = Val::Rf(next++); } else if (a) { b.obj(next, Val::N(vf::fmt("L%d", lvl))); v.m["Mark"] = Val::Rf(next++); } node[lvl].m[key] = v; break;
        }
    }
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } }));
    for (int i = 0; i < 3; i++) b.obj(2 + i, node[i]);
    Val s = Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(3) }, { "Tag", Val::I(2) } }); b.obj(5, s);
    b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })));
    List l; std::set<int64_t> seen; File f = readFile(b.out); walk(f, 2, 0, Inh(), l, seen, nullptr);
    PdfMemDocument doc; doc.LoadFromBuffer(b.out);
    if (!judge(doc, l, "loaded", nullptr, true)) return;
    auto& p = doc.GetPages().GetPageAt(0);
    for (auto g : { &PdfPage::GetTrimBox, &PdfPage::GetBleedBox, &PdfPage::GetArtBox }) if (!equal(ofRect((p.*g)()), l[0].a.crop)) { C->fail("box-default", "trim, bleed or art box is not the crop box"); return; }
    if (!equal(ofRect(p.GetRect()), l[0].a.media)) { C->fail("rect", "GetRect is not the media box"); return; }
    double teta = 9; bool rot = p.HasRotation(teta); double want = l[0].a.rot ? -l[0].a.rot * 3.14159265358979 / 180 : 0;
    if (rot != (l[0].a.rot != 0) || std::abs(teta - want) > 1e-9) { C->fail("rotation", vf::fmt("HasRotation gives %d, %f for %lld", rot, teta, (long long)l[0].a.rot)); return; }
    // a change of the page is a change of that page alone
    auto hasCrop = p.GetDictionary().FindKeyParent("CropBox") != nullptr;
    switch (sib)
    {
        case 0: p.SetMediaBox(PdfRect(1, 2, 3, 4)); if (!hasCrop) l[0].a.crop = box(1, 2, 4, 6); l[0].a.media = box(1, 2, 4, 6); break;
        case 1: if (p.GetDictionary().FindKeyParent("MediaBox")) { p.SetPageWidth(7); l[0].a.media.a[2].d = l[0].a.media.a[0].d + 7; if (hasCrop) l[0].a.crop.a[2].d = l[0].a.crop.a[0].d + 7; else l[0].a.crop = l[0].a.media; } break;
        case 2: p.SetRotationRaw(180); l[0].a.rot = 180; break;
        case 3: p.SetTrimBox(PdfRect(1, 2, 3, 4)); if (!equal(ofRect(p.GetTrimBox()), box(1, 2, 4, 6)) || !equal(ofRect(p.GetArtBox()), l[0].a.crop)) { C->fail("trim", "the trim box is not the one set, or another box changed"); return; } break;
    }
    if (!judge(doc, l, "after setting", nullptr, true)) return;
    string out = save(doc);
    if (!judgeFile(out, l, true)) return;
    C->trace(); C->transition(2); C->state(showA(l[0].a)); C->outcome(showA(l[0].a));
}
static void explore(vf::Ctx& c)
{
    C = &c; P = vf::prop("P12");
    auto upTo = [](unsigned k) { std::vector<string> r; for (unsigned i = 0; i <= k; i++) { std::vector<string> s; shapes(i, s); r.insert(r.end(), s.begin(), s.end()); } return r; };
    auto some = std::vector<string>{ "new", "pppp", "((p)p)(pp)", "()(p)p()", "((((p))))", "(())pp(())", "(pp)(pp)" };
    if (P == "P12")
    {
        histories(c, upTo(4), { 0, 3 }, NOPS, 1, "depth1");
        histories(c, upTo(4), { 0, 3 }, NOPS, 2, "depth2");
        histories(c, some, { 0, 3 }, NOPS, 3, "depth3");
        histories(c, { "new", "(p)()p" }, { 0 }, NOPS, 4, "depth4");
        if (c.thorough) { histories(c, upTo(5), { 0, 1, 2 }, NOPS, 2, "depth2"); histories(c, upTo(4), { 0 }, NOPS, 3, "depth3"); histories(c, some, { 3 }, NOPS, 3, "depth3"); histories(c, { "new", "(p)()p" }, { 0 }, NOPS, 5, "depth5"); histories(c, some, { 0 }, NOPS, 4, "depth4"); }
    }
    else
    {
        unsigned K = 6;
        vf::sequences(K, 6, [&](const std::vector<unsigned>& v) {
            if (!c.thorough && (v[1] == 4 || v[4] == 4 || v[0] == 5 || v[3] == 5)) return;
            for (int boxes = 0; boxes < 2; boxes++)
            {
                std::vector<int> k(v.begin(), v.end());
                if (!c.mine()) { c.skip(); continue; }
                c.run(boxes ? "boxes" : "others", [&] { string s; for (auto x : k) s += vf::fmt("%d", x); return s; }, [&] { attrCase(k, boxes, (k[0] + k[1] + k[2] + k[3]) % 4); });
            }
        });
        histories(c, upTo(3), { 4, 12 }, NSET, 2, "hist2");
        histories(c, { "((p)p)(pp)", "(pp)(pp)", "p(p)((p))" }, { 12, 15 }, NSET, c.thorough ? 4 : 3, "hist3");
        if (c.thorough) histories(c, upTo(4), { 4, 15 }, NSET, 2, "hist2");
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = vf::prop("P12");
    cfg.rule = cfg.prop == "P12" ? "all page tree shapes up to a node count, all operation sequences up to a depth; a state is the page list reached, a transition one operation; traces are histories compared in memory, in the file and after reloading"
        : "all assignments of attribute values to a three level tree, and all histories of page operations and setters on trees with attributes; a state is an effective attribute set";
    cfg.assumptions = { "Page trees with right Type, Count and Parent entries" };
    return vf::main(argc, argv, cfg, explore);
}
