// P16: every history of outline edits against a plain ordered tree of titles.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
struct Item { string title; int attr = 0; std::vector<std::unique_ptr<Item>> kids; Item* parent = nullptr; };
struct Env { std::unique_ptr<PdfMemDocument> doc; Item root; int n = 0; std::vector<std::unique_ptr<string>> keep; bool has = false; };
static string showT(const Item& i) { string s; for (auto& k : i.kids) { if (s.size()) s += " "; s += k->title; auto sub = showT(*k); if (sub.size()) s += "(" + sub + ")"; } return s; }
static void flat(Item& i, std::vector<Item*>& v) { for (auto& k : i.kids) { v.push_back(k.get()); flat(*k, v); } }
static void flatLib(PdfOutlineItem* p, std::vector<PdfOutlineItem*>& v) { for (auto c = p->First(); c; c = c->Next()) { v.push_back(c); flatLib(c, v); if (v.size() > 200) throw Bad("endless outline"); } }
static string titleOf(const PdfOutlineItem& i) { return i.GetTitle().GetString(); }
static string walkLib(PdfOutlineItem& p)
{
    string s; PdfOutlineItem* prev = nullptr; int n = 0;
    for (auto c = p.First(); c; c = c->Next())
    {
        if (++n > 200) throw Bad("endless list of siblings");
        if (c->Prev() != prev) throw Bad("Prev of " + titleOf(*c) + " is wrong");
        if (c->GetParentOutline() != &p) throw Bad("parent of " + titleOf(*c) + " is wrong");
        if (s.size()) s += " ";
        s += titleOf(*c); auto sub = walkLib(*c); if (sub.size()) s += "(" + sub + ")";
        prev = c;
    }
    if (p.Last() != prev) throw Bad(string("Last is ") + (p.Last() ? titleOf(*p.Last()) : "none") + ", not " + (prev ? titleOf(*prev) : "none"));
    return s;
}
static string save(PdfMemDocument& d) { string s; StringStreamDevice o(s); d.Save(o, PdfSaveOptions::None); return s; }
// a document with the given outline tree; how: 0 full links, 1 no Prev and Parent links, 2 null and dangling links where there is nothing, 3 empty outlines dictionary
static string docWith(const string& spec, int how)
{
    Builder b("%PDF-1.4\n"); int64_t next = 10; size_t p = 0;
    std::map<int64_t, Val> o;
    std::function<void(int64_t)> level = [&](int64_t parent) {
        int64_t prev = 0;
        while (p < spec.size() && spec[p] != ')')
        {
            string t; while (p < spec.size() && isalnum((unsigned char)spec[p])) t += spec[p++];
            int64_t me = next++; Val v = Val::D({ { "Title", Val::S(t) } });
            if (how != 1) { v.m["Parent"] = Val::Rf(parent); if (prev) v.m["Prev"] = Val::Rf(prev); }
            if (prev) o[prev].m["Next"] = Val::Rf(me); else o[parent].m["First"] = Val::Rf(me);
            o[parent].m["Last"] = Val::Rf(me); o[me] = v;
            if (p < spec.size() && spec[p] == '(') { p++; level(me); p++; }
            if (p < spec.size() && spec[p] == ' ') p++;
            prev = me;
        }
        if (how == 2 && prev) { o[prev].m["Next"] = Val::Rf(900); if (!o[prev].m.count("First")) o[prev].m["First"] = Val(); }
    };
    o[5] = Val::D({ { "Type", Val::N("Outlines") } });
    level(5);
    for (auto& x : o) b.obj(x.first, x.second);
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) }, { "Outlines", Val::Rf(5) } }));
    b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A({ Val::Rf(3) }) }, { "Count", Val::I(1) } }));
    b.obj(3, Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(2) } }));
    b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })));
    return b.out;
}
static void parseInto(Item& root, const string& spec, size_t& p)
{
    while (p < spec.size() && spec[p] != ')')
    {
        auto i = std::make_unique<Item>(); i->parent = &root;
        while (p < spec.size() && isalnum((unsigned char)spec[p])) i->title += spec[p++];
        if (p < spec.size() && spec[p] == '(') { p++; parseInto(*i, spec, p); p++; }
        if (p < spec.size() && spec[p] == ' ') p++;
        root.kids.push_back(std::move(i));
    }
}
// operations: kind * 16 + item (preorder)
enum { Root = 0, Child, Next, NextAct, Erase, Title, Reload, Append, Insert, Touch, KINDS };
static const char* KN[] = { "root", "child", "next", "nextaction", "erase", "title", "reload", "append", "insertchild", "colour" };
static bool apply(Env& e, int kind, unsigned item)
{
    std::vector<Item*> mi; flat(e.root, mi);
    auto dest = [&] { return std::make_shared<PdfDestination>(*e.doc); };
    if (kind == Root)
    {
        auto i = std::make_unique<Item>(); i->title = vf::fmt("r%d", e.n++); i->parent = &e.root;
        e.doc->GetOrCreateOutlines().CreateRoot(PdfString(i->title)); e.root.kids.push_back(std::move(i)); return true;
    }
    if (kind == Reload) { e.keep.emplace_back(new string(save(*e.doc))); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(*e.keep.back()); return true; }
    if (kind == Append)
    {
        string spec = item == 0 ? "x y(z)" : "w"; static std::map<string, string> bytes; auto& b = bytes[spec]; if (b.empty()) b = docWith(spec, 0);
        PdfMemDocument s; s.LoadFromBuffer(b); e.doc->GetPages().AppendDocumentPages(s);
        size_t p = 0; parseInto(e.root, spec, p); return true;
    }
    if (item >= mi.size()) return true;
    std::vector<PdfOutlineItem*> li; flatLib(e.doc->GetOutlines(), li);
    if (li.size() != mi.size()) { C->fail("items", vf::fmt("%zu items, not %zu", li.size(), mi.size())); return false; }
    auto m = mi[item]; auto l = li[item];
    auto pos = [&] { for (size_t i = 0; i < m->parent->kids.size(); i++) if (m->parent->kids[i].get() == m) return i; return (size_t)0; };
    switch (kind)
    {
        case Child: { auto i = std::make_unique<Item>(); i->title = vf::fmt("c%d", e.n++); i->parent = m; l->CreateChild(PdfString(i->title), dest()); m->kids.push_back(std::move(i)); break; }
        case Next: case NextAct:
        {
            auto i = std::make_unique<Item>(); i->title = vf::fmt("n%d", e.n++); i->parent = m->parent;
            if (kind == Next) l->CreateNext(PdfString(i->title), dest());
            else { auto a = std::make_shared<PdfAction>(*e.doc, PdfActionType::URI); a->SetURI(PdfString("http://x")); l->CreateNext(PdfString(i->title), a); }
            m->parent->kids.insert(m->parent->kids.begin() + pos() + 1, std::move(i)); break;
        }
        case Erase: l->Erase(); m->parent->kids.erase(m->parent->kids.begin() + pos()); break;
        case Title: m->title = vf::fmt("t%d", e.n++); l->SetTitle(PdfString(m->title)); break;
        case Insert:
        {
            // an item of the same tree is refused and nothing changes
            int r = vf::errorOf([&] { e.doc->GetOutlines()->InsertChild(l); });
            int r2 = vf::errorOf([&] { l->InsertChild(li[0]); });
            if (r != (int)PdfErrorCode::OutlineItemAlreadyPresent || r2 != r) { C->fail("insert-same-tree", vf::fmt("inserting an item of the same tree gives %d, %d", r, r2)); return false; }
            break;
        }
        case Touch: l->SetTextColor(1, 0, 0); l->SetTextFormat(PdfOutlineFormat::BoldItalic); m->attr = 1; break;
    }
    return true;
}
static bool judge(Env& e, const char* when)
{
    string want = showT(e.root);
    auto o = e.doc->GetOutlines();
    if (!o) { if (want.size()) { C->fail("outlines", string(when) + ": there are no outlines"); return false; } return true; }
    try
    {
        string got = walkLib(*o);
        if (got != want) { C->fail("tree", string(when) + ": outlines are " + got + ", not " + want); return false; }
        std::vector<Item*> mi; flat(e.root, mi); std::vector<PdfOutlineItem*> li; flatLib(o, li);
        for (size_t i = 0; i < mi.size(); i++) if ((li[i]->GetTextFormat() == PdfOutlineFormat::BoldItalic && li[i]->GetTextColorRed() == 1) != (mi[i]->attr == 1)) { C->fail("attributes", string(when) + ": format and colour of " + mi[i]->title); return false; }
    }
    catch (const Bad& b) { C->fail("links", string(when) + ": " + b.what() + ", expected " + want); return false; }
    return true;
}
static void history(const string& start, int how, const std::vector<std::pair<int, unsigned>>& ops)
{
    Env e; e.doc.reset(new PdfMemDocument());
    if (start != "new") { e.keep.emplace_back(new string(docWith(start, how))); e.doc->LoadFromBuffer(*e.keep.back()); size_t p = 0; parseInto(e.root, start, p); }
    for (auto& o : ops) { if (!apply(e, o.first, o.second)) return; C->transition(); C->state(showT(e.root)); }
    if (how != 1 && !judge(e, "in memory")) return;
    string b = save(*e.doc), want = showT(e.root);
    File f = readFile(b); if (f.problems.size()) { C->fail("file", "the saved file: " + f.problems[0]); return; }
    if (how == 0)
        try { auto got = outlineTree(f); if (got != want) { C->fail("file-tree", "the file has outlines " + got + ", not " + want); return; } }
        catch (const Bad& x) { C->fail("file-links", string("in the file: ") + x.what() + ", expected " + want); return; }
    e.keep.emplace_back(new string(b)); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(b);
    if (!judge(e, "after reloading")) return;
    C->trace();
}
static void explore(vf::Ctx& c)
{
    C = &c;
    std::vector<std::pair<int, unsigned>> ops{ { Root, 0 }, { Reload, 0 }, { Append, 0 }, { Append, 1 } };
    for (int k : { (int)Child, (int)Next, (int)Erase }) for (unsigned i = 0; i < 4; i++) ops.push_back({ k, i });
    for (int k : { (int)Title, (int)Insert, (int)NextAct, (int)Touch }) for (unsigned i = 0; i < 2; i++) ops.push_back({ k, i });
    auto go = [&](const std::vector<string>& st, const std::vector<int>& hows, unsigned depth, const char* tag) {
        for (auto& s : st) for (int how : hows) vf::sequences((unsigned)ops.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            std::vector<std::pair<int, unsigned>> h; for (auto i : v) h.push_back(ops[i]);
            c.run(tag, [&] { string d = s + vf::fmt(" how %d:", how); for (auto& o : h) d += vf::fmt(" %s %u,", KN[o.first], o.second); return d; }, [&] { history(s, how, h); });
        });
    };
    std::vector<string> st{ "new", "", "a", "a b", "a(b)", "a(b c) d", "a b(c(d)) e" };
    go(st, { 0, 1, 2 }, 1, "depth1");
    go(st, { 0, 2 }, 2, "depth2");
    go({ "new", "a(b c) d", "a b(c(d)) e" }, { 0 }, 3, "depth3");
    if (c.thorough) { go(st, { 0, 2 }, 3, "depth3"); go({ "new", "a(b c) d", "a b" }, { 0 }, 4, "depth4"); }
    // many siblings, and deep nesting
    for (int n : { 100, 255, 256, 257, 1000, 5000, 20000, c.thorough ? 500000 : 100000 })
        c.run("siblings", [&] { return vf::fmt("%d siblings", n); }, [&] {
            string sp; for (int i = 0; i < n; i++) sp += vf::fmt("%si%d", i ? " " : "", i);
            string b = docWith(sp, 0); PdfMemDocument d; d.LoadFromBuffer(b);
            int k = 0; for (auto i = d.GetOutlines()->First(); i; i = i->Next()) k++;
            if (k != n) c.fail("siblings", vf::fmt("%d items of %d", k, n));
            d.GetOutlines()->First()->CreateNext(PdfString("new"), std::make_shared<PdfDestination>(d));
            File f = readFile(save(d)); string t = outlineTree(f);
            if (t.compare(0, 9, "i0 new i1")) c.fail("siblings", "the new item is not in place");
        });
    for (int n : { 50, 150 })
        c.run("deep", [&] { return vf::fmt("%d levels", n); }, [&] {
            string sp; for (int i = 0; i < n; i++) sp += vf::fmt("%si%d", i ? "(" : "", i); sp += string(n - 1, ')');
            string b = docWith(sp, 0); PdfMemDocument d; d.LoadFromBuffer(b);
            if (walkLib(*d.GetOutlines()) != sp) c.fail("deep", "the nesting is not kept");
        });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P16";
    cfg.rule = "all histories of outline edits up to a depth from all start trees; a state is the outline tree reached, a transition one edit; every history is judged in memory, in the saved file by an independent walk, and after reloading";
    cfg.assumptions = { "Count entries of outline items are not judged" };
    return vf::main(argc, argv, cfg, explore);
}
