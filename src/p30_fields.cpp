// P30: every history of edits of annotation and form-field collections against plain lists and trees.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
static string save(PdfMemDocument& d) { string s; StringStreamDevice o(s); d.Save(o, PdfSaveOptions::None); return s; }
static int64_t num(const PdfObject& o) { return o.GetIndirectReference().ObjectNumber(); }
template <class F> static bool refused(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

// ---- the model -----------------------------------------------------------------------------------------------------
struct Node { bool junk = false; string type; bool hasT = false; string T; int64_t n = 0; bool hasKids = false; Node* parent = nullptr; std::vector<std::shared_ptr<Node>> kids; };
typedef std::shared_ptr<Node> NP;
struct Ann { bool junk = false; string sub; int64_t n = 0; string contents; };
struct Env
{
    std::unique_ptr<PdfMemDocument> doc; std::vector<std::unique_ptr<string>> keep; int k = 0;
    std::vector<NP> roots; std::vector<Ann> annots; std::vector<int64_t> goneFields, goneAnnots;
    PdfPage& page() { return doc->GetPages().GetPageAt(0); }
};
static PdfReference refOf(const Env& e, int64_t n) { for (auto o : e.doc->GetObjects()) if (num(*o) == n) return o->GetIndirectReference(); return PdfReference((uint32_t)n, 0); }
static string typeName(PdfFieldType t)
{
    switch (t) { case PdfFieldType::PushButton: return "push"; case PdfFieldType::CheckBox: return "check"; case PdfFieldType::RadioButton: return "radio"; case PdfFieldType::TextBox: return "text";
        case PdfFieldType::ComboBox: return "combo"; case PdfFieldType::ListBox: return "list"; case PdfFieldType::Signature: return "sig"; default: return "?"; }
}
static string typeName(const string& ft, int64_t ff)
{
    if (ft == "Btn") return ff & 0x10000 ? "push" : ff & 0x8000 ? "radio" : "check";
    if (ft == "Ch") return ff & 0x20000 ? "combo" : "list";
    return ft == "Tx" ? "text" : ft == "Sig" ? "sig" : "?";
}
static string fullName(const Node& n) { string s; if (n.parent) s = fullName(*n.parent); if (n.hasT) { if (s.size()) s += "."; s += n.T; } return s; }
static string show(const Node& n)
{
    if (n.junk) return "!";
    string s = vf::fmt("%s:%s", n.hasT ? n.T.c_str() : "-", n.type.c_str()) + (n.n ? vf::fmt("#%d", (int)n.n) : "");
    if (n.kids.size()) { s += "("; for (auto& k : n.kids) s += show(*k) + " "; s.back() = ')'; }
    return s;
}
static string show(const Env& e)
{
    string s = "fields"; for (auto& r : e.roots) s += " " + show(*r);
    s += "; annots"; for (auto& a : e.annots) s += a.junk ? " !" : " " + a.sub + (a.n ? vf::fmt("#%d", (int)a.n) : "") + (a.contents.size() ? ":" + a.contents : "");
    return s;
}
// ---- the library's view --------------------------------------------------------------------------------------------
static string contentsOf(const PdfAnnotation& a) { auto c = a.GetContents(); return c.has_value() ? c->GetString() : ""; }
static string libField(const PdfField& f, const PdfField* parent)
{
    auto T = f.GetNameRaw(); int64_t n = num(f.GetObject());
    string s = vf::fmt("%s:%s", T.has_value() ? T->GetString().c_str() : "-", typeName(f.GetType()).c_str()) + (n ? vf::fmt("#%d", (int)n) : "");
    auto p = f.GetParentSafe();
    if (!parent ? p != nullptr : !p || &p->GetObject() != &parent->GetObject()) throw Bad("the parent of field " + s + " is wrong");
    auto& ch = f.GetChildren(); unsigned c = ch.GetCount();
    for (unsigned i = 0; i < c; i++) { s += i ? " " : "("; if (refused([&] { ch.GetFieldAt(i); })) s += "!"; else { auto& k = ch.GetFieldAt(i); s += libField(k, &f); auto r = k.GetObject().GetIndirectReference(); if (r.IsIndirect() && &ch.GetField(r).GetObject() != &k.GetObject()) throw Bad("a child is not found by its reference"); } }
    if (c) s += ")";
    if (!refused([&] { ch.GetFieldAt(c); })) throw Bad("a child after the last one is given");
    return s;
}
static string libView(Env& e)
{
    string s = "fields"; auto form = e.doc->GetAcroForm(); unsigned cnt = 0;
    if (form)
    {
        unsigned c = cnt = form->GetFieldCount();
        for (unsigned i = 0; i < c; i++) { s += " "; if (refused([&] { form->GetFieldAt(i); })) s += "!"; else s += libField(form->GetFieldAt(i), nullptr); }
        if (!refused([&] { form->GetFieldAt(c); })) throw Bad("a field after the last one is given");
    }
    s += "; annots"; auto& an = e.page().GetAnnotations(); unsigned c = an.GetCount();
    for (unsigned i = 0; i < c; i++)
    {
        if (refused([&] { an.GetAnnotAt(i); })) { s += " !"; continue; }
        auto& a = an.GetAnnotAt(i); int64_t n = num(a.GetObject()); auto t = a.GetDictionary().FindKey("Subtype");
        s += " " + string(t->GetName().GetString()) + (n ? vf::fmt("#%d", (int)n) : "") + (contentsOf(a).size() ? ":" + contentsOf(a) : "");
        if (&a.MustGetPage() != &e.page()) throw Bad("the page of an annotation is wrong");
    }
    if (!refused([&] { an.GetAnnotAt(c); })) throw Bad("an annotation after the last one is given");
    (void)cnt;
    return s;
}
static bool judge(Env& e, const char* when)
{
    auto want = show(e); string got;
    try { got = libView(e); } catch (const Bad& b) { C->fail("structure", string(when) + ": " + b.what() + "; expected " + want); return false; }
    if (got != want) { C->fail("lists", string(when) + ": " + got + ", not " + want); return false; }
    auto form = e.doc->GetAcroForm();
    if (form)
    {
        for (auto& r : e.roots) if (!r->junk && r->n) { int x = vf::errorOf([&] { if (num(form->GetField(refOf(e, r->n)).GetObject()) != r->n) C->fail("field-by-reference", string(when) + vf::fmt(": the field %d is given as another", (int)r->n)); }); if (x != -1) { C->fail("field-by-reference", string(when) + vf::fmt(": field %d is not found by its reference (%d)", (int)r->n, x)); return false; } }
        for (auto n : e.goneFields) if (!refused([&] { form->GetField(refOf(e, n)); })) { C->fail("removed-field", string(when) + vf::fmt(": the removed field %d is still given", (int)n)); return false; }
        string it; for (auto f : *form) if (f) it += vf::fmt(" %d", (int)num(f->GetObject()));
        string w; for (auto& r : e.roots) if (!r->junk) w += vf::fmt(" %d", (int)r->n);
        if (it != w) { C->fail("iterate-fields", string(when) + ": iterating gives" + it + ", not" + w); return false; }
    }
    auto& an = e.page().GetAnnotations();
    for (auto& a : e.annots) if (!a.junk && a.n) { int x = vf::errorOf([&] { if (num(an.GetAnnot(refOf(e, a.n)).GetObject()) != a.n) C->fail("annot-by-reference", string(when) + vf::fmt(": the annotation %d is given as another", (int)a.n)); }); if (x != -1) { C->fail("annot-by-reference", string(when) + vf::fmt(": annotation %d is not found by its reference (%d)", (int)a.n, x)); return false; } }
    for (auto n : e.goneAnnots) if (!refused([&] { an.GetAnnot(refOf(e, n)); })) { C->fail("removed-annot", string(when) + vf::fmt(": the removed annotation %d is still given", (int)n)); return false; }
    return true;
}
#define VF_ANNOT_ITER
#ifdef VF_ANNOT_ITER
static bool judgeIter(Env& e, const char* when)
{
    auto& an = e.page().GetAnnotations(); string it, w;
    for (auto a : an) if (a) it += vf::fmt(" %d", (int)num(a->GetObject()));
    for (auto& a : e.annots) if (!a.junk) w += vf::fmt(" %d", (int)a.n);
    if (it != w) { C->fail("iterate-annots", string(when) + ": iterating gives" + it + ", not" + w); return false; }
    return true;
}
#else
static bool judgeIter(Env&, const char*) { return true; }
#endif
// ---- the file's view -----------------------------------------------------------------------------------------------
static const Val* inh(const File& f, const Val* d, const char* k) { for (int i = 0; d && d->k == Dict && i < 20; i++) { auto x = f.resolve(d->get(k)); if (x && x->k != Null) return x; d = f.resolve(d->get("Parent")); } return nullptr; }
static string fileField(const File& f, const Val* v, int64_t parent)
{
    int64_t n = v->k == Ref ? v->i : 0; auto d = f.resolve(v); if (!d || d->k != Dict) return "!";
    auto T = f.resolve(d->get("T")), ft = inh(f, d, "FT"), ff = inh(f, d, "Ff");
    string s = vf::fmt("%s:%s", T && T->k == Str ? T->s.c_str() : "-", typeName(ft && ft->k == Name ? ft->s : "", ff && ff->k == Int ? ff->i : 0).c_str()) + (n ? vf::fmt("#%d", (int)n) : "");
    auto p = d->get("Parent"); int64_t pn = p && p->k == Ref ? p->i : 0;
    if (pn != parent) throw Bad(vf::fmt("field %s has Parent %d, not %d", s.c_str(), (int)pn, (int)parent));
    auto k = f.resolve(d->get("Kids"));
    if (k && k->k == Arr && k->a.size()) { s += "("; for (auto& x : k->a) s += fileField(f, &x, n) + " "; s.back() = ')'; }
    return s;
}
static string fileView(const File& f, const std::set<string>& subs)
{
    string s = "fields"; auto root = f.resolve(f.trailer.get("Root")); auto form = root ? f.resolve(root->get("AcroForm")) : nullptr;
    auto fl = form && form->k == Dict ? f.resolve(form->get("Fields")) : nullptr;
    if (fl && fl->k == Arr) for (auto& x : fl->a) s += " " + fileField(f, &x, 0);
    s += "; annots"; auto pg = f.objs.find(pageNumbers(f)[0]); auto an = f.resolve(pg->second.v.get("Annots"));
    if (an && an->k == Arr) for (auto& x : an->a)
    {
        auto d = f.resolve(&x); auto t = d && d->k == Dict ? f.resolve(d->get("Subtype")) : nullptr;
        if (!t || t->k != Name || !subs.count(t->s)) { s += " !"; continue; }
        auto c = f.resolve(d->get("Contents")); s += " " + t->s + (x.k == Ref ? vf::fmt("#%d", (int)x.i) : "") + (c && c->k == Str ? ":" + c->s : "");
    }
    return s;
}
// ---- start documents -----------------------------------------------------------------------------------------------
static const std::set<string> Known{ "Text", "Link", "Widget", "Popup", "Square", "Stamp" };
static NP node(const string& T, const string& type, int64_t n, std::vector<NP> kids = {}, bool has = true) { auto p = std::make_shared<Node>(); p->hasT = has; p->T = T; p->type = type; p->n = n; p->kids = kids; p->hasKids = kids.size(); for (auto& k : p->kids) k->parent = p.get(); return p; }
static NP mkjunk() { auto p = std::make_shared<Node>(); p->junk = true; return p; }
static const int STARTS = 5;
static string startDoc(int which, Env& e)
{
    Builder b("%PDF-1.7\n"); Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } }), page = Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(2) }, { "MediaBox", Val::A({ Val::I(0), Val::I(0), Val::I(200), Val::I(200) }) } });
    Val rect = Val::A({ Val::I(1), Val::I(2), Val::I(30), Val::I(40) });
    auto annot = [&](int64_t n, const char* sub, const char* c = nullptr) { Val v = Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N(sub) }, { "Rect", rect } }); if (c) v.m["Contents"] = Val::S(c); if (n) b.obj(n, v); return v; };
    auto field = [&](int64_t n, const char* T, const char* ft, int64_t ff, int64_t parent, std::vector<int64_t> kids, bool widget) {
        Val v = Val::D({}); if (T) v.m["T"] = Val::S(T); if (ft) v.m["FT"] = Val::N(ft); if (ff) v.m["Ff"] = Val::I(ff); if (parent) v.m["Parent"] = Val::Rf(parent);
        if (kids.size()) { v.m["Kids"] = Val::A({}); for (auto k : kids) v.m["Kids"].a.push_back(Val::Rf(k)); }
        if (widget) { v.m["Subtype"] = Val::N("Widget"); v.m["Rect"] = rect; } if (n) b.obj(n, v); return v; };
    auto an = [&](int64_t n, const char* sub, const char* c = "") { e.annots.push_back({ false, sub, n, c }); };
    if (which == 1 || which == 4)   // ordinary lists; 4: in objects of their own
    {
        annot(20, "Text", "t"); annot(21, "Link");
        field(10, "a", "Tx", 0, 0, {}, true); field(11, "b", "Btn", 0, 0, { 12, 13 }, false); field(12, nullptr, nullptr, 0, 11, {}, true); field(13, nullptr, nullptr, 0, 11, {}, true);
        field(14, "c", "Ch", 0x20000, 0, { 15 }, false); field(15, "d", nullptr, 0, 14, { 16 }, false); field(16, nullptr, nullptr, 0, 15, {}, true);
        Val fl = Val::A({ Val::Rf(10), Val::Rf(11), Val::Rf(14) }), al = Val::A({ Val::Rf(20), Val::Rf(10), Val::Rf(12), Val::Rf(21), Val::Rf(13), Val::Rf(16) });
        if (which == 4) { b.obj(30, fl); b.obj(31, al); b.obj(32, Val::D({ { "Fields", Val::Rf(30) } })); cat.m["AcroForm"] = Val::Rf(32); page.m["Annots"] = Val::Rf(31); }
        else { cat.m["AcroForm"] = Val::D({ { "Fields", fl } }); page.m["Annots"] = al; }
        e.roots = { node("a", "text", 10), node("b", "check", 11, { node("", "check", 12, {}, false), node("", "check", 13, {}, false) }), node("c", "combo", 14, { node("d", "combo", 15, { node("", "combo", 16, {}, false) }) }) };
        an(20, "Text", "t"); an(10, "Widget"); an(12, "Widget"); an(21, "Link"); an(13, "Widget"); an(16, "Widget");
    }
    else if (which == 2)            // null, foreign and repeated entries
    {
        annot(20, "Text", "t"); annot(21, "Strange"); b.obj(22, Val::I(5)); annot(23, "Link", "l"); b.obj(24, Val::D({ { "Rect", rect } }));
        field(10, "a", "Tx", 0, 0, {}, true); field(11, "u", nullptr, 0, 0, {}, false);
        cat.m["AcroForm"] = Val::D({ { "Fields", Val::A({ Val(), Val::Rf(99), Val::Rf(10), Val::I(42), field(0, "x", "Sig", 0, 0, {}, false), Val::Rf(22), field(0, "y", "Btn", 0, 0, {}, false), Val::Rf(11) }) } });
        page.m["Annots"] = Val::A({ Val::Rf(21), Val(), annot(0, "Text", "d"), Val::Rf(20), Val::Rf(99), annot(0, "Link", "e"), Val::Rf(22), Val::Rf(23), Val::Rf(24), Val::Rf(10) });
        e.roots = { mkjunk(), mkjunk(), node("a", "text", 10), mkjunk(), node("x", "sig", 0), mkjunk(), node("y", "check", 0), node("u", "?", 11) };
        auto j = [&] { e.annots.push_back({ true }); };
        j(); j(); an(0, "Text", "d"); an(20, "Text", "t"); j(); an(0, "Link", "e"); j(); an(23, "Link", "l"); j(); an(10, "Widget");
    }
    else if (which == 3)            // junk inside kids, empty arrays
    {
        field(10, "a", "Tx", 0, 0, { 12, 99, 13 }, false); field(12, nullptr, nullptr, 0, 10, {}, false); field(13, "k", nullptr, 0, 10, {}, false); field(11, "b", "Tx", 0, 0, {}, false);
        cat.m["AcroForm"] = Val::D({ { "Fields", Val::A({ Val::Rf(10), Val::Rf(11) }) } }); page.m["Annots"] = Val::A({});
        auto a = node("a", "text", 10, { node("", "text", 12, {}, false), mkjunk(), node("k", "text", 13) });
        e.roots = { a, node("b", "text", 11) };
    }
    b.obj(1, cat); b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A({ Val::Rf(3) }) }, { "Count", Val::I(1) } })); b.obj(3, page);
    b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })));
    return b.out;
}
// ---- operations ----------------------------------------------------------------------------------------------------
enum { AText = 0, ALink, ARemAt, ARemRef, ARemNone, FNew, PNew, FRemAt, FRemRef, FRemNone, Kid, KidP, KidKid, KidRem, KidRemRef, Rename, Unname, Contents, Reload, Touch };
static const char* KN[] = { "text", "link", "removeAnnotAt", "removeAnnot", "removeNoAnnot", "formField", "pageField", "removeFieldAt", "removeField", "removeNoField", "kid", "pageKid", "kidOfKid", "removeKidAt", "removeKid", "rename", "unname", "contents", "reload", "touch" };
struct Op { int k, a; const char* name; PdfFieldType t; };
static void goneF(Env& e, const Node& n) { if (n.n) e.goneFields.push_back(n.n); }
static bool apply(Env& e, const Op& o)
{
    auto& an = e.page().GetAnnotations();
    auto form = [&]() -> PdfAcroForm& { return e.doc->GetOrCreateAcroForm(PdfAcroFormDefaulAppearance::None); };
    auto wrong = [&](const char* key, const string& s) { C->fail(key, s); return false; };
    switch (o.k)
    {
        case AText: case ALink:
        {
            auto& a = an.CreateAnnot(o.k == AText ? PdfAnnotationType::Text : PdfAnnotationType::Link, PdfRect(1, 2, 3, 4)); Ann m{ false, o.k == AText ? "Text" : "Link", num(a.GetObject()), "" };
            if (o.k == AText) { m.contents = vf::fmt("n%d", e.k++); a.SetContents(PdfString(m.contents)); }
            e.annots.push_back(m); return true;
        }
        case ARemAt:
            if ((size_t)o.a >= e.annots.size()) { if (!refused([&] { an.RemoveAnnotAt(o.a); })) return wrong("remove-outside", "an annotation that is not there is removed"); return true; }
            an.RemoveAnnotAt(o.a); if (!e.annots[o.a].junk && e.annots[o.a].n) e.goneAnnots.push_back(e.annots[o.a].n); e.annots.erase(e.annots.begin() + o.a); return true;
        case ARemRef:
            if ((size_t)o.a >= e.annots.size() || e.annots[o.a].junk || !e.annots[o.a].n) return true;
            an.RemoveAnnot(refOf(e, e.annots[o.a].n)); e.goneAnnots.push_back(e.annots[o.a].n); e.annots.erase(e.annots.begin() + o.a); return true;
        case ARemNone: try { an.RemoveAnnot(PdfReference(777, 0)); an.RemoveAnnot(PdfReference(3, 0)); } catch (const std::exception&) {} return true;
        case Contents: if ((size_t)o.a < e.annots.size() && !e.annots[o.a].junk && e.annots[o.a].sub != "Widget") { e.annots[o.a].contents = vf::fmt("n%d", e.k++); an.GetAnnotAt(o.a).SetContents(PdfString(e.annots[o.a].contents)); } return true;
        case FNew: { auto& f = form().CreateField(o.name, o.t); e.roots.push_back(node(o.name, typeName(o.t), num(f.GetObject()))); return true; }
        case PNew:
        {
            NP cand; for (auto& r : e.roots) if (!r->junk && r->hasT && r->T == o.name) { cand = r; break; }
            if (cand && cand->type != typeName(o.t))
            {
                if (!refused([&] { e.page().CreateField(o.name, o.t, PdfRect(1, 2, 3, 4)); })) return wrong("same-name", "a field with the name of a field of another type is created");
                if (an.GetCount() > e.annots.size()) { auto& a = an.GetAnnotAt(an.GetCount() - 1); e.annots.push_back({ false, "Widget", num(a.GetObject()), "" }); }
                return true;
            }
            auto& f = e.page().CreateField(o.name, o.t, PdfRect(1, 2, 3, 4)); int64_t n = num(f.GetObject());
            e.annots.push_back({ false, "Widget", n, "" });
            if (!cand) { e.roots.push_back(node(o.name, typeName(o.t), n)); return true; }
            if (!cand->hasKids)
            {
                // a new field takes the name and the place in the form, the old one becomes its child
                auto& last = form().GetFieldAt(form().GetFieldCount() - 1);
                auto top = node(o.name, cand->type, num(last.GetObject()), { cand }); cand->hasT = false; cand->T.clear();
                for (size_t i = 0; i < e.roots.size(); i++) if (e.roots[i] == cand) { e.roots.erase(e.roots.begin() + i); break; }
                e.roots.push_back(top); if (cand->n) e.goneFields.push_back(cand->n); cand = top;
            }
            auto k = node("", cand->type, n, {}, false); k->parent = cand.get(); cand->kids.push_back(k); return true;
        }
        case FRemAt:
            if (!e.doc->GetAcroForm()) return true;
            if ((size_t)o.a >= e.roots.size()) { if (!refused([&] { form().RemoveFieldAt(o.a); })) return wrong("remove-outside", "a field that is not there is removed"); return true; }
            form().RemoveFieldAt(o.a); goneF(e, *e.roots[o.a]); e.roots.erase(e.roots.begin() + o.a); return true;
        case FRemRef:
            if ((size_t)o.a >= e.roots.size() || e.roots[o.a]->junk || !e.roots[o.a]->n) return true;
            form().RemoveField(refOf(e, e.roots[o.a]->n)); goneF(e, *e.roots[o.a]); e.roots.erase(e.roots.begin() + o.a); return true;
        case FRemNone: if (e.doc->GetAcroForm()) try { form().RemoveField(PdfReference(777, 0)); form().RemoveField(PdfReference(3, 0)); } catch (const std::exception&) {} return true;
        case Touch: { auto f = e.doc->GetAcroForm(); if (f) (void)f->GetFieldCount(); (void)an.GetCount(); return judge(e, "midway"); }
        case Reload: e.keep.emplace_back(new string(save(*e.doc))); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(*e.keep.back()); e.goneFields.clear(); e.goneAnnots.clear(); return true;
        default: break;
    }
    if ((size_t)o.a >= e.roots.size() || e.roots[o.a]->junk) return true;
    auto m = e.roots[o.a]; auto& f = form().GetFieldAt(o.a);
    auto addKid = [&](NP p, PdfField& c) { auto k = node("", p->type, num(c.GetObject()), {}, false); k->parent = p.get(); p->kids.push_back(k); p->hasKids = true; };
    switch (o.k)
    {
        case Kid: if (m->type == "?" || !m->n) return true; addKid(m, f.GetChildren().CreateChild()); return true;
        case KidP: if (m->type == "?" || !m->n) return true; { auto& c = f.GetChildren().CreateChild(e.page(), PdfRect(1, 2, 3, 4)); addKid(m, c); e.annots.push_back({ false, "Widget", num(c.GetObject()), "" }); } return true;
        case KidKid: if (m->kids.empty() || m->kids[0]->junk) return true;
        {
            // a child bound to a widget only cannot get children of its own
            PdfField* c = nullptr; try { c = &f.GetChildren().GetFieldAt(0).GetChildren().CreateChild(); } catch (const PdfError& x) { if (x.GetError() != PdfErrorCode::InternalLogic) throw; return true; }
            addKid(m->kids[0], *c); return true;
        }
        case KidRem: if (m->kids.empty()) { if (!refused([&] { f.GetChildren().RemoveFieldAt(0); })) return wrong("remove-outside", "a child that is not there is removed"); return true; } f.GetChildren().RemoveFieldAt(0); m->kids.erase(m->kids.begin()); return true;
        case KidRemRef: if (m->kids.empty() || m->kids.back()->junk) return true; f.GetChildren().RemoveField(refOf(e, m->kids.back()->n)); m->kids.pop_back(); return true;
        case Rename: m->T = vf::fmt("z%d", e.k++); m->hasT = true; f.SetName(PdfString(m->T)); return true;
        case Unname: m->T.clear(); m->hasT = false; f.SetName({ }); return true;
    }
    return true;
}
static bool names(Env& e)
{
    auto form = e.doc->GetAcroForm(); if (!form) return true; bool ok = true;
    std::function<void(const Node&, const PdfField&)> go = [&](const Node& m, const PdfField& f) {
        if (f.GetFullName() != fullName(m)) { C->fail("full-name", "full name " + f.GetFullName() + ", not " + fullName(m)); ok = false; }
        for (size_t i = 0; i < m.kids.size(); i++) if (!m.kids[i]->junk) go(*m.kids[i], f.GetChildren().GetFieldAt((unsigned)i));
    };
    for (size_t i = 0; i < e.roots.size(); i++) if (!e.roots[i]->junk) go(*e.roots[i], form->GetFieldAt((unsigned)i));
    return ok;
}
static void history(int start, const std::vector<Op>& ops)
{
    Env e; e.doc.reset(new PdfMemDocument()); e.keep.emplace_back(new string(startDoc(start, e))); e.doc->LoadFromBuffer(*e.keep.back());
    for (auto& o : ops) { if (!apply(e, o)) return; C->transition(); C->state(show(e)); }
    if (!judge(e, "in memory") || !judgeIter(e, "in memory") || !names(e)) return;
    string b = save(*e.doc), want = show(e); File f = readFile(b);
    if (f.problems.size()) { C->fail("file", "the saved file: " + f.problems[0]); return; }
    try { auto got = fileView(f, Known); if (got != want) { C->fail("file-lists", "the file has " + got + ", not " + want); return; } } catch (const Bad& x) { C->fail("file-structure", string("in the file: ") + x.what() + ", expected " + want); return; }
    e.keep.emplace_back(new string(b)); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(b);
    if (!judgeIter(e, "after reloading") || !judge(e, "after reloading") || !names(e)) return;
    C->trace();
}
// ---- properties of fields ------------------------------------------------------------------------------------------
struct Prop { string name; std::vector<string> values; std::function<void(PdfField&, const string&)> set; std::function<string(const PdfField&)> get; };
static string opt(const nullable<const PdfString&>& s) { return s.has_value() ? "(" + s->GetString() + ")" : "none"; }
static nullable<PdfString> toOpt(const string& v) { if (v == "none") return { }; return PdfString(v.substr(1, v.size() - 2)); }
static std::vector<Prop> propsOf(PdfFieldType t, bool widget)
{
    std::vector<Prop> v; std::vector<string> bl{ "1", "0" }, tx{ "(q)", "none", "(\xC3\xA9\xE4\xBD\xA0 x)", "()" };
    auto str = [&](const char* n, void (PdfField::*s)(nullable<const PdfString&>), nullable<const PdfString&> (PdfField::*g)() const) { v.push_back({ n, tx, [=](PdfField& f, const string& x) { auto o = toOpt(x); if (o.has_value()) (f.*s)(*o); else (f.*s)({ }); }, [=](const PdfField& f) { return opt((f.*g)()); } }); };
#define FLAG(cls, n) v.push_back({ #n, bl, [](PdfField& f, const string& x) { static_cast<cls&>(f).Set##n(x == "1"); }, [](const PdfField& f) { return static_cast<const cls&>(f).Is##n() ? "1" : "0"; } })
#define TEXT(cls, n) v.push_back({ #n, tx, [](PdfField& f, const string& x) { auto o = toOpt(x); if (o.has_value()) static_cast<cls&>(f).Set##n(*o); else static_cast<cls&>(f).Set##n({ }); }, [](const PdfField& f) { return opt(static_cast<const cls&>(f).Get##n()); } })
    FLAG(PdfField, ReadOnly); FLAG(PdfField, Required); FLAG(PdfField, NoExport);
    str("Name", &PdfField::SetName, &PdfField::GetName); str("AlternateName", &PdfField::SetAlternateName, &PdfField::GetAlternateName); str("MappingName", &PdfField::SetMappingName, &PdfField::GetMappingName);
    v.push_back({ "HighlightingMode", { "1", "2", "3", "4" }, [](PdfField& f, const string& x) { f.SetHighlightingMode((PdfHighlightingMode)(x[0] - '0')); }, [](const PdfField& f) { return string(1, (char)('0' + (int)f.GetHighlightingMode())); } });
    if (t == PdfFieldType::TextBox)
    {
        TEXT(PdfTextBox, Text); FLAG(PdfTextBox, MultiLine); FLAG(PdfTextBox, PasswordField); FLAG(PdfTextBox, FileField); FLAG(PdfTextBox, SpellcheckingEnabled); FLAG(PdfTextBox, ScrollBarsEnabled); FLAG(PdfTextBox, Combs); FLAG(PdfTextBox, RichText);
        v.push_back({ "MaxLen", { "9", "4" }, [](PdfField& f, const string& x) { static_cast<PdfTextBox&>(f).SetMaxLen(atoi(x.c_str())); }, [](const PdfField& f) { return vf::fmt("%d", (int)static_cast<const PdfTextBox&>(f).GetMaxLen()); } });
    }
    if (t == PdfFieldType::ComboBox || t == PdfFieldType::ListBox)
    {
        FLAG(PdChoiceField, SpellcheckingEnabled); FLAG(PdChoiceField, Sorted); FLAG(PdChoiceField, MultiSelect);
        v.push_back({ "CommitOnSelectionChange", bl, [](PdfField& f, const string& x) { static_cast<PdChoiceField&>(f).SetCommitOnSelectionChange(x == "1"); }, [](const PdfField& f) { return static_cast<const PdChoiceField&>(f).IsCommitOnSelectionChange() ? "1" : "0"; } });
        if (t == PdfFieldType::ComboBox) FLAG(PdfComboBox, Editable);
        v.push_back({ "kind", {}, nullptr, [](const PdfField& f) { return static_cast<const PdChoiceField&>(f).IsComboBox() ? "combo" : "list"; } });
    }
    bool btn = t == PdfFieldType::PushButton || t == PdfFieldType::CheckBox || t == PdfFieldType::RadioButton;
    if (btn && widget) TEXT(PdfButton, Caption);
    if (t == PdfFieldType::PushButton && widget) { TEXT(PdfPushButton, RolloverCaption); TEXT(PdfPushButton, AlternateCaption); }
    if (btn) v.push_back({ "kind", {}, nullptr, [](const PdfField& f) { auto& b = static_cast<const PdfButton&>(f); return vf::fmt("%d%d%d", b.IsPushButton(), b.IsCheckBox(), b.IsRadioButton()); } });
    if (t == PdfFieldType::CheckBox) FLAG(PdfCheckBox, Checked);
    return v;
}
typedef std::map<string, string> St;
static St defaults(PdfFieldType t, bool widget)
{
    St s; for (auto& p : propsOf(t, widget)) s[p.name] = p.values.size() && p.values[0][0] == '(' ? "none" : "0";
    s["Name"] = "(n)"; s["HighlightingMode"] = vf::fmt("%d", (int)PdfHighlightingMode::Invert);
    for (auto k : { "SpellcheckingEnabled", "ScrollBarsEnabled" }) if (s.count(k)) s[k] = "1";
    if (s.count("MaxLen")) s["MaxLen"] = "-1";
    if (s.count("kind")) s["kind"] = t == PdfFieldType::PushButton ? "100" : t == PdfFieldType::CheckBox ? "010" : t == PdfFieldType::RadioButton ? "001" : t == PdfFieldType::ComboBox ? "combo" : "list";
    return s;
}
static bool compare(const PdfField& f, const St& want, const std::vector<Prop>& ps, PdfFieldType t, const char* when)
{
    if (f.GetType() != t) { C->fail("type", string(when) + ": the type is " + typeName(f.GetType()) + ", not " + typeName(t)); return false; }
    for (auto& p : ps) { auto g = p.get(f); if (g != want.at(p.name)) { C->fail("property", string(when) + ": " + p.name + " is " + g + ", not " + want.at(p.name)); return false; } }
    return true;
}
static void properties(PdfFieldType t, bool widget, const std::vector<std::pair<unsigned, unsigned>>& sets)
{
    auto ps = propsOf(t, widget); auto st = defaults(t, widget); std::map<bool, string> text{ { false, "none" }, { true, "none" } };
    PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    PdfField& f = widget ? d.GetPages().GetPageAt(0).CreateField("n", t, PdfRect(1, 2, 3, 4)) : d.GetOrCreateAcroForm().CreateField("n", t);
    // the flags for spell checking and scroll bars have no agreed value before they are set
    if (t == PdfFieldType::TextBox) { static_cast<PdfTextBox&>(f).SetSpellcheckingEnabled(true); static_cast<PdfTextBox&>(f).SetScrollBarsEnabled(true); }
    if (t == PdfFieldType::ComboBox || t == PdfFieldType::ListBox) static_cast<PdChoiceField&>(f).SetSpellcheckingEnabled(true);
    for (auto& s : sets)
    {
        auto& p = ps[s.first]; auto& v = p.values[s.second]; bool rich = st.count("RichText") && st["RichText"] == "1";
        if (p.name == "Text" && st["MaxLen"] == "4" && v.size() > 6) { if (!refused([&] { p.set(f, v); })) { C->fail("max-len", "a text longer than MaxLen is accepted"); return; } }
        else { p.set(f, v); if (p.name == "Text") text[rich] = v; else st[p.name] = v; }
        if (st.count("Text")) st["Text"] = text[st["RichText"] == "1"];
        C->transition();
        if (!compare(f, st, ps, t, "in memory")) return;
    }
    string sig = typeName(t); for (auto& x : st) sig += " " + x.first + "=" + x.second; C->state(sig);
    string b = save(d); PdfMemDocument e; e.LoadFromBuffer(b);
    PdfField* g; if (widget) { auto& a = e.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0); g = &static_cast<PdfAnnotationWidget&>(a).GetField(); } else g = &e.GetAcroForm()->GetFieldAt(0);
    if (!compare(*g, st, ps, t, "after reloading")) return;
    C->trace();
}
// ---- choice items --------------------------------------------------------------------------------------------------
static void choices(PdfFieldType t, const std::vector<unsigned>& ops)
{
    PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& f = static_cast<PdChoiceField&>(d.GetPages().GetPageAt(0).CreateField("n", t, PdfRect(1, 2, 3, 4)));
    std::vector<std::pair<string, string>> items; string sel; bool has = false; int k = 0;
    auto check = [&](const PdChoiceField& c, const char* when) {
        string g, w; unsigned n = c.GetItemCount(); for (unsigned i = 0; i < n; i++) g += " " + c.GetItem(i).GetString() + "/" + opt(c.GetItemDisplayText((int)i));
        for (auto& i : items) w += " " + i.first + "/(" + i.second + ")";
        int si = -1; if (has) for (size_t i = 0; i < items.size(); i++) if (items[i].first == sel) { si = (int)i; break; }
        if (g != w) { C->fail("items", string(when) + ": the items are" + g + ", not" + w); return false; }
        if (c.GetSelectedIndex() != si) { C->fail("selected", string(when) + vf::fmt(": item %d is selected, not %d of", c.GetSelectedIndex(), si) + w); return false; }
        if (!refused([&] { c.GetItem(n); })) { C->fail("items", "an item after the last one is given"); return false; }
        return true;
    };
    for (auto o : ops)
    {
        C->transition();
        if (o == 0) { string v = vf::fmt("v%d", k++); f.InsertItem(PdfString(v), { }); items.push_back({ v, v }); }
        else if (o == 1) { string v = vf::fmt("v%d", k++), w = "v" + std::to_string(k % 3); f.InsertItem(PdfString(v), PdfString(w)); items.push_back({ v, w }); }
        else if (o < 5) { unsigned i = o - 2; if (i >= items.size()) { if (items.size() && !refused([&] { f.RemoveItem(i); })) { C->fail("items", "an item that is not there is removed"); return; } } else { f.RemoveItem(i); items.erase(items.begin() + i); } }
        else { int i = (int)o - 5; if ((size_t)i >= items.size()) { if (!refused([&] { f.SetSelectedIndex(i); })) { C->fail("selected", "an item that is not there is selected"); return; } } else { f.SetSelectedIndex(i); sel = items[i].first; has = true; } }
        if (!check(f, "in memory")) return;
    }
    string sig; for (auto& i : items) sig += " " + i.first + "/" + i.second; C->state(sig + " sel " + sel);
    string b = save(d); PdfMemDocument e; e.LoadFromBuffer(b);
    if (!check(static_cast<PdChoiceField&>(e.GetAcroForm()->GetFieldAt(0)), "after reloading")) return;
    C->trace();
}
// ---- properties and appearances of annotations ---------------------------------------------------------------------
static string colour(const PdfColor& c) { try { auto a = c.ToArray(); string s; for (auto& x : a) s += vf::fmt(" %.3f", x.GetReal()); return s; } catch (const std::exception&) { return "none"; } }
static const std::vector<std::pair<string, std::vector<string>>> AP{ { "Title", { "(q)", "none", "(\xC3\xA9\xE4\xBD\xA0)" } }, { "Contents", { "(q)", "none", "(\xC3\xA9\xE4\xBD\xA0)" } }, { "Flags", { "0", "4", "1023", "64" } }, { "Color", { " 0.500", " 1.000 0.000 0.250", " 0.000 0.250 0.500 1.000", " 1.000", "none" } }, { "Rect", { "1 2 30 40", "0 0 0 0", "-5 -6 7.5 8" } }, { "Open", { "1", "0", "none" } } };
static void setA(PdfAnnotation& a, const string& k, const string& v)
{
    if (k == "Title" || k == "Contents") { auto o = toOpt(v); if (k == "Title") { if (o.has_value()) a.SetTitle(*o); else a.SetTitle({ }); } else { if (o.has_value()) a.SetContents(*o); else a.SetContents({ }); } }
    else if (k == "Flags") a.SetFlags((PdfAnnotationFlags)atoi(v.c_str()));
    else if (k == "Color") { if (v == "none") a.SetColor({ }); else { double x[4]; int n = sscanf(v.c_str(), "%lf %lf %lf %lf", x, x + 1, x + 2, x + 3); a.SetColor(n == 1 ? PdfColor(x[0]) : n == 3 ? PdfColor(x[0], x[1], x[2]) : PdfColor(x[0], x[1], x[2], x[3])); } }
    else if (k == "Rect") { double x[4]; sscanf(v.c_str(), "%lf %lf %lf %lf", x, x + 1, x + 2, x + 3); a.SetRect(PdfRect(x[0], x[1], x[2], x[3])); }
    else if (k == "Open") { nullable<bool> o; if (v != "none") o = v == "1"; if (auto p = dynamic_cast<PdfAnnotationPopup*>(&a)) p->SetOpen(o); else static_cast<PdfAnnotationText&>(a).SetOpen(o); }
}
static string getA(const PdfAnnotation& a, const string& k)
{
    if (k == "Title") return opt(a.GetTitle());
    if (k == "Contents") return opt(a.GetContents());
    if (k == "Flags") return vf::fmt("%d", (int)a.GetFlags());
    if (k == "Color") return colour(a.GetColor());
    if (k == "Rect") { auto r = a.GetRect(); return vf::fmt("%g %g %g %g", r.GetLeft(), r.GetBottom(), r.GetWidth(), r.GetHeight()); }
    if (auto p = dynamic_cast<const PdfAnnotationPopup*>(&a)) return p->GetOpen() ? "1" : "0";
    return static_cast<const PdfAnnotationText&>(a).GetOpen() ? "1" : "0";
}
static void annotProps(int type, const std::vector<std::pair<unsigned, unsigned>>& sets)
{
    auto t = (PdfAnnotationType)type; PdfMemDocument d; auto& pg = d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& a = pg.GetAnnotations().CreateAnnot(t, PdfRect(1, 2, 3, 4));
    St st{ { "Title", "none" }, { "Contents", "none" }, { "Flags", "4" }, { "Color", " 0.000" }, { "Rect", "1 2 3 4" } }; bool open = t == PdfAnnotationType::Text || t == PdfAnnotationType::Popup; if (open) st["Open"] = "0";
    auto check = [&](const PdfAnnotation& x, const char* when) { if (x.GetType() != t) { C->fail("annot-type", string(when) + vf::fmt(": type %d, not %d", (int)x.GetType(), type)); return false; } for (auto& p : st) { auto g = getA(x, p.first); if (g != p.second) { C->fail("annot-property", string(when) + ": " + p.first + " is " + g + ", not " + p.second); return false; } } return true; };
    for (auto& s : sets) { auto& p = AP[s.first]; if (p.first == "Open" && !open) continue; auto& v = p.second[s.second]; setA(a, p.first, v); st[p.first] = v != "none" ? v : p.first == "Open" ? "0" : p.first == "Color" ? " 0.000" : v; C->transition(); if (!check(a, "in memory")) return; }
    string sig = vf::fmt("%d", type); for (auto& x : st) sig += " " + x.first + "=" + x.second; C->state(sig);
    string b = save(d); PdfMemDocument e; e.LoadFromBuffer(b);
    if (!check(e.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0), "after reloading")) return;
    C->trace();
}
static void appearances(const std::vector<unsigned>& ops)
{
    PdfMemDocument d; auto& pg = d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& a = pg.GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, PdfRect(1, 2, 3, 4));
    static const PdfAppearanceType T[] = { PdfAppearanceType::Normal, PdfAppearanceType::Rollover, PdfAppearanceType::Down }; static const char* S[] = { "", "On", "Off" };
    std::map<std::pair<int, int>, int64_t> m; std::vector<std::unique_ptr<PdfXObjectForm>> keep;
    auto check = [&](PdfAnnotation& x, const char* when) {
        for (int t = 0; t < 3; t++) for (int s = 0; s < 3; s++)
        {
            auto o = x.GetAppearanceStream(T[t], s ? PdfName(S[s]) : PdfName()); if (o && !o->HasStream()) o = nullptr;
            int64_t g = o ? num(*o) : 0, w = m.count({ t, s }) ? m[{ t, s }] : 0;
            if (g != w) { C->fail("appearance", string(when) + vf::fmt(": appearance %d state %s is object %d, not %d", t, S[s], (int)g, (int)w)); return false; }
        }
        std::vector<PdfAppearanceIdentity> v; x.GetAppearanceStreams(v); std::set<int64_t> g, w; for (auto& i : v) g.insert(num(*i.Object)); for (auto& i : m) w.insert(i.second);
        if (g != w || v.size() != m.size()) { C->fail("appearance-list", string(when) + vf::fmt(": %zu appearances, not %zu", v.size(), m.size())); return false; }
        return true;
    };
    for (auto o : ops)
    {
        int t = o / 3, s = o % 3; auto x = d.CreateXObjectForm(PdfRect(0, 0, 10, 10)); { PdfPainter p; p.SetCanvas(*x); p.Rectangle(1, 1, 2, 2); p.FinishDrawing(); }
        a.SetAppearanceStream(*x, T[t], s ? PdfName(S[s]) : PdfName()); if (s) m.erase({ t, 0 }); else { m.erase({ t, 1 }); m.erase({ t, 2 }); }
        m[{ t, s }] = num(x->GetObject()); keep.push_back(std::move(x)); C->transition();
        if (!check(a, "in memory")) return;
        for (auto& k : keep) for (auto n : { "On", "Off" }) if (k->GetObject().GetDictionary().HasKey(n)) { C->fail("appearance-stream", "the form itself got a key"); return; }
    }
    string sig; for (auto& x : m) sig += vf::fmt(" %d.%d=%d", x.first.first, x.first.second, (int)x.second); C->state(sig);
    string b = save(d); PdfMemDocument e; e.LoadFromBuffer(b);
    if (!check(e.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0), "after reloading")) return;
    C->trace();
}
static void explore(vf::Ctx& c)
{
    C = &c; typedef PdfFieldType F;
    std::vector<Op> full{ { AText }, { ALink }, { ARemNone }, { FRemNone }, { Reload }, { Touch } }, small;
    for (int i : { 0, 1, 2, 3, 5 }) for (int k : { (int)ARemAt, (int)ARemRef, (int)FRemAt, (int)FRemRef }) full.push_back({ k, i });
    for (int i : { 0, 1, 2 }) for (int k : { (int)Kid, (int)KidP, (int)KidKid, (int)KidRem, (int)KidRemRef, (int)Rename, (int)Contents }) full.push_back({ k, i });
    full.push_back({ Unname, 0 });
    for (auto n : { "a", "b", "e" }) for (auto t : { F::TextBox, F::CheckBox }) { full.push_back({ FNew, 0, n, t }); full.push_back({ PNew, 0, n, t }); }
    for (auto t : { F::PushButton, F::RadioButton, F::ComboBox, F::ListBox, F::Signature }) { full.push_back({ FNew, 0, "g", t }); full.push_back({ PNew, 0, "g", t }); }
    small = { { AText }, { ARemAt, 0 }, { ARemAt, 1 }, { ARemRef, 1 }, { FRemAt, 0 }, { FRemAt, 1 }, { FRemRef, 1 }, { Kid, 0 }, { KidP, 0 }, { KidKid, 0 }, { KidRem, 0 }, { KidRemRef, 0 }, { FNew, 0, "a", F::TextBox }, { PNew, 0, "a", F::TextBox }, { PNew, 0, "b", F::CheckBox }, { Unname, 0 }, { Reload } };
    auto go = [&](const std::vector<Op>& ops, std::vector<int> st, unsigned depth, const char* tag) {
        for (int s : st) vf::sequences((unsigned)ops.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            std::vector<Op> h; for (auto i : v) h.push_back(ops[i]);
            c.run(tag, [&] { string d = vf::fmt("document %d:", s); for (auto& o : h) d += vf::fmt(" %s %d %s %s,", KN[o.k], o.a, o.name ? o.name : "", o.name ? typeName(o.t).c_str() : ""); return d; }, [&] { history(s, h); });
        });
    };
    std::vector<int> all{ 0, 1, 2, 3, 4 };
    go(full, all, 0, "start"); go(full, all, 1, "depth1"); go(full, all, 2, "depth2"); go(small, { 0, 1, 2, 3 }, 3, "depth3");
    if (c.thorough) { go(full, all, 3, "depth3full"); go(small, { 0, 1, 3 }, 4, "depth4"); }
    for (auto t : { F::PushButton, F::CheckBox, F::RadioButton, F::TextBox, F::ComboBox, F::ListBox, F::Signature }) for (bool w : { false, true })
    {
        auto ps = propsOf(t, w); std::vector<std::pair<unsigned, unsigned>> ss; for (unsigned i = 0; i < ps.size(); i++) for (unsigned j = 0; j < ps[i].values.size(); j++) ss.push_back({ i, j });
        for (unsigned depth = 0; depth <= (c.thorough ? 3u : 2u); depth++) vf::sequences((unsigned)ss.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            std::vector<std::pair<unsigned, unsigned>> h; for (auto i : v) h.push_back(ss[i]);
            c.run("properties", [&] { string d = typeName(t) + (w ? " on a page:" : " in the form:"); for (auto& o : h) d += " " + ps[o.first].name + "=" + ps[o.first].values[o.second]; return d; }, [&] { properties(t, w, h); });
        });
    }
    for (auto t : { F::ComboBox, F::ListBox }) for (unsigned depth = 1; depth <= (c.thorough ? 5u : 4u); depth++) vf::sequences(8, depth, [&](const std::vector<unsigned>& v) {
        if (!c.mine()) { c.skip(); return; }
        c.run("choices", [&] { string d = typeName(t) + ":"; for (auto i : v) d += vf::fmt(" %u", i); return d; }, [&] { choices(t, v); });
    });
    {
        std::vector<std::pair<unsigned, unsigned>> ss; for (unsigned i = 0; i < AP.size(); i++) for (unsigned j = 0; j < AP[i].second.size(); j++) ss.push_back({ i, j });
        for (int type = 1; type <= (int)PdfAnnotationType::Projection; type++) for (unsigned depth = 0; depth <= (c.thorough || type <= 2 ? 2u : 1u); depth++) vf::sequences((unsigned)ss.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            std::vector<std::pair<unsigned, unsigned>> h; for (auto i : v) h.push_back(ss[i]);
            c.run("annotations", [&] { string d = vf::fmt("type %d:", type); for (auto& o : h) d += " " + AP[o.first].first + "=" + AP[o.first].second[o.second]; return d; }, [&] { annotProps(type, h); });
        });
    }
    for (unsigned depth = 1; depth <= (c.thorough ? 4u : 3u); depth++) vf::sequences(9, depth, [&](const std::vector<unsigned>& v) {
        if (!c.mine()) { c.skip(); return; }
        c.run("appearances", [&] { string d = "appearances"; for (auto i : v) d += vf::fmt(" %u", i); return d; }, [&] { appearances(v); });
    });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P30";
    cfg.rule = "all histories of edits of the annotation and form-field collections up to a depth from all start documents; a state is the pair of lists reached, a transition one edit; every history is judged in memory, in the saved file by an independent walk, and after reloading; besides, all sequences of property setters, choice items and appearances up to a depth";
    cfg.assumptions = { "creating a field whose name is that of an existing one of the same type makes both widgets of one field", "a widget may stay behind when creating a field is refused" };
    return vf::main(argc, argv, cfg, explore);
}
