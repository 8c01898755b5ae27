// Painting sessions: what the contents mean after any history of sessions on pages
// and forms, by an interpreter of content streams, against a model of the calls.
#include "ref.h"
#include <pdfmm/base/PdfPainter.h>
#include <pdfmm/base/PdfExtGState.h>
using namespace mm;
using std::string; using std::vector;
static vf::Ctx* C;
typedef std::function<string(const string& type, const string& name)> Resolve;

// The painting events of content, each with the state it is drawn in
struct Meaning { vector<string> ev; string error; };
static string num(double d) { char b[64]; snprintf(b, sizeof b, "%.4f", d); string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); if (s == "-0") s = "0"; return s; }
static string showv(const ref::Val& v) { if (v.k == ref::Int) return num((double)v.i); if (v.k == ref::Real) return num(v.d); return ref::show(v); }
static Meaning interpret(const string& data, const Resolve& res)
{
    typedef std::map<string, string> St; Meaning r;
    St s{ { "w", "1" }, { "M", "10" }, { "J", "0" }, { "j", "0" }, { "ri", "" }, { "fill", "0 g" }, { "stroke", "0 G" }, { "Tz", "100" }, { "Tc", "0" }, { "Tw", "0" }, { "Tr", "0" }, { "Tf", "none" }, { "cm", "" }, { "gs", "" }, { "clip", "" }, { "d", "[] 0" } };
    vector<St> stack; vector<ref::Val> args; string path, tm; bool text = false, clip = false; int marked = 0;
    auto err = [&](const string& e) { if (r.error.empty()) r.error = e; };
    auto event = [&](const string& e, bool withText) { string t = e + " |"; for (auto& [k, v] : s) { bool tx = k[0] == 'T'; if (tx && !withText) continue; t += " " + k + "=" + v; } if (withText) t += " at" + tm; if (marked) t += vf::fmt(" marked%d", marked); r.ev.push_back(t); };
    ref::Lex lx(data, 0, false);
    try {
        while (!lx.eof())
        {
            char c = data[lx.p];
            if (strchr("0123456789+-./([<", c)) { args.push_back(lx.value()); continue; }
            string op = lx.keyword(); if (op.empty()) { err(vf::fmt("unreadable at %zu", lx.p)); break; }
            string a; for (auto& x : args) a += (a.empty() ? "" : " ") + showv(x);
            auto nm = [&](const char* type) -> string { return args.size() && args[0].k == ref::Name ? res(type, args[0].s) : "?"; };
            if (text && (op == "q" || op == "Q" || op == "cm" || op == "re" || op == "m" || op == "Do" || op == "S" || op == "f" || op == "n" || op == "W")) err(op + " inside a text object");
            if (op == "q") stack.push_back(s); else if (op == "Q") { if (stack.empty()) err("Q without q"); else { s = stack.back(); stack.pop_back(); } }
            else if (op == "w" || op == "M" || op == "J" || op == "j" || op == "ri" || op == "d" || op == "Tz" || op == "Tc" || op == "Tw" || op == "Tr") s[op] = a;
            else if (op == "g" || op == "rg" || op == "k") s["fill"] = a + " " + op; else if (op == "G" || op == "RG" || op == "K") s["stroke"] = a + " " + op;
            else if (op == "cs") s["fill"] = "cs " + nm("ColorSpace"); else if (op == "CS") s["stroke"] = "cs " + nm("ColorSpace");
            else if (op == "scn") s["fill"] += " " + a; else if (op == "SCN") s["stroke"] += " " + a;
            else if (op == "cm") s["cm"] += " (" + a + ")"; else if (op == "gs") s["gs"] += " " + nm("ExtGState");
            else if (op == "Tf") { if (args.size() != 2) err("Tf with wrong operands"); else s["Tf"] = nm("Font") + " " + showv(args[1]); }
            else if (op == "BT") { if (text) err("nested BT"); text = true; tm = ""; } else if (op == "ET") { if (!text) err("ET without BT"); text = false; }
            else if (op == "Td") { if (!text) err("Td outside text"); tm += " " + a; }
            else if (op == "Tj") { if (!text) err("Tj outside text"); event("text " + a, true); }
            else if (op == "m" || op == "l" || op == "c" || op == "re" || op == "h") path += " " + a + " " + op;
            else if (op == "W" || op == "W*") clip = true;
            else if (op == "n" || op == "S" || op == "f" || op == "f*" || op == "B") { if (op != "n") event(op + path, false); if (clip) s["clip"] += " {" + path + "}"; clip = false; path = ""; }
            else if (op == "Do") event("Do " + nm("XObject"), false);
            else if (op == "BMC") { marked++; event("mark " + a, false); } else if (op == "EMC") { if (--marked < 0) err("EMC without BMC"); }
            else err("unknown operator " + vf::esc(op, 40));
            args.clear();
        }
    } catch (const ref::Bad& e) { err(e.what()); }
    if (args.size()) err("operands left at the end"); if (path.size()) err("unpainted path"); if (stack.size()) err("q without Q"); if (text) err("BT without ET"); if (marked) err("BMC without EMC");
    return r;
}

// Start documents. Names of the template are written @n, n the object number, in what is expected
static const char* SHAPE[] = { "new", "one stream, shared", "array, inherited resources", "odd array, indirect resources", "empty and null contents", "colliding names", "direct null resources" };
static const int NS = 7;
static string content(int part, bool expect) { auto n = [&](const char* s, int o) { return expect ? vf::fmt("/@%d", o) : string("/") + s; };
    switch (part) {
        case 0: return "2 w 0 0 m 5 5 l S BT " + n("F1", 20) + " 9 Tf 1 2 Td (base) Tj ET q 3 0 0 3 0 0 cm " + n("X1", 21) + " Do Q % end";
        case 1: return "BT " + n("F1", 20) + " 9";
        case 2: return "Tf (one) Tj ET q"; case 3: return "7 w 1 1 2 2 re f Q%x"; default: return ""; } }
struct Doc { std::unique_ptr<PdfMemDocument> d; string bytes; std::unique_ptr<PdfXObjectForm> form; string base[3]; int64_t num[3]; };
static string startBytes(int shape)
{
    using V = ref::Val; ref::Builder b;
    auto resv = V::D({ { "Font", V::D({ { "F1", V::Rf(20) } }) }, { "XObject", V::D({ { "X1", V::Rf(21) } }) } });
    auto box = V::A({ V::I(0), V::I(0), V::I(200), V::I(200) });
    auto a = V::D({ { "Type", V::N("Page") }, { "Parent", V::Rf(2) }, { "MediaBox", box } }), p = a, root = V::D({ { "Type", V::N("Pages") }, { "Count", V::I(2) }, { "Kids", V::A({ V::Rf(3), V::Rf(4) }) } });
    switch (shape)
    {
        case 1: a.m["Contents"] = p.m["Contents"] = V::Rf(10); a.m["Resources"] = p.m["Resources"] = V::Rf(15); b.obj(15, resv); b.stream(10, V::D(), content(0, false)); break;
        case 2: a.m["Contents"] = V::A({ V::Rf(11), V::Rf(12), V::Rf(13) }); p.m["Contents"] = V::Rf(10); root.m["Resources"] = resv; b.stream(10, V::D({ { "Filter", V::N("FlateDecode") } }), ref::deflate(content(0, false))); for (int i = 1; i < 4; i++) b.stream(10 + i, V::D(), content(i, false)); break;
        case 3: a.m["Contents"] = V::Rf(14); b.obj(14, V::A({ V(), V::Rf(10), V::Rf(99), V::Rf(10) })); a.m["Resources"] = V::Rf(15); resv.m["Font"] = V::Rf(16); b.obj(16, V::D({ { "F1", V::Rf(20) } })); b.obj(15, resv); b.stream(10, V::D(), content(0, false)); break;
        case 4: a.m["Contents"] = V::A(); p.m["Contents"] = V(); break;
        case 5: a.m["Contents"] = V::A({ V::Rf(10) }); a.m["Resources"] = resv; b.stream(10, V::D(), content(0, false)); break;
        case 6: a.m["Contents"] = V::Rf(10); a.m["Resources"] = V(); root.m["Resources"] = V::Rf(15); b.obj(15, resv); b.stream(10, V::D(), content(0, false)); break;
    }
    b.obj(1, V::D({ { "Type", V::N("Catalog") }, { "Pages", V::Rf(2) }, { "Form", V::Rf(17) } })); b.obj(2, root); b.obj(3, a); b.obj(4, p);
    b.stream(17, V::D({ { "Type", V::N("XObject") }, { "Subtype", V::N("Form") }, { "BBox", box }, { "Resources", resv } }), content(0, false));
    b.obj(20, V::D({ { "Type", V::N("Font") }, { "Subtype", V::N("Type1") }, { "BaseFont", V::N("Helvetica") } }));
    b.stream(21, V::D({ { "Type", V::N("XObject") }, { "Subtype", V::N("Form") }, { "BBox", box } }), "0 0 1 1 re f");
    b.startxref(b.xrefTableAuto(V::D({ { "Root", V::Rf(1) } }))); return b.out;
}
static string nl(const vector<string>& v) { string s; for (auto& x : v) if (x.size()) { if (s.size()) s += "\n"; s += x; } return s; }
struct Env { Doc k; const PdfFont* font[2] = { }; std::unique_ptr<PdfImage> img; std::unique_ptr<PdfExtGState> gs; std::unique_ptr<PdfXObjectForm> xo; };
static PdfCanvas& canvas(Doc& d, int t) { if (t == 2) return *d.form; return d.d->GetPages().GetPageAt(t); }
static void open(Env& e, int shape, bool fonts)
{
    Doc& k = e.k; k.d.reset(new PdfMemDocument());
    if (shape == 0)
    {
        for (int i = 0; i < 2; i++) k.num[i] = k.d->GetPages().CreatePage(PdfRect(0, 0, 200, 200)).GetObject().GetIndirectReference().ObjectNumber();
        k.form = k.d->CreateXObjectForm(PdfRect(0, 0, 50, 50)); k.d->GetCatalog().GetDictionary().AddKeyIndirect("Form", k.form->GetObject());
    }
    else
    {
        k.bytes = startBytes(shape); k.d->LoadFromBuffer(k.bytes); k.num[0] = 3; k.num[1] = 4;
        std::unique_ptr<PdfXObject> x; PdfXObject::TryCreateFromObject(*k.d->GetObjects().GetObject(PdfReference(17, 0)), x); k.form.reset(static_cast<PdfXObjectForm*>(x.release()));
        k.base[2] = content(0, true);
        switch (shape) { case 1: k.base[0] = k.base[1] = content(0, true); break; case 2: k.base[0] = nl({ content(1, true), content(2, true), content(3, true) }); k.base[1] = content(0, true); break; case 3: k.base[0] = nl({ content(0, true), content(0, true) }); break; case 5: case 6: k.base[0] = content(0, true); }
    }
    k.num[2] = k.form->GetObject().GetIndirectReference().ObjectNumber();
    if (fonts) { PdfFontCreateParams pr; pr.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding(); e.font[0] = k.d->GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica, pr); e.font[1] = k.d->GetFonts().GetStandard14Font(PdfStandard14FontType::TimesRoman, pr); }
    e.img = k.d->CreateImage("My Im#"); e.img->SetData(bufferview("\1\2\3\0", 4), 1, 1, PdfPixelFormat::RGB24); e.gs.reset(new PdfExtGState(*k.d)); e.gs->SetFillOpacity(0.5); e.xo = k.d->CreateXObjectForm(PdfRect(0, 0, 9, 9), "X"); { PdfPainter p; p.SetCanvas(*e.xo); p.Rectangle(0, 0, 1, 1); p.Fill(); p.FinishDrawing(); }
    if (shape == 5)      // other resources have the names that the library will choose
    {
        auto& res = *k.d->GetPages().GetPageAt(0).GetResources(); auto& other = *k.d->GetObjects().GetObject(PdfReference(20, 0));
        if (fonts) for (auto f : e.font) res.AddResource("Font", f->GetIdentifier(), other); res.AddResource("XObject", e.img->GetIdentifier(), *k.d->GetObjects().GetObject(PdfReference(21, 0))); res.AddResource("XObject", e.xo->GetIdentifier(), *k.d->GetObjects().GetObject(PdfReference(21, 0)));
        auto& g = k.d->GetObjects().CreateDictionaryObject("ExtGState"); res.AddResource("ExtGState", e.gs->GetIdentifier(), g);
        // and are used by what is there
        auto& s = *k.d->GetObjects().GetObject(PdfReference(10, 0)); string c = content(0, false); if (fonts) c += "\nBT /" + e.font[0]->GetIdentifier().GetEscapedName() + " 5 Tf (old) Tj ET"; s.GetStream()->SetData(c);
        k.base[0] = content(0, true) + (fonts ? "\nBT /@20 5 Tf (old) Tj ET" : "");
    }
}
enum Op { W5, W1, W0, Cap2, Line, Push, Pop, Red, Black, Stroke, FontA, FontB, Scale2, Scale1, Space3, Space0, Text, TabText, AddT, InText, Multi, Img, Form, Gs, Sep, SepG, Lab, Mark, Mtx, CMtx, Clip, Dash, NOP };
static const char* OPN[] = { "LineWidth 5", "LineWidth 1", "LineWidth 0", "LineCap Square", "DrawLine", "Save", "Restore", "FillColor red", "FillColor black", "StrokeColor blue", "Font A 12", "Font B 10", "FontScale 2", "FontScale 1", "CharSpacing 3", "CharSpacing 0", "DrawText", "DrawText with tab", "BeginText/AddText/EndText", "AddText changing font", "DrawMultiLineText", "DrawImage", "DrawXObject", "ExtGState", "Separation", "Separation of gray", "Lab", "marked content", "Rectangle Fill", "SetCurrentMatrix", "clip", "dash" };
struct Text_ { int font = -1; double size = 0; std::optional<double> z, c; };
struct Painter { std::unique_ptr<PdfPainter> p; int flags; Text_ t; int target = -1; string out; bool any = false; int depth = 0; bool cmUsed = false, textInside = false; vector<bool> cms; bool tdirty = false; vector<bool> tds; bool amb = false; };
struct Model { string content[3]; };
static string at(int64_t n) { return vf::fmt("/@%d", (int)n); }
static int64_t on(const PdfObject& o) { return o.GetIndirectReference().ObjectNumber(); }
static string textState(Env& e, const Text_& t) { string s; if (t.font >= 0) s += at(on(e.font[t.font]->GetObject())) + " " + num(t.size) + " Tf "; if (t.z) s += num(*t.z * 100) + " Tz "; if (t.c) s += num(*t.c) + " Tc "; return s; }
// Does one operation on painter q and adds what it means to q.out
static void op(Env& e, Painter& q, Op o)
{
    auto& p = *q.p; auto& g = p.GetGraphicsState(); auto& t = p.GetTextState(); string& m = q.out;
    auto tset = [&] { if (q.depth) q.tdirty = true; };
    bool isText = o == Text || o == TabText || o == AddT || o == InText || o == Multi; if (isText && (q.t.font < 0 || q.amb)) return;
    if ((o == W5 || o == W1 || o == W0 || o == Cap2 || o == Line || o == Red || o == Black || o == Stroke || o == Img || o == Form || o == Gs || o == Sep || o == SepG || o == Lab || o == Mark || o == Mtx || o == CMtx || o == Clip || o == Dash || isText || o == Push)) q.any = true;
    switch (o)
    {
        case W5: g.SetLineWidth(5); m += "5 w\n"; break; case W1: g.SetLineWidth(1); m += "1 w\n"; break; case W0: g.SetLineWidth(0); m += "0 w\n"; break;
        case Cap2: g.SetLineCapStyle(PdfLineCapStyle::Square); m += "2 J\n"; break;
        case Line: p.DrawLine(1, 2, 3.5, 4); m += "1 2 m 3.5 4 l S\n"; break;
        case Push: p.Save(); m += "q\n"; q.depth++; q.cms.push_back(q.cmUsed); q.tds.push_back(q.tdirty); q.tdirty = false; break;
        case Pop: if (!q.depth) return; p.Restore(); m += "Q\n"; q.depth--; q.cmUsed = q.cms.back(); q.cms.pop_back(); if (q.tdirty) q.amb = true; q.tdirty = q.tds.back(); q.tds.pop_back(); break;
        case Red: g.SetFillColor(PdfColor(1, 0, 0)); m += "1 0 0 rg\n"; break; case Black: g.SetFillColor(PdfColor(0.)); m += "0 g\n"; break; case Stroke: g.SetStrokeColor(PdfColor(0, 0, 1)); m += "0 0 1 RG\n"; break;
        case FontA: if (!e.font[0]) break; t.SetFont(*e.font[0], 12); q.t.font = 0; q.t.size = 12; q.amb = false; tset(); break; case FontB: if (!e.font[0]) break; t.SetFont(*e.font[1], 10); q.t.font = 1; q.t.size = 10; q.amb = false; tset(); break;
        case Scale2: t.SetFontScale(2); q.t.z = 2; tset(); break; case Scale1: t.SetFontScale(1); if (q.t.z) q.t.z = 1; tset(); break;
        case Space3: t.SetCharSpacing(3); q.t.c = 3; tset(); break; case Space0: t.SetCharSpacing(0); if (q.t.c) q.t.c = 0; tset(); break;
        case Text: p.DrawText("a(b", 7, 8); m += "BT " + textState(e, q.t) + "7 8 Td (a\\(b) Tj ET\n"; break;
        case TabText: p.DrawText("a\tb", 7, 8); m += "BT " + textState(e, q.t) + "7 8 Td (a    b) Tj ET\n"; break;
        case AddT: p.BeginText(1, 2); p.AddText("x"); p.MoveTextPos(3, 4); p.AddText("y"); p.EndText(); m += "BT " + textState(e, q.t) + "1 2 Td (x) Tj 3 4 Td (y) Tj ET\n"; break;
        case InText: p.BeginText(1, 2); p.AddText("x"); t.SetFont(*e.font[1], 20); t.SetCharSpacing(4); m += "BT " + textState(e, q.t) + "1 2 Td (x) Tj "; q.t.font = 1; q.t.size = 20; q.t.c = 4; tset(); p.AddText("y"); p.EndText(); m += textState(e, q.t) + "(y) Tj ET\n"; break;
        case Multi: p.DrawMultiLineText("line", 10, 20, 100, 50); m += "q 10 20 100 50 re W n BT " + textState(e, q.t) + "10 " ; { auto& f = *e.font[q.t.font]; PdfTextState s; s.Font = &f; s.FontSize = q.t.size; if (q.t.z) s.FontScale = *q.t.z; if (q.t.c) s.CharSpacing = *q.t.c; double gap = f.GetLineSpacing(s) - f.GetAscent(s) + f.GetDescent(s); m += num(20 + 50 - (f.GetAscent(s) + gap / 2)); } m += " Td (line) Tj ET Q\n"; break;
        case Img: p.DrawImage(*e.img, 1, 2, 3, 4); m += "q 3 0 0 4 1 2 cm " + at(on(e.img->GetObject())) + " Do Q\n"; break;
        case Form: p.DrawXObject(*e.xo, 1, 2); m += "q 1 0 0 1 1 2 cm " + at(on(e.xo->GetObject())) + " Do Q\n"; break;
        case Gs: p.SetExtGState(*e.gs); m += at(on(e.gs->GetObject())) + " gs\n"; break;
        case Sep: g.SetFillColor(PdfColor::CreateSeparation("Sp ot", 0.5, PdfColor(0., 1., 0., 0.))); m += "/@Separation-Sp#20ot-DeviceCMYK-00FF0000 cs 0.5 scn\n"; break;
        case SepG: g.SetFillColor(PdfColor::CreateSeparation("Gr", 1, PdfColor(0.5))); m += "/@Separation-Gr-DeviceGray-7F cs 1 scn\n"; break;
        case Lab: g.SetStrokeColor(PdfColor::CreateCieLab(50, 1, 2)); m += "/@Lab CS 50 1 2 SCN\n"; break;
        case Mark: p.BeginMarkedContext("Tag"); p.DrawLine(0, 0, 1, 1); p.EndMarkedContext(); m += "/Tag BMC 0 0 m 1 1 l S EMC\n"; break;
        case Mtx: p.Rectangle(1, 2, 3, 4); p.Fill(true); m += "1 2 3 4 re f*\n"; break;
        case CMtx: if (q.cmUsed) return; g.SetCurrentMatrix(Matrix::FromCoefficients(1, 0, 0, 1, 9, 9)); m += "1 0 0 1 9 9 cm\n"; q.cmUsed = true; break;
        case Clip: p.SetClipRect(0, 0, 20, 20); m += "0 0 20 20 re W n\n"; break; case Dash: p.SetStrokeStyle(PdfStrokeStyle::Dash); m += "[6 2] 0 d\n"; break;
        default: break;
    }
}
static void begin(Env& e, Painter& q, Model& m, int target)
{
    q.target = target; q.p->SetCanvas(canvas(e.k, target)); (void)m;
}
// Where an unfinished session's content belongs: marked in the model by a placeholder
static void place(Painter& q, Model& m, int id)
{
    string& c = m.content[q.target]; string ph = vf::fmt("\x01%d\x01", id);
    bool nsrp = q.flags & 2, pre = q.flags & 1; string prior = c; bool form = q.target == 2;
    if (!nsrp && prior.find_first_not_of("\n") != string::npos) prior = "q\n" + prior + "\nQ\n";
    c = pre && !form ? ph + "\n" + prior : prior + "\n" + ph;
}
static void finish(Painter& q, Model& m, int id, bool placed)
{
    if (!placed) return; string ph = vf::fmt("\x01%d\x01", id); string& c = m.content[q.target]; size_t i = c.find(ph); if (i == string::npos) abort();
    c.replace(i, ph.size(), q.flags & 4 ? q.out : "q\n" + q.out + "Q\n"); q.out.clear();
}
static bool compare(const string& data, const string& want, const Resolve& r, const string& when)
{
    Resolve rw = [&](const string& type, const string& n) { return n.size() && n[0] == '@' ? n.substr(1) : "unknown " + type + " " + n; };
    Meaning a = interpret(data, r), b = interpret(want, rw);
    if (b.error.size()) { C->fail("model", when + ": the model is wrong: " + b.error + " in " + vf::esc(want, 300)); return false; }
    if (a.error.size()) { C->fail("contents:" + a.error.substr(0, a.error.find(" at ")), when + ": " + a.error + " in " + vf::esc(data, 500)); return false; }
    for (size_t i = 0; i < std::max(a.ev.size(), b.ev.size()); i++)
    {
        string x = i < a.ev.size() ? a.ev[i] : "nothing", y = i < b.ev.size() ? b.ev[i] : "nothing";
        if (x != y) { C->fail(i >= a.ev.size() ? "lost" : i >= b.ev.size() ? "extra" : "painted", when + vf::fmt(": event %zu is\n  %s\nnot\n  %s\nin ", i, x.c_str(), y.c_str()) + vf::esc(data, 600)); return false; }
    }
    return true;
}
static Resolve fileRes(ref::File& f, const ref::Val* res)
{
    return [&f, res](const string& type, const string& n) -> string {
        auto d = res ? f.resolve(res) : nullptr; auto t = d ? f.resolve(d->get(type)) : nullptr; auto v = t ? t->get(n) : nullptr;
        if (!v) return "missing " + type + " " + n;
        if (type == "ColorSpace") { auto a = f.resolve(v); if (!a || a->k != ref::Arr || a->a.empty()) return "bad colour space"; if (a->a[0].s != "Separation") return a->a[0].s; if (a->a.size() != 4 || a->a[3].k != ref::Ref) return "bad separation"; string fn = f.decoded(f.objs[a->a[3].i]); return "Separation-" + a->a[1].s + "-" + a->a[2].s + "-" + vf::hexs(fn.substr(fn.size() / 2)); }
        if (v->k != ref::Ref || !f.resolve(v) || f.resolve(v)->k == ref::Null) return "dangling " + type + " " + n;
        return vf::fmt("%d", (int)v->i);
    };
}
static bool judge(Env& e, Model& m, const string& when)
{
    string out; StringStreamDevice dev(out); string what; int er = vf::errorOf([&] { e.k.d->Save(dev, PdfSaveOptions::NoCollectGarbage | PdfSaveOptions::NoModifyDateUpdate); }, &what); if (er != -1) { C->fail("save", when + ": " + what); return false; }
    auto f = ref::readFile(out); if (!f.problems.empty()) { C->fail("file", when + ": " + f.problems[0]); return false; }
    for (int t = 0; t < 3; t++)
    {
        auto& ob = f.objs[e.k.num[t]]; string data; ref::Val res;
        if (t == 2) { data = f.decoded(ob); if (auto r = ob.v.get("Resources")) res = *r; }
        else
        {
            auto c = f.resolve(ob.v.get("Contents")); res = ref::inherited(f, e.k.num[t], "Resources"); vector<string> parts;
            auto add = [&](const ref::Val* v) { if (v && v->k == ref::Ref && f.objs.count(v->i) && f.objs[v->i].stream) parts.push_back(f.decoded(f.objs[v->i])); };
            if (c && c->k == ref::Arr) { for (auto& x : c->a) add(&x); } else if (c && c->k == ref::Dict) add(ob.v.get("Contents"));
            data = nl(parts);
        }
        if (!compare(data, m.content[t], fileRes(f, &res), when + (t == 2 ? ", form" : vf::fmt(", page %d", t)))) return false;
        C->outcome(data);
    }
    return true;
}
struct Act { enum K { Begin, Do, End } k; int who = 0, target = 0; Op o = NOP; };   // Begin on an open painter changes the canvas
struct Hist { int shape; int flags[2]; vector<Act> acts; bool cold = true; };
static string text(const Hist& h) { string s = vf::fmt("%s, painter flags %d %d:", SHAPE[h.shape], h.flags[0], h.flags[1]); for (auto& a : h.acts) s += a.k == Act::Begin ? vf::fmt(" %d:%s;", a.who, a.target == 2 ? "form" : a.target ? "page 1" : "page 0") : a.k == Act::End ? vf::fmt(" %d:finish;", a.who) : vf::fmt(" %d:%s;", a.who, OPN[a.o]); return s; }
static void run(const Hist& h)
{
    Env e; Model m; string what, stage; Painter q[2]; bool placed[2] = { }; int ids[2] = { }, next = 0;
    int er = vf::errorOf([&] { bool fonts = false; for (auto& a : h.acts) if (a.k == Act::Do && (a.o == Text || a.o == TabText || a.o == AddT || a.o == InText || a.o == Multi)) fonts = true; open(e, h.shape, fonts); }, &what); if (er != -1) { C->fail("open", what); return; }
    for (int i = 0; i < 3; i++) m.content[i] = e.k.base[i];
    for (int i = 0; i < 2; i++) { q[i].flags = h.flags[i]; q[i].p.reset(new PdfPainter((PdfPainterFlags)h.flags[i])); }
    auto close = [&](Painter& p, int w) { while (p.depth) op(e, p, Pop); finish(p, m, ids[w], placed[w]); placed[w] = false; p.out.clear(); p.any = false; p.cmUsed = false; };
    er = vf::errorOf([&] {
        for (auto& a : h.acts)
        {
            C->transition(); auto& p = q[a.who];
            switch (a.k)
            {
                case Act::Begin: if (p.target == a.target) break; if (p.target >= 0) close(p, a.who); begin(e, p, m, a.target); break;
                case Act::Do: if (p.target < 0) break; p.any = false; { bool was = placed[a.who]; string before = p.out; op(e, p, a.o); if (p.any && !was) { ids[a.who] = next++; placed[a.who] = true; place(p, m, ids[a.who]); } } break;
                case Act::End: if (p.target < 0) break; close(p, a.who); p.p->FinishDrawing(); p.target = -1; C->state(vf::hash(m.content[0] + "\2" + m.content[1] + "\2" + m.content[2])); break;
            }
        }
        for (int i = 0; i < 2; i++) if (q[i].target >= 0) { close(q[i], i); q[i].p->FinishDrawing(); }
    }, &what);
    if (er != -1) { C->fail("raised", vf::fmt("error %d: ", er) + what); return; }
    judge(e, m, "in the saved file"); C->trace();
}
static void explore(vf::Ctx& c)
{
    C = &c; std::vector<Op> all; for (int i = 0; i < NOP; i++) all.push_back((Op)i);
    auto emit = [&](const char* tag, const Hist& h) { c.run(tag, [&] { return text(h); }, [&] { run(h); }); };
    // one session
    for (unsigned depth = 1; depth <= 3; depth++) for (int shape = 0; shape < NS; shape++) for (int t = 0; t < 3; t++)
    {
        if (depth == 3 && (t || (shape != 0 && !c.thorough))) continue; if (depth == 2 && !c.thorough && shape != 0 && shape != 5 && shape != 2) continue;
        vf::sequences((unsigned)all.size(), depth, [&](const vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            Hist h{ shape, { 0, 0 }, { { Act::Begin, 0, t } } }; h.acts.push_back({ Act::Do, 0, 0, FontA }); for (auto i : v) h.acts.push_back({ Act::Do, 0, 0, all[i] }); for (Op o : { Line, Text }) h.acts.push_back({ Act::Do, 0, 0, o }); h.acts.push_back({ Act::End });
            emit("session", h); });
    }
    // two sessions of one painter, with or without finishing the first
    vector<Op> mid = { W5, W1, Push, Pop, Red, FontA, FontB, Scale2, Scale1, Text, Sep, Gs };
    for (int shape : { 0, 1, 2, 5 }) for (int fl : { 0, 4, 6 }) for (auto [t1, t2] : { std::pair<int, int>{ 0, 0 }, { 0, 1 }, { 0, 2 }, { 2, 2 } }) for (bool fin : { true, false })
    {
        if (!fin && t1 == t2) continue; unsigned depth = c.thorough ? 3 : 2; if (!c.thorough && (shape != 0 && (fl || shape != 5))) depth = 1; if (!c.thorough && fl == 6) depth = 1;
        for (unsigned n1 = 1; n1 <= depth; n1++) vf::sequences((unsigned)mid.size(), n1 + 1, [&](const vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            Hist h{ shape, { fl, 0 }, { { Act::Begin, 0, t1 }, { Act::Do, 0, 0, FontA } } }; for (unsigned i = 0; i < n1; i++) h.acts.push_back({ Act::Do, 0, 0, mid[v[i]] }); h.acts.push_back({ Act::Do, 0, 0, Line }); h.acts.push_back({ Act::Do, 0, 0, Text });
            if (fin) h.acts.push_back({ Act::End }); h.acts.push_back({ Act::Begin, 0, t2 }); h.acts.push_back({ Act::Do, 0, 0, mid[v[n1]] }); h.acts.push_back({ Act::Do, 0, 0, Line }); h.acts.push_back({ Act::Do, 0, 0, Text }); h.acts.push_back({ Act::End });
            emit("reuse", h); });
    }
    // structure: sequences of sessions by painters of all flags on all targets, some without drawing
    for (unsigned depth = 1; depth <= (c.thorough ? 4u : 3u); depth++) for (int shape = 0; shape < NS; shape++)
    {
        if (depth == 3 && !c.thorough && shape != 2) continue; if (depth == 4 && shape != 2) continue;
        for (int f0 = 0; f0 < 8; f0++) for (int f1 = 0; f1 < 8; f1++) { if (f1 != 0 && f1 != 3 && f1 != 4 && (depth == 4 || (!c.thorough && depth == 3))) continue; vf::sequences(9, depth, [&](const vector<unsigned>& v) {
            bool one = false; for (auto i : v) if (i >= 3) one = true; if (!one && f1) return;
            if (!c.mine()) { c.skip(); return; }
            Hist h{ shape, { f0, f1 }, { } };
            for (auto i : v) { int w = i >= 3 && i < 6, t = i % 3; h.acts.push_back({ Act::Begin, w, t }); if (i < 6) { h.acts.push_back({ Act::Do, w, 0, w ? Line : W5 }); if (w) { h.acts.push_back({ Act::Do, w, 0, FontB }); h.acts.push_back({ Act::Do, w, 0, Text }); } } h.acts.push_back({ Act::End, w }); }
            emit("structure", h); }); }
    }
    // two painters at work at the same time
    for (int shape = 0; shape < NS; shape++) for (int f0 = 0; f0 < 8; f0++) for (int f1 = 0; f1 < 8; f1++) for (int t0 = 0; t0 < 2; t0++) for (int t1 = 0; t1 < 2; t1++) for (unsigned mask = 0; mask < 256; mask++)
    {
        if (__builtin_popcount(mask) != 4) continue; if (!c.thorough && (f0 & 4 || f1 & 4 || (shape != 0 && shape != 2 && shape != 3))) continue;
        if (!c.mine()) { c.skip(); continue; }
        static const Op steps[2][2] = { { W5, Line }, { FontA, Text } };
        Hist h{ shape, { f0, f1 }, { } }; int at[2] = { };
        for (int i = 0; i < 8; i++) { int w = mask >> i & 1, s = at[w]++; if (s == 0) h.acts.push_back({ Act::Begin, w, w ? t1 : t0 }); else if (s == 3) h.acts.push_back({ Act::End, w }); else h.acts.push_back({ Act::Do, w, 0, steps[w][s - 1] }); }
        emit("two painters", h);
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P28";
    cfg.rule = "all histories of painting sessions up to a depth over pages and forms of all start documents, painters of all flags, one after the other and interleaved; a state is the contents of all targets expected, a transition one call; the contents saved are interpreted independently and every painting event is compared with its state and resolved resources";
    cfg.assumptions = { "text state after a Restore that crosses its change is not judged until a font is set again", "SetCurrentMatrix is used once per saved state" };
    return vf::main(argc, argv, cfg, explore);
}
