// P20: malformed input is rejected or tolerated, never harmful. Built with address
// and undefined-behaviour sanitizers: every change of a family of seed files by
// one byte, one truncation, one value or one offset is loaded, visited and saved.
#include "sec.h"
#include <memory>
#include <pdfmm/base/PdfStreamDevice.h>
#include <pdfmm/base/PdfContentsReader.h>
#include <pdfmm/base/PdfImage.h>
#include <pdfmm/base/PdfParser.h>
using namespace mm; using namespace ref; using std::string; using std::vector;
static vf::Ctx* C;
static string gStep;

// --- visiting -------------------------------------------------------------
template <class F> static void step(const char* name, F f)
{
    gStep = name;
    try { f(); }
    catch (PdfError&) { C->count("library-error"); }
    catch (std::exception& e) { C->fail(string("foreign-exception:") + name, string("'") + e.what() + "' while " + name); }
}
static void visitAction(PdfAction& a) { step("action", [&] { (void)a.GetType(); if (a.HasURI()) a.GetURI(); if (a.HasScript()) a.GetScript(); }); }
static void visitDest(PdfDestination& d) { step("destination-type", [&] { d.GetType(); }); step("destination-page", [&] { d.GetPage(); }); step("destination-rect", [&] { d.GetRect(); }); step("destination-left", [&] { d.GetLeft(); }); step("destination-top", [&] { d.GetTop(); }); step("destination-zoom", [&] { d.GetZoom(); }); step("destination-value", [&] { d.GetDValue(); }); }
static void visitField(PdfField& f, int depth)
{
    step("field-name", [&] { f.GetName(); }); step("field-name", [&] { f.GetNameRaw(); }); step("field-full-name", [&] { f.GetFullName(true); }); step("field-alternate", [&] { f.GetAlternateName(); }); step("field-mapping", [&] { f.GetMappingName(); });
    step("field-flags", [&] { f.IsReadOnly(); f.IsRequired(); f.IsNoExport(); }); step("field-value", [&] { f.GetValueObject(); }); step("field-highlight", [&] { f.GetHighlightingMode(); }); step("field-parent", [&] { auto p = f.GetParentSafe(); for (int i = 0; i < 5 && p; i++) p = p->GetParentSafe(); });
    switch (f.GetType())
    {
        case PdfFieldType::TextBox: step("text", [&] { auto& t = static_cast<PdfTextBox&>(f); t.GetText(); t.GetMaxLen(); t.IsMultiLine(); }); break;
        case PdfFieldType::ComboBox: case PdfFieldType::ListBox: step("choice", [&] { auto& t = static_cast<PdChoiceField&>(f); unsigned n = t.GetItemCount(); for (unsigned i = 0; i < n && i < 10; i++) { step("choice-item", [&] { t.GetItem(i); }); step("choice-display", [&] { t.GetItemDisplayText(i); }); } }); step("choice-selected", [&] { static_cast<PdChoiceField&>(f).GetSelectedIndex(); }); break;
        case PdfFieldType::CheckBox: case PdfFieldType::RadioButton: step("toggle", [&] { f.GetType() == PdfFieldType::CheckBox ? (void)static_cast<PdfCheckBox&>(f).IsChecked() : (void)0; }); step("caption", [&] { static_cast<PdfButton&>(f).GetCaption(); }); break;
        case PdfFieldType::Signature: step("signature", [&] { auto& s = static_cast<PdfSignature&>(f); s.GetSignerName(); s.GetSignatureReason(); s.GetSignatureLocation(); }); step("signature-date", [&] { static_cast<PdfSignature&>(f).GetSignatureDate(); }); break;
        default: break;
    }
    if (depth < 6) step("field-children", [&] { auto& ch = f.GetChildren(); unsigned n = ch.GetCount(); for (unsigned i = 0; i < n && i < 6; i++) step("field-child", [&] { visitField(ch.GetFieldAt(i), depth + 1); }); });
}
static void visitFont(PdfFont& f)
{
    PdfTextState st; st.FontSize = 10;
    step("font-metrics", [&] { auto& m = f.GetMetrics(); m.GetGlyphCount(); m.GetAscent(); m.GetDescent(); m.GetFontName(); vector<double> bb; m.GetBoundingBox(bb); double w; m.TryGetGlyphWidth(3, w); });
    string codes; for (int i = 0; i < 256; i++) codes += (char)i;
    step("font-length", [&] { double w; f.TryGetStringLength(PdfString::FromRaw(codes), st, w); });
    step("font-decode", [&] { string s; f.GetEncoding().TryConvertToUtf8(PdfString::FromRaw(codes), s); });
    step("font-cids", [&] { vector<PdfCID> v; f.GetEncoding().TryConvertToCIDs(PdfString::FromRaw(codes), v); });
    step("font-encode", [&] { charbuff b; f.GetEncoding().TryConvertToEncoded("Aé", b); });
    step("font-codepoint", [&] { for (unsigned i = 0; i < 300; i += 7) f.GetEncoding().GetCodePoint(i); });
    step("font-scan", [&] { string s; vector<double> l; vector<unsigned> p; f.TryScanString(PdfString::FromRaw(string("A B\0\x01", 5)), st, s, l, p); });
    step("font-split", [&] { f.SplitByWhiteSpaces(PdfString::FromRaw("A B")); });
    step("font-lines", [&] { f.GetLineSpacing(st); f.GetUnderlineThickness(st); f.GetAscent(st); f.GetDefaultCharLength(st); double w; f.TryGetCharLength(U'A', st, w); });
}
static void visitXObject(PdfObject& o)
{
    std::unique_ptr<PdfXObject> x;
    step("xobject", [&] { PdfXObject::TryCreateFromObject(o, x); });
    if (!x) return;
    step("xobject-rect", [&] { x->GetRect(); }); step("xobject-matrix", [&] { x->GetMatrix(); });
    if (x->GetType() == PdfXObjectType::Image)
    {
        auto& im = static_cast<PdfImage&>(*x);
        step("image-size", [&] { im.GetWidth(); im.GetHeight(); }); step("image-colorspace", [&] { im.GetColorSpace(); });
        step("image-decode", [&] { unsigned w = im.GetWidth(), h = im.GetHeight(); if ((uint64_t)w * h < 1000000) im.GetDecodedCopy(PdfPixelFormat::RGB24); });
        step("image-decode", [&] { unsigned w = im.GetWidth(), h = im.GetHeight(); if ((uint64_t)w * h < 1000000) im.GetDecodedCopy(PdfPixelFormat::BGRA); });
    }
}
static void visitPage(PdfPage& p, PdfMemDocument& d)
{
    step("mediabox", [&] { p.GetMediaBox(); }); step("cropbox", [&] { p.GetCropBox(); }); step("boxes", [&] { p.GetTrimBox(); }); step("boxes", [&] { p.GetBleedBox(); }); step("boxes", [&] { p.GetArtBox(); });
    step("rotation", [&] { p.GetRotationRaw(); }); step("rotation", [&] { double t; p.HasRotation(t); }); step("rect", [&] { p.GetRect(); }); step("number", [&] { p.GetPageNumber(); });
    step("contents-copy", [&] { if (p.GetContents()) p.GetContents()->GetCopy(); });
    step("contents", [&] { PdfContentsReader r(p); PdfContent c; int n = 0; while (r.TryReadNext(c)) if (++n > 20000) { C->count("long-contents"); break; } });
    step("text", [&] { vector<PdfTextEntry> e; p.ExtractTextTo(e); });
    step("resources", [&] {
        auto res = p.GetResources(); if (!res) return;
        auto& rd = res->GetDictionary();
        for (auto type : { "Font", "XObject", "ColorSpace", "ExtGState" })
            step("resource-type", [&] { auto o = rd.FindKey(type); if (!o || !o->IsDictionary()) return; vector<string> names; for (auto& k : o->GetDictionary()) names.push_back(string(k.first.GetString())); for (auto& n : names) step("resource", [&] { auto r = res->GetResource(type, n); if (!r) return; if (type[0] == 'F') { auto f = d.GetFonts().GetLoadedFont(*r); if (f) visitFont(*f); } else if (type[0] == 'X') visitXObject(*r); }); });
    });
    step("annotations", [&] {
        auto& an = p.GetAnnotations(); unsigned n = an.GetCount();
        for (unsigned i = 0; i < n && i < 20; i++) step("annotation", [&] {
            auto& a = an.GetAnnotAt(i);
            step("annotation-rect", [&] { a.GetRect(); }); step("annotation-flags", [&] { a.GetFlags(); }); step("annotation-title", [&] { a.GetTitle(); }); step("annotation-contents", [&] { a.GetContents(); }); step("annotation-color", [&] { a.GetColor(); }); step("annotation-border", [&] { a.GetAppearanceDictionaryObject(); });
            step("annotation-appearance", [&] { vector<PdfAppearanceIdentity> s; a.GetAppearanceStreams(s); }); step("annotation-appearance", [&] { a.GetAppearanceStream(PdfAppearanceType::Normal, "On"); });
            if (auto l = dynamic_cast<PdfAnnotationLink*>(&a)) { step("link-destination", [&] { auto x = l->GetDestination(); if (x) visitDest(*x); }); step("link-quad", [&] { l->GetQuadPoints(); }); }
            if (auto l = dynamic_cast<PdfAnnotationActionBase*>(&a)) step("annotation-action", [&] { auto x = l->GetAction(); if (x) visitAction(*x); });
            if (auto l = dynamic_cast<PdfAnnotationFileAttachement*>(&a)) step("annotation-file", [&] { auto x = l->GetFileAttachement(); if (x) x->GetFilename(true); });
            if (auto w = dynamic_cast<PdfAnnotationWidget*>(&a)) step("widget-field", [&] { visitField(w->GetField(), 0); });
        });
    });
}
static void visitOutline(PdfOutlineItem& p, int& n, int depth)
{
    for (auto c = p.First(); c; c = c->Next())
    {
        if (++n > 30000) { C->fail("endless-outline", "more outline items than the file has objects"); return; }
        step("outline", [&] { c->GetTitle(); }); step("outline", [&] { c->GetTextFormat(); }); step("outline", [&] { c->GetTextColorRed(); });
        step("outline-destination", [&] { auto d = c->GetDestination(); if (d) visitDest(*d); }); step("outline-action", [&] { auto a = c->GetAction(); if (a) visitAction(*a); });
        if (depth < 100) visitOutline(*c, n, depth + 1);
    }
}
static void visit(PdfMemDocument& d)
{
    step("objects", [&] { vector<PdfObject*> objs; for (auto o : d.GetObjects()) objs.push_back(o); for (auto o : objs) { step("object", [&] { o->GetDataType(); string s = o->ToString(); }); step("stream", [&] { if (o->HasStream()) o->MustGetStream().GetCopy(); }); step("stream-safe", [&] { if (o->HasStream()) o->MustGetStream().GetCopySafe(); }); } });
    step("version", [&] { d.GetMetadata().GetPdfVersion(); d.IsPrintAllowed(); });
    step("extensions", [&] { d.GetPdfExtensions(); });
    step("metadata", [&] { auto& m = d.GetMetadata(); m.GetTitle(); m.GetAuthor(); m.GetKeywords(); m.GetTrapped(); m.GetCreationDate(); m.GetPdfALevel(); });
    step("catalog", [&] { d.GetCatalog().GetMetadataStreamValue(); }); step("catalog", [&] { d.GetCatalog().GetPageMode(); });
    step("pages", [&] { unsigned n = d.GetPages().GetCount(); for (unsigned i = 0; i < n && i < 4; i++) step("page", [&] { visitPage(d.GetPages().GetPageAt(i), d); }); });
    step("page-by-reference", [&] { d.GetPages().GetPage(PdfReference(3, 0)); });
    step("outlines", [&] { auto o = d.GetOutlines(); int n = 0; if (o) visitOutline(*o, n, 0); });
    step("names", [&] { auto t = d.GetNames(); if (!t) return; for (auto k : { "Dests", "EmbeddedFiles", "JavaScript" }) { step("names-value", [&] { t->GetValue(k, PdfString("b")); }); step("names-has", [&] { t->HasValue(k, PdfString("zz")); }); step("names-dictionary", [&] { PdfDictionary x; t->ToDictionary(k, x); }); } });
    step("attachment", [&] { d.GetAttachment(PdfString("b")); });
    step("form", [&] { auto f = d.GetAcroForm(); if (!f) return; unsigned n = f->GetFieldCount(); for (unsigned i = 0; i < n && i < 10; i++) step("form-field", [&] { visitField(f->GetFieldAt(i), 0); }); step("form-appearances", [&] { f->GetNeedAppearances(); }); });
}
// Load, visit, change, collect garbage, save
static void exercise(const string& file, bool saveToo = true)
{
    C->trace();
    PdfMemDocument d; bool loaded = false;
    step("load", [&] { d.LoadFromBuffer(file, "u"); loaded = true; });
    if (!loaded) { C->outcome("rejected"); return; }
    C->count("loaded"); C->transition();
    visit(d);
    if (!saveToo) return;
    step("add-name", [&] { d.GetOrCreateNameTree().AddValue("Dests", PdfString("m"), PdfObject(PdfArray())); });
    step("add-page", [&] { d.GetPages().CreatePageAt(0, PdfRect(0, 0, 1, 1)); });
    step("paint", [&] { if (d.GetPages().GetCount() > 1) { PdfPainter p; p.SetCanvas(d.GetPages().GetPageAt(1)); p.Save(); p.Restore(); p.FinishDrawing(); } });
    step("set-title", [&] { d.GetMetadata().SetTitle(PdfString("t")); });
    step("insert-pages", [&] { PdfMemDocument e; e.GetPages().InsertDocumentPageAt(0, d, 0); });
    step("remove-page", [&] { if (d.GetPages().GetCount() > 1) d.GetPages().RemovePageAt(1); });
    step("garbage", [&] { d.CollectGarbage(); });
    step("save", [&] { charbuff b; StringStreamDevice o(b); d.Save(o, PdfSaveOptions::NoCollectGarbage); C->outcome("saved"); });
}

// --- seeds ------------------------------------------------------------------
struct O { Val v; bool stream = false; string data; };
typedef std::map<int64_t, O> Objs;
static Val nums(vector<int> v) { Val a = Val::A(); for (int x : v) a.a.push_back(Val::I(x)); return a; }
static Val rf(int n) { return Val::Rf(n); }
static Objs base()
{
    Objs o;
    o[1] = { Val::D({ { "Type", Val::N("Catalog") }, { "Pages", rf(2) } }) };
    o[2] = { Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A({ rf(3) }) }, { "Count", Val::I(1) } }) };
    o[3] = { Val::D({ { "Type", Val::N("Page") }, { "Parent", rf(2) } }) };
    return o;
}
static const int NSEED = 7;
static const char* SEEDNAME[] = { "pages and contents", "outlines, names and destinations", "form and annotations", "fonts and maps", "images and filters", "information and extensions", "encryption" };
static Objs seed(int k, Val& trailer)
{
    Objs o = base(); trailer = Val::D({ { "Root", rf(1) } });
    switch (k)
    {
        case 0:
            o[2].v = Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A({ rf(4), rf(5) }) }, { "Count", Val::I(2) }, { "MediaBox", nums({ 0, 0, 9, 9 }) } });
            o[4] = { Val::D({ { "Type", Val::N("Pages") }, { "Parent", rf(2) }, { "Kids", Val::A({ rf(3) }) }, { "Count", Val::I(1) }, { "Rotate", Val::I(90) }, { "Resources", rf(9) } }) };
            o[3].v = Val::D({ { "Type", Val::N("Page") }, { "Parent", rf(4) }, { "Contents", Val::A({ rf(6), rf(7) }) }, { "CropBox", rf(10) } });
            o[5] = { Val::D({ { "Type", Val::N("Page") }, { "Parent", rf(2) }, { "Contents", rf(7) }, { "Resources", Val::D({ { "XObject", Val::D({ { "X", rf(8) } }) } }) } }) };
            o[6] = { Val::D({ { "Length", rf(11) } }), true, "q BI/W 1 ID x\nEI [1(a)<</A[/b]>>]TJ /P<</A 1>>BDC {x}" };
            o[7] = { Val::D(), true, "Q/X Do 1 0 0 rg BT/F 1 Tf(a)'<41>Tj ET" };
            o[8] = { Val::D({ { "Type", Val::N("XObject") }, { "Subtype", Val::N("Form") }, { "BBox", nums({ 0, 0, 1, 1 }) }, { "Matrix", nums({ 1, 0, 0, 1, 0, 0 }) }, { "Resources", rf(9) } }), true, "/X Do q" };
            o[9] = { Val::D({ { "XObject", Val::D({ { "X", rf(8) } }) }, { "Font", Val::D({ { "F", Val::D({ { "Type", Val::N("Font") }, { "Subtype", Val::N("Type1") }, { "BaseFont", Val::N("Helvetica") } }) } }) } }) };
            o[10] = { nums({ 0, 0, 5, 5 }) }; o[11] = { Val::I((int64_t)o[6].data.size()) };
            break;
        case 1:
            o[1].v.m["Outlines"] = rf(4); o[1].v.m["Names"] = rf(8); o[1].v.m["PageMode"] = Val::N("UseOutlines"); o[1].v.m["Dests"] = Val::D({ { "n", Val::A({ rf(3), Val::N("Fit") }) } });
            o[4] = { Val::D({ { "Type", Val::N("Outlines") }, { "First", rf(5) }, { "Last", rf(6) }, { "Count", Val::I(2) } }) };
            o[5] = { Val::D({ { "Title", Val::S("a") }, { "Parent", rf(4) }, { "Next", rf(6) }, { "First", rf(7) }, { "Last", rf(7) }, { "Dest", Val::A({ rf(3), Val::N("XYZ"), Val::I(1), Val(), Val::R(.5) }) }, { "C", nums({ 1, 0, 0 }) }, { "F", Val::I(1) } }) };
            o[6] = { Val::D({ { "Title", Val::S("b") }, { "Parent", rf(4) }, { "Prev", rf(5) }, { "A", Val::D({ { "S", Val::N("URI") }, { "URI", Val::S("u") } }) } }) };
            o[7] = { Val::D({ { "Title", Val::S("c") }, { "Parent", rf(5) }, { "Dest", Val::S("b") } }) };
            o[8] = { Val::D({ { "Dests", rf(9) }, { "EmbeddedFiles", Val::D({ { "Names", Val::A({ Val::S("b"), Val::D({ { "F", Val::S("f") }, { "EF", Val::D({ { "F", rf(13) } }) } }) }) } }) } }) };
            o[9] = { Val::D({ { "Kids", Val::A({ rf(10), rf(11) }) } }) };
            o[10] = { Val::D({ { "Limits", Val::A({ Val::S("a"), Val::S("b") }) }, { "Names", Val::A({ Val::S("a"), rf(12), Val::S("b"), Val::D({ { "D", rf(12) } }) }) } }) };
            o[11] = { Val::D({ { "Limits", Val::A({ Val::S("m"), Val::S("zz") }) }, { "Kids", Val::A({ Val::D({ { "Limits", Val::A({ Val::S("m"), Val::S("zz") }) }, { "Names", Val::A({ Val::S("m"), rf(12), Val::S("zz"), Val::I(1) }) } }) }) } }) };
            o[12] = { Val::A({ rf(3), Val::N("FitR"), Val::I(0), Val::I(0), Val::I(1), Val::I(1) }) }; o[13] = { Val::D(), true, "data" };
            break;
        case 2:
            o[1].v.m["AcroForm"] = rf(4); o[3].v.m["Annots"] = rf(5);
            o[4] = { Val::D({ { "Fields", Val::A({ rf(6), rf(8), rf(9) }) }, { "NeedAppearances", Val::B(true) }, { "DA", Val::S("/F 1 Tf") }, { "DR", Val::D() } }) };
            o[5] = { Val::A({ rf(7), rf(8), rf(10), rf(11), rf(12) }) };
            o[6] = { Val::D({ { "FT", Val::N("Tx") }, { "T", Val::S("p") }, { "Kids", Val::A({ rf(7) }) }, { "Ff", Val::I(1) }, { "V", Val::S("v") }, { "MaxLen", Val::I(3) } }) };
            o[7] = { Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N("Widget") }, { "Parent", rf(6) }, { "T", Val::S("k") }, { "TU", Val::S("tu") }, { "Rect", nums({ 0, 0, 1, 1 }) }, { "MK", Val::D({ { "CA", Val::S("c") } }) }, { "H", Val::N("I") }, { "P", rf(3) } }) };
            o[8] = { Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N("Widget") }, { "FT", Val::N("Ch") }, { "Ff", Val::I(1 << 17) }, { "T", Val::S("ch") }, { "Opt", Val::A({ Val::S("x"), Val::A({ Val::S("y"), Val::S("Y") }) }) }, { "V", Val::S("y") }, { "Rect", nums({ 0, 0, 1, 1 }) }, { "AP", Val::D({ { "N", Val::D({ { "On", rf(13) }, { "Off", rf(13) } }) }, { "D", rf(13) } }) }, { "AS", Val::N("On") } }) };
            o[9] = { Val::D({ { "FT", Val::N("Sig") }, { "T", Val::S("s") }, { "V", Val::D({ { "Type", Val::N("Sig") }, { "Name", Val::S("n") }, { "M", Val::S("D:20200101") }, { "ByteRange", nums({ 0, 1, 2, 3 }) }, { "Contents", Val::S("\1\2", true) } }) } }) };
            o[10] = { Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N("Link") }, { "Rect", nums({ 0, 0, 1, 1 }) }, { "Dest", Val::A({ rf(3), Val::N("Fit") }) }, { "QuadPoints", nums({ 0, 0, 1, 1, 1, 1, 0, 0 }) }, { "A", Val::D({ { "S", Val::N("JavaScript") }, { "JS", Val::S("j") } }) }, { "C", nums({ 1, 0, 0 }) }, { "F", Val::I(4) } }) };
            o[11] = { Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N("FileAttachment") }, { "Rect", nums({ 0, 0, 1, 1 }) }, { "FS", Val::D({ { "UF", Val::S("u") }, { "F", Val::S("f") } }) }, { "Contents", Val::S("c") }, { "Border", nums({ 0, 0, 1 }) } }) };
            o[12] = { Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N("Widget") }, { "FT", Val::N("Btn") }, { "T", Val::S("bt") }, { "Rect", nums({ 0, 0, 1, 1 }) }, { "AS", Val::N("Yes") }, { "Ff", Val::I(0) } }) };
            o[13] = { Val::D({ { "Type", Val::N("XObject") }, { "Subtype", Val::N("Form") }, { "BBox", nums({ 0, 0, 1, 1 }) } }), true, "q Q" };
            break;
        case 3:
            o[3].v.m["Contents"] = rf(4); o[3].v.m["Resources"] = Val::D({ { "Font", Val::D({ { "A", rf(5) }, { "B", rf(8) }, { "C", rf(14) }, { "D", rf(16) } }) } }); o[3].v.m["MediaBox"] = nums({ 0, 0, 9, 9 });
            o[4] = { Val::D(), true, "BT /A 1 Tf 1 0 0 1 0 0 Tm (Ab)Tj /B 2 Tf 3 Tc 1 Tw 0 5 Td <00010102>Tj T* /C 1 Tf [(a)-9(b)]TJ /D 1 Tf (ab) ' ET" };
            o[5] = { Val::D({ { "Type", Val::N("Font") }, { "Subtype", Val::N("TrueType") }, { "BaseFont", Val::N("ABCDEF+Foo") }, { "FirstChar", Val::I(65) }, { "LastChar", Val::I(67) }, { "Widths", nums({ 500, 600, 700 }) }, { "Encoding", Val::D({ { "BaseEncoding", Val::N("WinAnsiEncoding") }, { "Differences", Val::A({ Val::I(65), Val::N("B"), Val::N("uni0041"), Val::I(98), Val::N("f_i") }) } }) }, { "FontDescriptor", rf(6) }, { "ToUnicode", rf(7) } }) };
            o[6] = { Val::D({ { "Type", Val::N("FontDescriptor") }, { "FontName", Val::N("ABCDEF+Foo") }, { "Flags", Val::I(32) }, { "FontBBox", nums({ 0, 0, 1000, 1000 }) }, { "ItalicAngle", Val::I(0) }, { "Ascent", Val::I(800) }, { "Descent", Val::I(-200) }, { "StemV", Val::I(80) }, { "CapHeight", Val::I(700) }, { "MissingWidth", Val::I(300) }, { "FontFamily", Val::S("Foo") }, { "FontWeight", Val::I(400) }, { "FontStretch", Val::N("Normal") } }) };
            o[7] = { Val::D(), true, "/CMapName/X def 1 begincodespacerange<00><ff>endcodespacerange 1 beginbfchar<41><00410042>endbfchar 2 beginbfrange<42><44><0043><45><46>[<0047><D83DDE00>]endbfrange" };
            o[8] = { Val::D({ { "Type", Val::N("Font") }, { "Subtype", Val::N("Type0") }, { "BaseFont", Val::N("Bar") }, { "Encoding", rf(9) }, { "DescendantFonts", Val::A({ rf(10) }) }, { "ToUnicode", rf(11) } }) };
            o[9] = { Val::D({ { "Type", Val::N("CMap") }, { "CMapName", Val::N("M") }, { "WMode", Val::I(0) } }), true, "2 begincodespacerange<00><80><8140><9ffc>endcodespacerange 1 begincidrange<20><7e>1 endcidrange 1 begincidchar<8140>633 endcidchar" };
            o[10] = { Val::D({ { "Type", Val::N("Font") }, { "Subtype", Val::N("CIDFontType2") }, { "BaseFont", Val::N("Bar") }, { "CIDSystemInfo", Val::D({ { "Registry", Val::S("Adobe") }, { "Ordering", Val::S("Identity") }, { "Supplement", Val::I(0) } }) }, { "FontDescriptor", rf(6) }, { "DW", Val::I(900) }, { "W", Val::A({ Val::I(1), nums({ 5, 6 }), Val::I(10), Val::I(12), Val::I(7) }) }, { "CIDToGIDMap", rf(12) } }) };
            o[11] = { Val::D(), true, "1 beginbfrange<0000><00ff><0000>endbfrange" }; o[12] = { Val::D(), true, string("\0\0\0\1\0\2", 6) };
            o[14] = { Val::D({ { "Type", Val::N("Font") }, { "Subtype", Val::N("Type3") }, { "FontBBox", nums({ 0, 0, 1, 1 }) }, { "FontMatrix", Val::A({ Val::R(.001), Val::I(0), Val::I(0), Val::R(.001), Val::I(0), Val::I(0) }) }, { "CharProcs", Val::D({ { "a", rf(15) } }) }, { "Encoding", Val::D({ { "Differences", Val::A({ Val::I(97), Val::N("a"), Val::N("b") }) } }) }, { "FirstChar", Val::I(97) }, { "LastChar", Val::I(98) }, { "Widths", nums({ 3, 4 }) } }) };
            o[15] = { Val::D(), true, "1 0 d0" };
            o[16] = { Val::D({ { "Type", Val::N("Font") }, { "Subtype", Val::N("Type1") }, { "BaseFont", Val::N("Helvetica") }, { "Encoding", Val::N("MacRomanEncoding") } }) };
            break;
        case 4:
        {
            Val x = Val::D(); auto im = [&](int n, Val d, const string& data) { d.m["Type"] = Val::N("XObject"); d.m["Subtype"] = Val::N("Image"); o[n] = { d, true, data }; x.m["I" + std::to_string(n)] = rf(n); };
            im(4, Val::D({ { "Width", Val::I(3) }, { "Height", Val::I(2) }, { "BitsPerComponent", Val::I(8) }, { "ColorSpace", Val::N("DeviceRGB") } }), string(18, 'x'));
            im(5, Val::D({ { "Width", Val::I(3) }, { "Height", Val::I(2) }, { "BitsPerComponent", Val::I(8) }, { "ColorSpace", Val::N("DeviceGray") }, { "Filter", Val::N("FlateDecode") }, { "DecodeParms", Val::D({ { "Predictor", Val::I(15) }, { "Columns", Val::I(3) }, { "Colors", Val::I(1) }, { "BitsPerComponent", Val::I(8) } }) }, { "SMask", rf(6) } }), deflate(string("\0abc\2abc", 8)));
            im(6, Val::D({ { "Width", Val::I(3) }, { "Height", Val::I(2) }, { "BitsPerComponent", Val::I(8) }, { "ColorSpace", Val::N("DeviceGray") }, { "Filter", Val::A({ Val::N("ASCIIHexDecode"), Val::N("LZWDecode") }) }, { "DecodeParms", Val::A({ Val(), Val::D({ { "EarlyChange", Val::I(1) }, { "Predictor", Val::I(2) }, { "Columns", Val::I(3) } }) }) } }), "800B6050220C0C8501>");
            im(7, Val::D({ { "Width", Val::I(2) }, { "Height", Val::I(2) }, { "BitsPerComponent", Val::I(1) }, { "ImageMask", Val::B(true) }, { "Filter", Val::A({ Val::N("ASCII85Decode"), Val::N("RunLengthDecode") }) }, { "DecodeParms", Val::D() } }), "!<E3%!<N?'~>");
            im(8, Val::D({ { "Width", Val::I(2) }, { "Height", Val::I(2) }, { "BitsPerComponent", Val::I(8) }, { "ColorSpace", Val::A({ Val::N("Indexed"), Val::N("DeviceRGB"), Val::I(1), Val::S("abcdef") }) } }), string("\0\1\1\0", 4));
            im(9, Val::D({ { "Width", Val::I(1) }, { "Height", Val::I(1) }, { "BitsPerComponent", Val::I(8) }, { "ColorSpace", Val::A({ Val::N("ICCBased"), rf(10) }) }, { "Filter", Val::N("CCITTFaxDecode") }, { "DecodeParms", Val::D({ { "K", Val::I(-1) }, { "Columns", Val::I(1) } }) } }), string("\x00\x10", 2));
            o[10] = { Val::D({ { "N", Val::I(3) }, { "Alternate", Val::N("DeviceRGB") }, { "Filter", Val::A({ Val::N("FlateDecode"), Val::N("ASCIIHexDecode") }) } }), true, deflate("4142>") };
            o[3].v.m["Resources"] = Val::D({ { "XObject", x } });
            break;
        }
        case 5:
            trailer.m["Info"] = rf(4); trailer.m["ID"] = Val::A({ Val::S("0123456789abcdef"), Val::S("0123456789abcdef") });
            o[4] = { Val::D({ { "Title", Val::S("t") }, { "Author", Val::S("\xfe\xff\0a") }, { "Keywords", Val::S("a b,c") }, { "CreationDate", Val::S("D:20200102030405+01'00'") }, { "ModDate", Val::S("D:2020") }, { "Trapped", Val::N("True") }, { "Producer", Val::S("p") } }) };
            o[1].v.m["Metadata"] = rf(5); o[1].v.m["Version"] = Val::N("1.7"); o[1].v.m["Extensions"] = Val::D({ { "ADBE", Val::D({ { "BaseVersion", Val::N("1.7") }, { "ExtensionLevel", Val::I(3) } }) }, { "X", Val::A({ Val::D({ { "BaseVersion", Val::N("1.7") }, { "ExtensionLevel", Val::I(3) } }) }) } }); o[1].v.m["MarkInfo"] = Val::D({ { "Marked", Val::B(true) } });
            o[5] = { Val::D({ { "Type", Val::N("Metadata") }, { "Subtype", Val::N("XML") } }), true, "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"><rdf:Description rdf:about=\"\" xmlns:pdfaid=\"http://www.aiim.org/pdfa/ns/id/\" pdfaid:part=\"1\" xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\"><pdfaid:conformance>B</pdfaid:conformance><xmp:CreateDate>2020-01-02T03:04:05+01:00</xmp:CreateDate><dc:title><rdf:Alt><rdf:li xml:lang=\"x-default\">t</rdf:li></rdf:Alt></dc:title></rdf:Description></rdf:RDF></x:xmpmeta>" };
            o[6] = { Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(1) }, { "First", Val::I(4) } }), true, "20 0 (in stream)" };
            break;
        case 6:
            trailer.m["ID"] = Val::A({ Val::S("0123456789abcdef"), Val::S("0123456789abcdef") }); trailer.m["Encrypt"] = rf(4);
            o[3].v.m["Contents"] = rf(5);
            o[4] = { Val::D({ { "Filter", Val::N("Standard") }, { "V", Val::I(4) }, { "R", Val::I(4) }, { "Length", Val::I(128) }, { "P", Val::I(-4) }, { "O", Val::S(string(32, 'o')) }, { "U", Val::S(string(32, 'u')) }, { "CF", Val::D({ { "StdCF", Val::D({ { "CFM", Val::N("AESV2") }, { "AuthEvent", Val::N("DocOpen") }, { "Length", Val::I(16) } }) } }) }, { "StmF", Val::N("StdCF") }, { "StrF", Val::N("StdCF") }, { "EncryptMetadata", Val::B(true) } }) };
            o[5] = { Val::D(), true, string(48, 'e') }; o[6] = { Val::A({ Val::S(string(32, 's')), Val::S("x"), Val::S("") }) }; o[1].v.m["X"] = rf(6);
            break;
    }
    return o;
}
// layout 0: cross-reference table; 1: cross-reference stream with object streams for what is not a stream
static string build(const Objs& objs, Val trailer, int layout, int64_t encryptObj = 0)
{
    Builder b(layout ? "%PDF-1.5\n" : "%PDF-1.4\n"); std::map<int64_t, XEnt> ents; string body, head; int idx = 0;
    for (auto& p : objs)
    {
        if (p.second.stream) { bool hasLen = p.second.v.k == Dict && p.second.v.m.count("Length"); if (p.second.v.k == Dict) b.stream(p.first, p.second.v, p.second.data, 0, !hasLen); else b.rawObj(p.first, write(p.second.v) + "\nstream\n" + p.second.data + "\nendstream"); }
        else if (!layout || p.first == encryptObj) b.obj(p.first, p.second.v);
        else { head += vf::fmt("%lld %zu ", (long long)p.first, body.size()); body += write(p.second.v) + " "; ents[p.first] = { 'c', 40, idx++ }; }
    }
    if (!layout) { size_t x = b.xrefTableAuto(trailer); b.startxref(x); return b.out; }
    b.stream(40, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(idx) }, { "First", Val::I((int64_t)head.size()) } }), head + body);
    for (auto& o : b.offs) ents[o.first] = { 'n', o.second.first, 0 };
    ents[0] = { 'f', 0, 65535 };
    size_t x = b.xrefStream(41, trailer, ents); b.startxref(x); return b.out;
}
// replace the node number n of v (in a fixed order); false if there are less
static bool replaceNode(Val& v, int& n, const Val* by)
{
    if (n-- == 0) { if (by) v = *by; return true; }
    if (v.k == Arr) { for (size_t i = 0; i < v.a.size(); i++) { if (n == 0 && !by) { v.a.erase(v.a.begin() + i); return true; } if (replaceNode(v.a[i], n, by)) return true; } }
    else if (v.k == Dict) for (auto it = v.m.begin(); it != v.m.end(); ++it) { if (n == 0 && !by) { v.m.erase(it); return true; } if (replaceNode(it->second, n, by)) return true; }
    return false;
}
static int countNodes(const Val& v) { int n = 1; for (auto& x : v.a) n += countNodes(x); for (auto& x : v.m) n += countNodes(x.second); return n; }
static void values(vf::Ctx& c)
{
    for (int k = 0; k < NSEED; k++) for (int layout = 0; layout < 2; layout++)
    {
        Val trailer; Objs o = seed(k, trailer); int64_t enc = k == 6 ? 4 : 0;
        c.run("seed", [&] { return vf::fmt("seed %s, layout %d", SEEDNAME[k], layout); }, [&] { PdfMemDocument d; string f = build(o, trailer, layout, enc); int e = vf::errorOf([&] { d.LoadFromBuffer(f, "u"); }); if (e != -1 && k != 6) C->fail("seed", vf::fmt("the seed does not load: %d", e)); exercise(f); });
        vector<Val> alt = { Val(), Val::B(true), Val::I(-1), Val::I(0), Val::I(2), Val::I(2147483647), Val::I(-2147483648ll), Val::I(9223372036854775807ll), Val::R(-1.5), Val::R(1e30), Val::N("X"), Val::N(""), Val::S(""), Val::S("D:"), Val::S(string(300, 's')), Val::A(), Val::A({ Val::A({ Val::I(1) }), Val() }), Val::D(), Val::D({ { "Type", Val::N("Page") }, { "Kids", Val::A({ rf(2) }) } }), rf(999), rf(0), Val::I(1), Val::I(65536), Val::I(4294967295ll) };
        for (auto& p : o) alt.push_back(rf(p.first));
        // every value of every object and of the trailer by every alternative, or removed
        vector<int64_t> keys; for (auto& p : o) keys.push_back(p.first); keys.push_back(-1);
        for (auto key : keys)
        {
            int nodes = countNodes(key < 0 ? trailer : o[key].v);
            for (int n = 0; n < nodes; n++) for (size_t a = 0; a <= alt.size(); a++)
            {
                if (layout && !c.thorough && a < alt.size() && alt[a].k != Ref && a % 3) continue;
                if (!c.mine()) { c.skip(); continue; }
                c.run("value", [&] { return vf::fmt("%s, layout %d, object %lld, value %d replaced by ", SEEDNAME[k], layout, (long long)key, n) + (a < alt.size() ? write(alt[a]).substr(0, 60) : "nothing"); }, [&] {
                    Objs m = o; Val t = trailer; int i = n; replaceNode(key < 0 ? t : m[key].v, i, a < alt.size() ? &alt[a] : nullptr);
                    if (n == 0 && a == alt.size() && key >= 0) m.erase(key);
                    C->state(vf::fmt("%d %d %lld %d %zu", k, layout, (long long)key, n, a));
                    exercise(build(m, t, layout, enc));
                });
            }
        }
        // two references changed at once
        if (c.thorough && !layout)
        {
            vector<std::pair<int64_t, int>> refs; for (auto key : keys) if (key >= 0) for (int n = 0; n < countNodes(o[key].v); n++) { Val probe = o[key].v; int i = n; Val mark = Val::S("\1mark"); Val q = o[key].v; std::function<const Val*(const Val&, int&)> at = [&](const Val& v, int& j) -> const Val* { if (j-- == 0) return &v; for (auto& x : v.a) if (auto r = at(x, j)) return r; for (auto& x : v.m) if (auto r = at(x.second, j)) return r; return nullptr; }; auto r = at(q, i); if (r && r->k == Ref) refs.push_back({ key, n }); }
            for (size_t x = 0; x < refs.size(); x++) for (size_t y = x + 1; y < refs.size(); y++) for (auto& tx : o) for (auto& ty : o)
            {
                if (!c.mine()) { c.skip(); continue; }
                c.run("two-references", [&] { return vf::fmt("%s, references %lld/%d to %lld and %lld/%d to %lld", SEEDNAME[k], (long long)refs[x].first, refs[x].second, (long long)tx.first, (long long)refs[y].first, refs[y].second, (long long)ty.first); }, [&] {
                    Objs m = o; Val a = rf(tx.first), b = rf(ty.first); int i = refs[x].second; replaceNode(m[refs[x].first].v, i, &a); i = refs[y].second; replaceNode(m[refs[y].first].v, i, &b); exercise(build(m, trailer, 0, enc), false);
                });
            }
        }
    }
}
// files as bytes: truncations, substitutions, deletions and insertions at every position
static void bytes(vf::Ctx& c)
{
    string alpha("\0 %()<>[]/{}0-9.Rx\n\xff", 20); string quick("(<>/0 9\xff", 8);
    for (int k = 0; k < NSEED; k++) for (int layout = 0; layout < 2; layout++)
    {
        if (layout && !c.thorough && k != 0 && k != 1) continue;
        Val trailer; Objs o = seed(k, trailer); string f = build(o, trailer, layout, k == 6 ? 4 : 0);
        const string& al = c.thorough ? alpha : quick;
        for (size_t p = 0; p < f.size(); p++) for (size_t a = 0; a < al.size() + 3; a++)
        {
            if (!c.mine()) { c.skip(); continue; }
            if (a < al.size() && f[p] == al[a]) { c.skip(); continue; }
            c.run("byte", [&] { return vf::fmt("%s, layout %d, byte %zu ", SEEDNAME[k], layout, p) + (a < al.size() ? "replaced by " + vf::esc(al.substr(a, 1)) : a == al.size() ? "last" : a == al.size() + 1 ? "removed" : "doubled"); }, [&] {
                string m = f; if (a < al.size()) m[p] = al[a]; else if (a == al.size()) m = f.substr(0, p); else if (a == al.size() + 1) m.erase(p, 1); else m.insert(p, 1, f[p]);
                C->state(vf::fmt("b%d %d %zu %zu", k, layout, p, a)); exercise(m, c.thorough);
            });
        }
        // cut out, and followed by another end
        for (size_t p = 0; p < f.size(); p += c.thorough ? 1 : 4)
            c.run("cut", [&] { return vf::fmt("%s, layout %d, cut at %zu with a new end", SEEDNAME[k], layout, p); }, [&] { for (auto e : { "\nstartxref\n0\n%%EOF\n", "\n%%EOF", "\ntrailer\n<</Root 1 0 R/Size 5>>\nstartxref\n9\n%%EOF" }) exercise(f.substr(0, p) + e, false); });
    }
}
// cross-references: every offset in every place
static void offsets(vf::Ctx& c)
{
    for (int layout = 0; layout < 2; layout++)
    {
        Val trailer; Objs o = seed(1, trailer); string f = build(o, trailer, layout); size_t sx = f.rfind("startxref\n") + 10, xref = strtoull(f.c_str() + sx, nullptr, 10);
        // startxref: every position
        for (size_t p = 0; p <= f.size() + 2; p++) c.run("startxref", [&] { return vf::fmt("layout %d, startxref %zu", layout, p); }, [&] { exercise(f.substr(0, sx) + std::to_string(p) + "\n%%EOF\n", false); });
        for (auto s : { "-1", "99999999999999999999", "4294967296", "2147483648", "18446744073709551615", "9223372036854775807", "x", "", "0x10" }) c.run("startxref", [&] { return vf::fmt("layout %d, startxref ", layout) + s; }, [&] { exercise(f.substr(0, sx) + s + "\n%%EOF\n", false); });
        // Prev, XRefStm: every position
        for (auto key : { "Prev", "XRefStm" }) for (int64_t p = -2; p <= (int64_t)f.size() + 2; p++)
            c.run("prev", [&] { return vf::fmt("layout %d, %s %lld", layout, key, (long long)p); }, [&] { Val t = trailer; t.m[key] = Val::I(p); exercise(build(o, t, layout), false); });
        for (auto key : { "Prev", "XRefStm", "Size" }) for (int64_t v : { 9223372036854775807ll, -9223372036854775807ll, 4294967296ll, 2147483647ll, -1ll, 0ll, 1ll }) c.run("prev", [&] { return vf::fmt("layout %d, %s %lld", layout, key, (long long)v); }, [&] { string g = build(o, trailer, layout); size_t q = g.rfind(layout ? "/Size " : "/Size "); if (string(key) == "Size") { size_t e = q + 6; while (isdigit((unsigned char)g[e])) e++; g.replace(q + 6, e - q - 6, std::to_string(v)); } else g.insert(q, string("/") + key + " " + std::to_string(v) + " "); exercise(g, false); });
        if (layout == 0)
        {
            // the offset of every entry: every position of an object, and some odd ones
            vector<string> offs; { Builder dummy; } for (size_t p = 0; (p = f.find(" 0 obj", p)) != string::npos; p++) { size_t q = p; while (q && isdigit((unsigned char)f[q - 1])) q--; offs.push_back(vf::fmt("%010zu", q)); } for (auto s : { "0000000000", "9999999999", "4294967295", "0000000001" }) offs.push_back(s); offs.push_back(vf::fmt("%010zu", xref)); offs.push_back(vf::fmt("%010zu", f.size())); offs.push_back(vf::fmt("%010zu", sx));
            for (size_t e = f.find("\n", xref + 5) + 1; e < f.size() && isdigit((unsigned char)f[e]); e += 20) for (auto& s : offs) for (auto tail : { "", " 65535 n", " 00000 f", " 99999 n", " 00001 n", " 00000 x" })
                c.run("entry", [&] { return vf::fmt("entry at %zu is ", e) + s + tail; }, [&] { string g = f; g.replace(e, 10, s); if (*tail) g.replace(e + 10, 8, tail); exercise(g, false); });
            for (auto s : { "0 0", "1 3", "0 99", "0 2147483647", "-1 5", "5 -1", "4294967295 2", "99999999999 1", "0 13", "8388607 14", "9 4294967297", "0", "0 14 0 14", "x" }) c.run("subsection", [&] { return string("subsection ") + s; }, [&] { string g = f; size_t e = f.find("\n", xref + 5); size_t st = f.find("\n", xref) + 1; g.replace(st, e - st, s); exercise(g, false); });
        }
        else
        {
            // every byte of the cross-reference stream's data, its W and Index
            size_t st = f.find("stream\n", xref) + 7, en = f.find("endstream", st);
            for (size_t p = st; p < en; p++) for (int v : { 0, 1, 2, 3, 9, 40, 41, 127, 255 }) c.run("xref-byte", [&] { return vf::fmt("byte %zu of the cross-reference stream is %d", p - st, v); }, [&] { string g = f; g[p] = (char)v; exercise(g, false); });
            static const int64_t WV[] = { 0, 1, 2, 3, 4, 8, 9, -1, 2147483647, 4294967296ll, 9223372036854775807ll };
            size_t w = f.find("/W", xref), we = f.find("]", w) + 1;
            for (auto x : WV) for (auto y : WV) for (auto z : WV) c.run("xref-W", [&] { return vf::fmt("W [%lld %lld %lld]", (long long)x, (long long)y, (long long)z); }, [&] { string g = f; g.replace(w, we - w, vf::fmt("/W [%lld %lld %lld]", (long long)x, (long long)y, (long long)z)); exercise(g, false); });
            for (auto x : { "[0 5]", "[0]", "[]", "[-1 5]", "[5 -1]", "[0 99999]", "[0 2147483647]", "[2147483647 3]", "[4294967295 4294967295]", "[9223372036854775807 2]", "[0 1 1 1 2 1]", "[0 3 1]", "5", "(x)", "[/a /b]", "[0 14 0 14]", "[null 3]", "[8388607 5]", "[1 0 R 2]" }) c.run("xref-Index", [&] { return string("Index ") + x; }, [&] { string g = f; g.insert(w, string("/Index ") + x + " "); exercise(g, false); });
            // object stream header: every byte, and other N and First
            size_t os = f.find("stream\n", f.find("/ObjStm")) + 7;
            for (size_t p = os; p < os + 90; p++) for (char v : { '0', '9', ' ', '-', 'x', '(' }) c.run("objstm-byte", [&] { return vf::fmt("byte %zu of the object stream is %c", p - os, v); }, [&] { string g = f; g[p] = v; exercise(g, false); });
            for (auto key : { "/N ", "/First " }) { size_t q = f.find(key, f.find("40 0 obj")); if (q == string::npos) continue; q += strlen(key); size_t e = q; while (isdigit((unsigned char)f[e])) e++; for (auto s : { "0", "1", "-1", "5", "13", "99", "2147483647", "4294967296", "9223372036854775807", "null", "(a)", "1 0 R", "40 0 R", "41 0 R" }) c.run("objstm", [&] { return string("object stream ") + key + s; }, [&] { Val t = trailer; Objs m = o; /* the shift of what follows is undone by padding */ string g = f; string r = s; size_t had = e - q; if (r.size() < had) r += string(had - r.size(), ' '); g.replace(q, had, r); exercise(g, false); }); }
        }
    }
}
// long chains and deep nesting
static void chains(vf::Ctx& c)
{
    static const char* KIND[] = { "nested arrays", "nested dictionaries", "arrays in contents", "page tree", "outline siblings", "outline levels", "name tree", "form XObjects", "field kids", "field parents", "references", "Prev sections", "filters", "page parents", "nested arrays in an object stream", "Length references", "annotation parents", "strings in contents", "array of references", "kids arrays by reference", "q in contents", "brackets at the end", "object streams in each other" };
    for (int kind = 0; kind < 23; kind++) for (int n : { 10, 100, 300, 1000, 3000, 10000, 30000 })
    {
        if (n > 10000 && !c.thorough) continue;
        c.run("chain", [&] { return vf::fmt("%s, %d", KIND[kind], n); }, [&] {
            Objs o = base(); Val t = Val::D({ { "Root", rf(1) } }); string f; int L = 100; int layout = 0;
            auto raw = [&](const string& s) { Builder b("%PDF-1.4\n"); for (auto& p : o) { if (p.second.stream) b.stream(p.first, p.second.v, p.second.data); else b.obj(p.first, p.second.v); } b.rawObj(50, s); size_t x = b.xrefTableAuto(t); b.startxref(x); f = b.out; };
            auto rep = [&](const char* s) { string r; for (int i = 0; i < n; i++) r += s; return r; };
            o[1].v.m["X"] = rf(50);
            switch (kind)
            {
                case 0: raw(rep("[") + rep("]")); break;
                case 1: raw(rep("<</A") + " 1 " + rep(">>")); break;
                case 2: o[3].v.m["Contents"] = rf(4); o[4] = { Val::D(), true, rep("[") + rep("]") + "TJ" }; break;
                case 3: o[2].v.m["Kids"] = Val::A({ rf(L) }); for (int i = 0; i < n; i++) o[L + i] = { Val::D({ { "Type", Val::N("Pages") }, { "Parent", rf(i ? L + i - 1 : 2) }, { "Count", Val::I(1) }, { "Kids", Val::A({ rf(i + 1 < n ? L + i + 1 : 3) }) } }) }; o[3].v.m["Parent"] = rf(L + n - 1); break;
                case 4: o[1].v.m["Outlines"] = rf(4); o[4] = { Val::D({ { "First", rf(L) }, { "Last", rf(L + n - 1) } }) }; for (int i = 0; i < n; i++) { o[L + i] = { Val::D({ { "Title", Val::S("x") }, { "Parent", rf(4) } }) }; if (i + 1 < n) o[L + i].v.m["Next"] = rf(L + i + 1); if (i) o[L + i].v.m["Prev"] = rf(L + i - 1); } break;
                case 5: o[1].v.m["Outlines"] = rf(L); for (int i = 0; i < n; i++) { o[L + i] = { Val::D({ { "Title", Val::S("x") } }) }; if (i + 1 < n) o[L + i].v.m["First"] = o[L + i].v.m["Last"] = rf(L + i + 1); if (i) o[L + i].v.m["Parent"] = rf(L + i - 1); } break;
                case 6: o[1].v.m["Names"] = Val::D({ { "Dests", rf(L) } }); for (int i = 0; i < n; i++) { o[L + i] = { Val::D({ { "Limits", Val::A({ Val::S("a"), Val::S("c") }) } }) }; if (i + 1 < n) o[L + i].v.m["Kids"] = Val::A({ rf(L + i + 1) }); else o[L + i].v.m["Names"] = Val::A({ Val::S("b"), rf(3) }); } break;
                case 7: o[3].v.m["Contents"] = rf(4); o[4] = { Val::D(), true, "/X Do" }; o[3].v.m["Resources"] = Val::D({ { "XObject", Val::D({ { "X", rf(L) } }) } }); for (int i = 0; i < n; i++) o[L + i] = { Val::D({ { "Type", Val::N("XObject") }, { "Subtype", Val::N("Form") }, { "BBox", nums({ 0, 0, 1, 1 }) }, { "Resources", Val::D({ { "XObject", Val::D({ { "X", rf(L + i + 1) } }) } }) } }), true, "/X Do" }; break;
                case 8: case 9: o[1].v.m["AcroForm"] = Val::D({ { "Fields", Val::A({ rf(kind == 8 ? L : L + n - 1) }) } }); for (int i = 0; i < n; i++) { o[L + i] = { Val::D({ { "T", Val::S("f") } }) }; if (i == 0 || kind == 8) o[L + i].v.m["FT"] = Val::N("Tx"); if (i) o[L + i].v.m["Parent"] = rf(L + i - 1); if (kind == 8 && i + 1 < n) o[L + i].v.m["Kids"] = Val::A({ rf(L + i + 1) }); } break;
                case 10: o[3].v.m["MediaBox"] = rf(L); for (int i = 0; i < n; i++) o[L + i] = { i + 1 < n ? rf(L + i + 1) : nums({ 0, 0, 1, 1 }) }; break;
                case 11: { Builder b("%PDF-1.4\n"); for (auto& p : o) b.obj(p.first, p.second.v); size_t x = b.xrefTableAuto(t); for (int i = 0; i < n; i++) { Val u = t; u.m["Prev"] = Val::I((int64_t)x); u.m["Size"] = Val::I(4); x = b.out.size(); b.out += "xref\n0 1\n0000000000 65535 f \ntrailer\n" + write(u) + "\n"; } b.startxref(x); f = b.out; break; }
                case 12: { Val a = Val::A(); for (int i = 0; i < n; i++) a.a.push_back(Val::N(i & 1 ? "ASCIIHexDecode" : "FlateDecode")); o[3].v.m["Contents"] = rf(4); o[4] = { Val::D({ { "Filter", a } }), true, "41>" }; break; }
                case 13: o[3].v.m["Parent"] = rf(L); for (int i = 0; i < n; i++) o[L + i] = { Val::D({ { "Type", Val::N("Pages") }, { "Parent", rf(i + 1 < n ? L + i + 1 : L) } }) }; break;
                case 14: { layout = 1; Val v = Val::A(); break; }
                case 15: o[3].v.m["Contents"] = rf(4); o[4] = { Val::D({ { "Length", rf(L) } }), true, "q Q" }; for (int i = 0; i < n; i++) o[L + i] = { Val::D({ { "Length", rf(L + i + 1) } }), true, "xx" }; break;
                case 16: o[3].v.m["Annots"] = Val::A({ rf(L) }); for (int i = 0; i < n; i++) o[L + i] = { Val::D({ { "Type", Val::N("Annot") }, { "Subtype", Val::N("Widget") }, { "FT", Val::N("Btn") }, { "Parent", rf(i + 1 < n ? L + i + 1 : L) } }) }; break;
                case 17: o[3].v.m["Contents"] = rf(4); o[4] = { Val::D(), true, rep("(") + rep(")") + "Tj" }; break;
                case 18: { Val a = Val::A(); for (int i = 0; i < n; i++) a.a.push_back(rf(3)); o[2].v.m["Kids"] = a; o[2].v.m["Count"] = Val::I(n); break; }
                case 19: o[2].v.m["Kids"] = rf(L); for (int i = 0; i < n; i++) o[L + i] = { i + 1 < n ? Val::A({ rf(L + i + 1) }) : Val::A({ rf(3) }) }; break;
                case 20: o[3].v.m["Contents"] = rf(4); o[4] = { Val::D(), true, rep("q ") + rep("BT ") }; break;
                case 21: raw("1"); f += rep("["); break;
                case 22: for (int i = 0; i < std::min(n, 3000); i++) o[L + i] = { Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(1) }, { "First", Val::I(6) }, { "Extends", rf(L + i + 1) } }), true, vf::fmt("%5d 0 <</Length 3>>", L + i + 1).substr(0, 20) }; break;
            }
            if (kind == 14)
            {
                Builder b("%PDF-1.5\n"); std::map<int64_t, XEnt> e; for (auto& p : o) b.obj(p.first, p.second.v); string h = "50 0 "; b.stream(40, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(1) }, { "First", Val::I((int64_t)h.size()) } }), h + rep("[") + rep("]"));
                for (auto& q : b.offs) e[q.first] = { 'n', q.second.first, 0 }; e[0] = { 'f', 0, 65535 }; e[50] = { 'c', 40, 0 }; size_t x = b.xrefStream(41, t, e); b.startxref(x); f = b.out;
            }
            if (f.empty()) f = build(o, t, layout);
            C->state(vf::fmt("chain %d %d", kind, n)); exercise(f);
        });
    }
}
// character maps: every kind of mapping between every pair of odd codes
static void maps(vf::Ctx& c)
{
    static const char* CODE[] = { "", "00", "ff", "41", "0000", "ffff", "0041", "000000", "00000000", "ffffffff", "7fffffff", "ffff0000", "0000000000", "ffffffffff" };
    static const char* KIND[] = { "codespacerange", "bfrange", "bfrange", "bfchar", "cidrange", "cidchar" };
    static const char* DST[] = { "<0041>", "<d83dde00>", "<dc00>", "<>", "<ffffffffffff>", "[<0041>]", "[]", "0", "-1", "65535", "4294967295", "99999999999", "/x" };
    for (int where = 0; where < 2; where++) for (int k = 0; k < 6; k++) for (auto lo : CODE) for (auto hi : CODE) for (auto d : DST)
    {
        bool range = k == 0 || k == 1 || k == 2 || k == 4; if (k == 2 || (!range && hi != CODE[0]) || (k == 0 && d != DST[0])) continue;
        if (!c.mine()) { c.skip(); continue; }
        string map = string("1 begin") + KIND[k] + "<" + lo + ">" + (range ? string("<") + hi + ">" : "") + (k ? string(d) + " " : string()) + "end" + KIND[k]; if (k) map = "1 begincodespacerange<00><ff>endcodespacerange " + map;
        c.run("map", [&] { return string(where ? "Encoding " : "ToUnicode ") + map; }, [&] { Val t; Objs o = seed(3, t); o[where ? 9 : 11].data = map; if (!where) o[7].data = map; C->state(map + (where ? "e" : "u")); exercise(build(o, t, 0), c.thorough); });
    }
}
static void explore(vf::Ctx& c) { C = &c; chains(c); maps(c); offsets(c); values(c); bytes(c); }
int main(int argc, char** argv)
{
    // errors of the library are expected by the thousand
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    vf::Config cfg; cfg.prop = "P20";
    cfg.rule = "every value of every object of seven seed files replaced by every alternative (numbers, types, references to every object) in two layouts, every byte replaced, removed or doubled, every truncation, every offset in startxref, Prev and cross-reference entries, chains and nestings of growing length; each file is loaded, visited, changed and saved under address and undefined-behaviour sanitizers; states are files";
    cfg.assumptions = { "embedded font programs and JPEG data are left to the libraries that read them", "a visitor does not follow kids deeper than six levels" };
    return vf::main(argc, argv, cfg, explore);
}
