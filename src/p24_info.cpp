// Document information: the Info dictionary and the XMP packet, as histories of
// edits, against a model of both and of what the getters give.
#include "ref.h"
#include <pdfmm/base/PdfMetadata.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace mm;
using std::string;
static vf::Ctx* C;
typedef std::optional<string> OS;
enum F { Title, Author, Subject, Keywords, Creator, Producer, CDate, MDate, NF };
static const char* FN[] = { "Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate" };
struct X { OS f[NF]; string level; };                         // what a packet says
static string noctl(const string& s) { string r; for (unsigned char c : s) if (c >= 32 || c == 9 || c == 10 || c == 13) r += (char)c; return r; }
static string show(const OS& s) { return s ? "(" + vf::esc(*s) + ")" : "none"; }
static bool operator==(const X& a, const X& b) { for (int i = 0; i < NF; i++) { if (a.f[i].has_value() != b.f[i].has_value()) return false; if (a.f[i] && noctl(*a.f[i]) != noctl(*b.f[i])) return false; } return a.level == b.level; }
static string show(const X& x) { string s; for (int i = 0; i < NF; i++) if (x.f[i]) s += string(" ") + FN[i] + "=" + show(x.f[i]); return s + " level " + x.level; }
static string content(xmlNodePtr n) { auto c = xmlNodeGetContent(n); string s = (const char*)c; xmlFree(c); return s; }
// What a packet says, by namespace names, in any of the notations of RDF used here. nothing: not well-formed
static std::optional<X> extract(const string& b)
{
    auto doc = xmlReadMemory(b.data(), (int)b.size(), nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!doc) return { };
    static const std::map<string, int> K{ { "http://purl.org/dc/elements/1.1/ title", Title }, { "http://purl.org/dc/elements/1.1/ creator", Author }, { "http://purl.org/dc/elements/1.1/ description", Subject }, { "http://ns.adobe.com/pdf/1.3/ Keywords", Keywords }, { "http://ns.adobe.com/xap/1.0/ CreatorTool", Creator }, { "http://ns.adobe.com/pdf/1.3/ Producer", Producer }, { "http://ns.adobe.com/xap/1.0/ CreateDate", CDate }, { "http://ns.adobe.com/xap/1.0/ ModifyDate", MDate }, { "http://www.aiim.org/pdfa/ns/id/ part", NF }, { "http://www.aiim.org/pdfa/ns/id/ conformance", NF + 1 } };
    X x; string part, conf; bool ok = false;
    auto put = [&](xmlNsPtr ns, const xmlChar* name, const string& v) { if (!ns) return; auto i = K.find(string((const char*)ns->href) + " " + (const char*)name); if (i == K.end()) return; if (i->second == NF) part = v; else if (i->second == NF + 1) conf = v; else if (!x.f[i->second]) x.f[i->second] = v; };
    auto root = xmlDocGetRootElement(doc);
    for (auto rdf = xmlFirstElementChild(root); rdf; rdf = xmlNextElementSibling(rdf)) for (auto de = xmlFirstElementChild(rdf); de; de = xmlNextElementSibling(de))
    {
        ok = true;
        for (auto a = de->properties; a; a = a->next) put(a->ns, a->name, content((xmlNodePtr)a));
        for (auto e = xmlFirstElementChild(de); e; e = xmlNextElementSibling(e)) { auto l = xmlFirstElementChild(e); if (l) { l = xmlFirstElementChild(l); if (l) put(e->ns, e->name, content(l)); } else put(e->ns, e->name, content(e)); }
    }
    xmlFreeDoc(doc); x.level = part.size() && conf.size() ? part + conf : ""; if (x.level == "1Z") x.level = "";
    if (!ok) return { };
    for (int i : { CDate, MDate }) if (x.f[i]) { PdfDate d; if (PdfDate::TryParseW3C(*x.f[i], d)) x.f[i] = string(d.ToStringW3C().GetString()); else x.f[i].reset(); }
    return x;
}
static const std::pair<PdfALevel, const char*> LV[] = { { PdfALevel::Unknown, "" }, { PdfALevel::L1B, "1B" }, { PdfALevel::L1A, "1A" }, { PdfALevel::L2B, "2B" }, { PdfALevel::L2A, "2A" }, { PdfALevel::L2U, "2U" }, { PdfALevel::L3B, "3B" }, { PdfALevel::L3A, "3A" }, { PdfALevel::L3U, "3U" }, { PdfALevel::L4E, "4E" }, { PdfALevel::L4F, "4F" } };
static OS os(const nullable<PdfString>& s) { if (s == nullptr) return { }; return string(s->GetString()); }
static OS od(const nullable<PdfDate>& s) { if (s == nullptr) return { }; return string(s->ToStringW3C().GetString()); }
static OS oi(const nullable<const PdfString&>& s) { if (s == nullptr) return { }; return string(s->GetString()); }
static X getters(const PdfMetadata& m)
{
    X x; x.f[Title] = os(m.GetTitle()); x.f[Author] = os(m.GetAuthor()); x.f[Subject] = os(m.GetSubject()); x.f[Keywords] = os(m.GetKeywordsRaw()); x.f[Creator] = os(m.GetCreator()); x.f[Producer] = os(m.GetProducer()); x.f[CDate] = od(m.GetCreationDate()); x.f[MDate] = od(m.GetModifyDate());
    for (auto& l : LV) if (l.first == m.GetPdfALevel()) x.level = l.second;
    return x;
}
static X infoOf(const PdfInfo* m)
{
    X x; if (!m) return x;
    x.f[Title] = oi(m->GetTitle()); x.f[Author] = oi(m->GetAuthor()); x.f[Subject] = oi(m->GetSubject()); x.f[Keywords] = oi(m->GetKeywords()); x.f[Creator] = oi(m->GetCreator()); x.f[Producer] = oi(m->GetProducer()); x.f[CDate] = od(m->GetCreationDate()); x.f[MDate] = od(m->GetModDate());
    return x;
}
struct Op { enum K { Set, Key, Date, Trap, Level, Sync, Ensure, Take, Extern, Reload, Save, Info } k; int f = 0, v = 0; bool sync = false; };
static const OS VAL[] = { OS("plain"), OS("A & B <c> \"\xC3\xA9\" \xE4\xBD\xA0 ]]>"), OS(), OS(""), OS(string("a\x01" "b")), OS("&amp; &#65;") };
static const std::vector<string> KEYS[] = { { "k" }, { }, { "a & b", "\xC3\xA9", "c" }, { "one two", "three" } };
static const char* DATES[] = { "D:20200102030405+02'00'", "D:19991231235959Z", nullptr };
static const char* TR[] = { "True", "False", "Other", nullptr };
static string text(const Op& o)
{
    string s = o.sync ? "+" : "";
    switch (o.k)
    {
        case Op::Set: return string("Set") + FN[o.f] + " " + show(VAL[o.v]) + s; case Op::Key: return vf::fmt("SetKeywords %d", o.v) + s; case Op::Date: return string("Set") + FN[o.f] + (DATES[o.v] ? DATES[o.v] : " none") + s; case Op::Trap: return vf::fmt("SetTrapped %s", TR[o.v] ? TR[o.v] : "none");
        case Op::Level: return vf::fmt("SetPdfALevel %s", LV[o.v].second) + s; case Op::Sync: return "SyncXMPMetadata" + s; case Op::Ensure: return "EnsureXMPMetadata"; case Op::Take: return "TakeXMPPacket"; case Op::Extern: return vf::fmt("SetMetadataStreamValue %d", o.v); case Op::Reload: return "Reload"; case Op::Save: return "Save"; default: return vf::fmt("Info.SetTitle");
    }
}
static const string HEAD = "<?xpacket begin=\"\xEF\xBB\xBF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n<x:xmpmeta xmlns:x=\"adobe:ns:meta/\">\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n", TAIL = "</rdf:RDF>\n</x:xmpmeta>\n<?xpacket end=\"w\"?>";
static const string DESC = "<rdf:Description rdf:about=\"\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:pdf=\"http://ns.adobe.com/pdf/1.3/\" xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\" xmlns:pdfaid=\"http://www.aiim.org/pdfa/ns/id/\"";
static string packet(int n)
{
    switch (n)
    {
        case 0: return HEAD + DESC + ">\n <dc:title><rdf:Alt><rdf:li xml:lang=\"x-default\">Xt &amp; u</rdf:li></rdf:Alt></dc:title>\n <dc:creator><rdf:Seq><rdf:li>Xa</rdf:li></rdf:Seq></dc:creator>\n <xmp:CreatorTool>Xc</xmp:CreatorTool><pdf:Keywords>Xk</pdf:Keywords><xmp:CreateDate>2001-02-03T04:05:06Z</xmp:CreateDate><pdfaid:part>2</pdfaid:part><pdfaid:conformance>B</pdfaid:conformance><dc:format>application/pdf</dc:format>\n</rdf:Description>\n" + TAIL;
        case 1: return HEAD + DESC + " pdf:Producer=\"P &amp; &lt;q&gt;\" xmp:CreatorTool=\"C &amp; d\" pdfaid:part=\"1\" pdfaid:conformance=\"B\"/>\n" + DESC + " pdf:Keywords=\"k\">\n<dc:description><rdf:Alt><rdf:li xml:lang=\"x-default\">Xs</rdf:li><rdf:li xml:lang=\"de\">Other</rdf:li></rdf:Alt></dc:description></rdf:Description>\n" + TAIL;
        case 2: return HEAD + DESC + "><dc:title><rdf:Alt><rdf:li xml:lang=\"x-default\">t</rdf:li></rdf:Alt></dc:title><xmp:CreateDate>yesterday</xmp:CreateDate><xmp:ModifyDate/></rdf:Description>" + TAIL;
        case 3: return "<xmpmeta xmlns=\"adobe:ns:meta/\"><RDF xmlns=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"><Description about=\"\" xmlns=\"urn:x\"><q>1</q></Description></RDF></xmpmeta>";
        case 4: return "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><unclosed";
        case 5: return HEAD + DESC + " xmlns=\"urn:default\"><part>7</part><dc:date>2001</dc:date><!-- c --><dc:publisher rdf:parseType=\"Resource\"><rdf:value>v</rdf:value></dc:publisher></rdf:Description>" + TAIL;
        default: return "";
    }
}
// start documents: the Info dictionary and the packet
struct Start { std::optional<ref::Val> info; int packet; };
static ref::Val S(const string& s) { return ref::Val::S(s); }
static std::vector<Start> starts()
{
    using V = ref::Val;
    return { { { }, -1 }, { { }, -1 }, { V::D({ { "Title", S("It") }, { "Keywords", S("a\r\nb") }, { "Author", S(string("\xFE\xFF\x00\xE9", 4)) }, { "CreationDate", S("D:20100101000000Z") }, { "ModDate", S("D:20110101000000+01'00'") }, { "Trapped", V::N("True") }, { "Custom", S("c") } }), -1 },
        { { }, 0 }, { V::D({ { "Title", S("It") }, { "Creator", S("Ic") }, { "CreationDate", S("D:20100101000000Z") } }), 0 }, { V::D({ { "Producer", S("Ip") } }), 1 }, { V::D({ { "Title", S("It") }, { "CreationDate", S("nonsense") }, { "ModDate", V::I(3) } }), 2 },
        { V::D({ { "Title", S("It") } }), 3 }, { V::D({ { "Title", V::N("It") }, { "Author", V::A({ S("x") }) }, { "Subject", V() }, { "Trapped", S("True") }, { "Keywords", S("\n\r\n") } }), 4 }, { { }, 5 } };
}
static string startDoc(const Start& s)
{
    using V = ref::Val; ref::Builder b; std::map<string, V> cat{ { "Type", V::N("Catalog") }, { "Pages", V::Rf(2) } }; if (s.packet >= 0) cat["Metadata"] = V::Rf(5);
    b.obj(1, V::D(cat)); b.obj(2, V::D({ { "Type", V::N("Pages") }, { "Kids", V::A({ V::Rf(3) }) }, { "Count", V::I(1) } })); b.obj(3, V::D({ { "Type", V::N("Page") }, { "Parent", V::Rf(2) }, { "MediaBox", V::A({ V::I(0), V::I(0), V::I(9), V::I(9) }) } }));
    std::map<string, V> tr{ { "Root", V::Rf(1) } }; if (s.info) { b.obj(4, *s.info); tr["Info"] = V::Rf(4); }
    if (s.packet >= 0) b.stream(5, V::D({ { "Type", V::N("Metadata") }, { "Subtype", V::N("XML") } }), packet(s.packet));
    auto x = b.xrefTableAuto(V::D(tr)); b.startxref(x); return b.out;
}
struct Model { X cur, info; std::optional<X> xmp; bool pk = false, dirty = false; OS trapped; X eff; };
static X effective(const Model& m) { X x = m.info; for (int i = 0; i < NF; i++) if (!x.f[i] && m.xmp) x.f[i] = m.xmp->f[i]; x.level = m.xmp ? m.xmp->level : ""; return x; }
static void init(Model& m) { m.cur = effective(m); m.pk = m.xmp.has_value(); m.dirty = false; }
static void synced(Model& m) { if (!m.pk) return; m.xmp = m.cur; m.dirty = false; for (auto& f : m.xmp->f) if (f) f = noctl(*f); auto c = m.cur; init(m); for (int i = 0; i < NF; i++) if (m.cur.f[i] && c.f[i] && noctl(*m.cur.f[i]) == noctl(*c.f[i])) m.cur.f[i] = c.f[i]; }
static bool same(const X& a, const X& b, string& why, bool ctl = false)
{
    for (int i = 0; i < NF; i++) { auto x = a.f[i], y = b.f[i]; if (ctl) { if (x) x = noctl(*x); if (y) y = noctl(*y); } if (x != y) { why = string(FN[i]) + " is " + show(x) + ", not " + show(y); return false; } }
    if (a.level != b.level) { why = "the PDF/A level is '" + a.level + "', not '" + b.level + "'"; return false; }
    return true;
}
static string stored(const PdfMemDocument& d) { return d.GetCatalog().GetMetadataStreamValue(); }
static void history(int s, const std::vector<Op>& ops)
{
    auto ss = starts(); auto& st = ss[s];
    auto d = std::make_unique<PdfMemDocument>(); string buf;
    if (s == 1) d->GetPages().CreatePage(PdfRect(0, 0, 9, 9));       // a new document
    else { buf = startDoc(st); d->LoadFromBuffer(buf); }
    Model m;
    if (s == 1) { m.info = infoOf(d->GetInfo()); if (!m.info.f[Producer] && !m.info.f[CDate]) C->fail("new", "a new document has no information"); }
    else
    {
        if (st.info) for (int i = 0; i < NF; i++) { auto v = st.info->get(FN[i]); if (v && v->k == ref::Str) { string t = v->s; if (t[0] == '\xFE') t = "\xC3\xA9"; if (i >= CDate) { PdfDate dt; if (!PdfDate::TryParse(t, dt)) continue; t = string(dt.ToStringW3C().GetString()); } m.info.f[i] = t; } }
        if (st.info) { auto v = st.info->get("Trapped"); if (v && v->k == ref::Name) m.trapped = v->s; }
        if (st.packet >= 0 && st.packet != 3 && st.packet != 4) m.xmp = extract(packet(st.packet));
    }
    init(m); if (st.packet == 3) m.pk = true;
    auto judge = [&](const PdfMemDocument& doc, const string& when) {
        auto g = getters(doc.GetMetadata()); string why;
        if (!same(g, m.cur, why)) { C->fail("getter", when + ": " + why); return false; }
        string t = doc.GetMetadata().GetTrapped(), w = m.trapped && (*m.trapped == "True" || *m.trapped == "False") ? *m.trapped : "Unknown"; if (t != w) { C->fail("trapped", when + ": GetTrapped gives " + t + ", not " + w); return false; }
        auto raw = doc.GetMetadata().GetTrappedRaw(); if ((raw != nullptr) != m.trapped.has_value() || (raw != nullptr && string(raw->GetString()) != *m.trapped)) { C->fail("trapped", when + ": GetTrappedRaw"); return false; }
        auto k = doc.GetMetadata().GetKeywords(); std::vector<string> e; if (m.cur.f[Keywords]) { string cur; for (char c : *m.cur.f[Keywords] + "\n") if (c == '\r' || c == '\n') { if (cur.size()) e.push_back(cur); cur.clear(); } else cur += c; }
        if (k != e) { string x; for (auto& i : k) x += " (" + vf::esc(i) + ")"; C->fail("keywords", when + ": the keywords are" + x); return false; }
        return true;
    };
    auto judgeStored = [&](PdfMemDocument& doc, const string& when) {
        string b = stored(doc); auto x = extract(b); string why;
        if (st.packet == 4 && !m.xmp && b == packet(4)) return true;
        if (st.packet == 3 && !m.xmp && b == packet(3)) return true;
        if (!m.xmp) { if (b.size()) { C->fail("xmp-unexpected", when + ": there is a packet"); return false; } return true; }
        if (!x) { C->fail("xmp-form", when + ": the packet is not well-formed: " + vf::esc(b, 200)); return false; }
        if (!same(*x, *m.xmp, why, true)) { C->fail("xmp", when + ", in the packet: " + why); return false; }
        return true;
    };
    // an operation that may or may not bring an unchanged packet in line
    auto either = [&](PdfMemDocument& doc) { auto x = extract(stored(doc)); Model n = m; n.pk = true; synced(n); if (x && (!m.xmp || !(*x == *m.xmp)) && *x == *n.xmp) { m = n; } };
    if (!judge(*d, "at the start")) return;
    for (auto& o : ops)
    {
        auto& md = d->GetMetadata(); C->transition(); string when = "after " + text(o);
        auto changed = [&](int f, const OS& v, bool sync) { if (m.cur.f[f] == v) { if (sync && m.dirty) { m.info.f[f] = v; synced(m); } else if (sync) either(*d); return; } m.cur.f[f] = v; m.info.f[f] = v; m.dirty = true; if (sync) synced(m); };
        switch (o.k)
        {
            case Op::Set: case Op::Info:
            {
                nullable<const PdfString&> v; PdfString str; if (VAL[o.v]) { str = PdfString(*VAL[o.v]); v = str; }
                switch (o.f) { case Title: md.SetTitle(v, o.sync); break; case Author: md.SetAuthor(v, o.sync); break; case Subject: md.SetSubject(v, o.sync); break; case Creator: md.SetCreator(v, o.sync); break; default: md.SetProducer(v, o.sync); }
                changed(o.f, VAL[o.v], o.sync); break;
            }
            case Op::Key: { md.SetKeywords(KEYS[o.v], o.sync); OS v; if (KEYS[o.v].size()) { v = ""; for (auto& k : KEYS[o.v]) *v += (v->size() ? "\r\n" : "") + k; } changed(Keywords, v, o.sync); break; }
            case Op::Date: { nullable<PdfDate> dt; if (DATES[o.v]) dt = PdfDate::Parse(string(DATES[o.v])); if (o.f == CDate) md.SetCreationDate(dt, o.sync); else md.SetModifyDate(dt, o.sync); changed(o.f, od(dt), o.sync); break; }
            case Op::Trap: { PdfName n; nullable<const PdfName&> v; if (TR[o.v]) { n = PdfName(TR[o.v]); v = n; } md.SetTrapped(v); if (TR[o.v]) m.trapped = string(TR[o.v]) == "Other" ? "Unknown" : TR[o.v]; else m.trapped.reset(); break; }
            case Op::Level:
            {
                md.SetPdfALevel(LV[o.v].first, o.sync); string l = LV[o.v].second;
                if (m.cur.level == l) { if (o.sync && m.dirty) synced(m); else if (o.sync) either(*d); break; }
                if (l.size()) { m.pk = true; m.info.f[CDate] = m.cur.f[CDate]; m.info.f[MDate] = m.cur.f[MDate]; }
                m.cur.level = l; m.dirty = true; if (o.sync) synced(m); break;
            }
            case Op::Sync: md.SyncXMPMetadata(o.sync); if (!m.pk && o.sync) { m.pk = true; synced(m); } else if (m.dirty) synced(m); else either(*d); break;
            case Op::Ensure: md.EnsureXMPMetadata(); if (!m.pk) m.dirty = true; m.pk = true; m.info.f[CDate] = m.cur.f[CDate]; m.info.f[MDate] = m.cur.f[MDate]; break;
            case Op::Take:
            {
                bool pk = m.pk, dirty = m.dirty; auto p = md.TakeXMPPacket();
                if ((p != nullptr) != pk) { C->fail("take", when + (pk ? ": there is no packet" : ": there is a packet")); return; }
                if (p && !(st.packet == 3 && !dirty)) { auto x = extract(p->ToString()); string why; if (!x) { C->fail("take-form", when + ": the packet is not well-formed"); return; } if (!same(*x, m.cur, why, true) && (dirty || !m.xmp || !same(*x, *m.xmp, why, true))) { C->fail("take-value", when + ", in the packet taken: " + why); return; } }
                init(m); if (st.packet == 3 && !m.xmp) m.pk = true; break;
            }
            case Op::Extern: d->GetCatalog().SetMetadataStreamValue(packet(o.v)); st.packet = o.v; m.xmp = extract(packet(o.v)); init(m); break;
            case Op::Reload: case Op::Save:
            {
                string b; { StringStreamDevice dev(b); d->Save(dev, o.k == Op::Save ? PdfSaveOptions::None : PdfSaveOptions::NoModifyDateUpdate); }
                if (o.k == Op::Save) { auto now = od(d->GetMetadata().GetModifyDate()); if (!now) { C->fail("save", "no modification date after saving"); return; } if (m.cur.f[MDate] == now) { if (m.dirty) synced(m); else either(*d); } else { m.cur.f[MDate] = now; m.info.f[MDate] = now; m.dirty = true; synced(m); } if (!m.info.f[MDate]) m.info.f[MDate] = now; break; }
                d = std::make_unique<PdfMemDocument>(); buf = b; d->LoadFromBuffer(buf); init(m); if (st.packet == 3 && !m.xmp) m.pk = true; break;
            }
        }
        if (C->failed() || !judge(*d, when)) return;
    }
    if (!judgeStored(*d, "at the end")) return;
    string sig = show(m.cur) + (m.xmp ? " | " + show(*m.xmp) : ""); C->state(sig);
    string b; { StringStreamDevice dev(b); d->Save(dev, PdfSaveOptions::NoModifyDateUpdate); }
    auto f = ref::readFile(b); if (f.problems.size()) { C->fail("file", f.problems[0]); return; }
    if (s == 2 && (!f.trailer.get("Info") || !f.resolve(f.trailer.get("Info"))->get("Custom"))) { C->fail("custom", "another entry of the information is gone"); return; }
    if (m.xmp) { auto root = f.resolve(f.trailer.get("Root")); auto me = root ? root->get("Metadata") : nullptr; if (!me || me->k != ref::Ref || !f.objs.count(me->i) || !f.objs[me->i].stream) { C->fail("xmp-stream", "the metadata stream is missing"); return; } auto& ob = f.objs[me->i]; auto sub = ob.v.get("Subtype"), ty = ob.v.get("Type"); if (!sub || sub->s != "XML" || !ty || ty->s != "Metadata") { C->fail("xmp-stream", "the metadata stream is not marked"); return; } }
    PdfMemDocument e; e.LoadFromBuffer(b); auto inf = infoOf(e.GetInfo()); string why;
    { X want = m.info; want.level = inf.level = ""; if (!same(inf, want, why)) { C->fail("info", "in the information of the saved file: " + why); return; } }
    init(m); if (!judge(e, "after reloading") || !judgeStored(e, "after reloading")) return;
    C->trace();
}
static void quiet(void*, const char*, ...) { }
static void explore(vf::Ctx& c)
{
    C = &c; xmlInitParser(); xmlSetGenericErrorFunc(nullptr, quiet);
    std::vector<Op> full, mid, small;
    for (int f : { Title, Author, Subject, Creator, Producer }) for (int v = 0; v < 6; v++) for (bool s : { false, true }) full.push_back({ Op::Set, f, v, s });
    for (int f : { Title, Author, Creator }) for (int v : { 0, 1, 2 }) for (bool s : { false, true }) mid.push_back({ Op::Set, f, v, s });
    for (int v = 0; v < 4; v++) for (bool s : { false, true }) { full.push_back({ Op::Key, 0, v, s }); if (v < 3) mid.push_back({ Op::Key, 0, v, s }); }
    for (int f : { CDate, MDate }) for (int v : { 0, 1, 2 }) for (bool s : { false, true }) { full.push_back({ Op::Date, f, v, s }); if (v == 0 || (v == 2 && s)) mid.push_back({ Op::Date, f, v, s }); }
    for (int v = 0; v < 4; v++) full.push_back({ Op::Trap, 0, v }); mid.push_back({ Op::Trap, 0, 1 }); mid.push_back({ Op::Trap, 0, 3 });
    for (int v = 0; v < 11; v++) for (bool s : { false, true }) { full.push_back({ Op::Level, 0, v, s }); if (v == 0 || v == 5 || (v == 10 && s)) mid.push_back({ Op::Level, 0, v, s }); }
    for (auto k : { Op::Ensure, Op::Take, Op::Reload, Op::Save }) { full.push_back({ k }); mid.push_back({ k }); small.push_back({ k }); }
    for (bool s : { false, true }) { full.push_back({ Op::Sync, 0, 0, s }); mid.push_back({ Op::Sync, 0, 0, s }); small.push_back({ Op::Sync, 0, 0, s }); }
    for (int v : { 0, 1, 2 }) { full.push_back({ Op::Extern, 0, v }); if (v < 2) mid.push_back({ Op::Extern, 0, v }); }
    for (int v : { 1, 2 }) for (bool s : { false, true }) small.push_back({ Op::Set, Title, v, s });
    small.push_back({ Op::Set, Creator, 0, true }); small.push_back({ Op::Level, 0, 5, true }); small.push_back({ Op::Level, 0, 5, false }); small.push_back({ Op::Level, 0, 0, true }); small.push_back({ Op::Date, CDate, 0, true }); small.push_back({ Op::Date, MDate, 2, true });
    auto go = [&](const std::vector<Op>& ops, unsigned depth, const char* tag) {
        for (int s = 0; s < (int)starts().size(); s++) vf::sequences((unsigned)ops.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            std::vector<Op> h; for (auto i : v) h.push_back(ops[i]);
            c.run(tag, [&] { string d = vf::fmt("document %d:", s); for (auto& o : h) d += " " + text(o) + ","; return d; }, [&] { history(s, h); });
        });
    };
    go(full, 0, "start"); go(full, 1, "depth1"); go(mid, 2, "depth2"); go(small, 3, "depth3");
    if (c.thorough) { go(full, 2, "depth2full"); go(small, 4, "depth4"); }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P24";
    cfg.rule = "all histories of edits of the document information up to a depth from all start documents (no, partial, conflicting, malformed information and packets); a state is the information and the packet reached, a transition one edit; every history is judged in memory after each edit, in the packet by an independent reader of RDF, in the saved file and after reloading";
    cfg.assumptions = { "characters that cannot appear in XML are left out of the packet", "a packet that disagrees with the information on loading may stay so until something changes" };
    return vf::main(argc, argv, cfg, explore);
}
