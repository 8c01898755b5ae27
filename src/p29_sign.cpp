// Signing: what the signer is given, what the byte range covers, and what later
// operations keep, for placeholders at every place relative to the buffers.
#include "ref.h"
#include "sec.h"
#include <pdfmm/base/PdfSigner.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <fstream>
#include <unistd.h>
using namespace mm;
using std::string;
static vf::Ctx* C;

struct Signer : PdfSigner
{
    size_t reserve, actual; int seed; string sub, type;
    string data, log, given; bool big = false;
    Signer(size_t r, size_t a, int s, string sb = "adbe.pkcs7.detached", string t = "Sig") : reserve(r), actual(a), seed(s), sub(sb), type(t) {}
    static string sig(size_t n, int seed) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)((i * 37 + seed * 11 + 1 + i / 251) & 0xFF); return s; }
    void Reset() override { log += 'R'; data.clear(); }
    void AppendData(const bufferview& b) override { if (log.empty() || log.back() != 'A') log += 'A'; data.append(b.data(), b.size()); if (!b.size()) log += '0'; }
    void ComputeSignature(charbuff& b, bool dry) override { log += dry ? 'D' : 'C'; b.resize(dry ? reserve : actual); if (!dry) { given = sig(actual, seed); memcpy(b.data(), given.data(), given.size()); } else memset(b.data(), 'z', b.size()); }
    string GetSignatureSubFilter() const override { return sub; }
    string GetSignatureType() const override { return type; }
};
// Start documents. pad: bytes of a stream that shifts what comes after it
struct Start { int kind; size_t pad; int user; };
static const char* KIND[] = { "xref table", "xref stream", "RC4", "AES-128", "AES-256", "with form and NeedAppearances", "field with direct value", "field with null value", "with child field" };
static const int NK = 9;
static string startBytes(int kind, size_t pad)
{
    if (kind >= 2 && kind <= 4)
    {
        static std::map<std::pair<int, size_t>, string> cache; auto& s = cache[{ kind, pad }]; if (!s.empty()) return s;
        string src = startBytes(0, pad); PdfMemDocument d; d.LoadFromBuffer(src);
        if (kind == 2) d.SetEncrypted("", "own", PdfPermissions::Default, PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128); else if (kind == 3) d.SetEncrypted("", "own", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128); else d.SetEncrypted("", "own", PdfPermissions::Default, PdfEncryptAlgorithm::AESV3, PdfKeyLength::L256);
        string out; StringStreamDevice dev(out); d.Save(dev, PdfSaveOptions::NoModifyDateUpdate); return s = out;
    }
    ref::Builder b; using V = ref::Val;
    auto cat = V::D({ { "Type", V::N("Catalog") }, { "Pages", V::Rf(2) } });
    auto page = V::D({ { "Type", V::N("Page") }, { "Parent", V::Rf(2) }, { "MediaBox", V::A({ V::I(0), V::I(0), V::I(200), V::I(200) }) }, { "Pad", V::Rf(4) } });
    if (kind >= 5) { auto form = V::D({ { "Fields", V::A(kind == 5 ? std::vector<V>{ } : std::vector<V>{ V::Rf(5) }) }, { "NeedAppearances", V::B(true) }, { "DA", V::S("/F 1 Tf") } }); cat.m["AcroForm"] = form; }
    if (kind >= 6) page.m["Annots"] = V::A({ V::Rf(kind == 8 ? 6 : 5) });
    b.obj(1, cat); b.obj(2, V::D({ { "Type", V::N("Pages") }, { "Kids", V::A({ V::Rf(3) }) }, { "Count", V::I(1) } })); b.obj(3, page);
    b.stream(4, V::D(), string(pad, 'p'));
    auto wid = V::D({ { "Type", V::N("Annot") }, { "Subtype", V::N("Widget") }, { "Rect", V::A({ V::I(0), V::I(0), V::I(9), V::I(9) }) }, { "P", V::Rf(3) } });
    if (kind == 6 || kind == 7) { auto f = wid; f.m["FT"] = V::N("Sig"); f.m["T"] = V::S("old"); f.m["V"] = kind == 6 ? V::D({ { "Type", V::N("Sig") }, { "Reason", V::S("because") } }) : V(); b.obj(5, f); }
    if (kind == 8) { b.obj(5, V::D({ { "T", V::S("up") }, { "FT", V::N("Sig") }, { "Kids", V::A({ V::Rf(6) }) } })); wid.m["Parent"] = V::Rf(5); wid.m["T"] = V::S("old"); b.obj(6, wid); }
    size_t xr; auto tr = V::D({ { "Root", V::Rf(1) }, { "ID", V::A({ V::S("0123456789abcdef", true), V::S("0123456789abcdef", true) }) } });
    if (kind == 1) { std::map<int64_t, ref::XEnt> e; e[0] = { 'f', 0, 65535 }; for (auto& [n, o] : b.offs) e[n] = { 'n', o.first, 0 }; tr.m["Size"] = V::I(20); xr = b.xrefStream(19, tr, e); }
    else xr = b.xrefTableAuto(tr);
    b.startxref(xr); return b.out;
}
// What a signature must still look like
struct Done { size_t from, gap, end, total; string bytes, value; int64_t obj; string name; };

static string decodeHex(const string& s) { string r; if (s.size() < 2 || s.front() != '<' || s.back() != '>' || s.size() % 2) throw ref::Bad("gap is not a hexadecimal string: " + vf::esc(s, 60)); for (size_t i = 1; i + 1 < s.size(); i += 2) { if (!isxdigit((unsigned char)s[i]) || !isxdigit((unsigned char)s[i + 1])) throw ref::Bad("gap is not a hexadecimal string: " + vf::esc(s, 60)); r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); } return r; }
static bool find(ref::File& f, const string& name, int64_t& num, ref::Val& v)
{
    std::function<bool(const ref::Val*)> rec = [&](const ref::Val* r) -> bool {
        auto d = f.resolve(r); if (!d || d->k != ref::Dict) return false;
        auto t = f.resolve(d->get("T"));
        if (t && t->k == ref::Str && t->s == name) { auto val = d->get("V"); if (!val) return false; if (val->k == ref::Ref) { num = val->i; if (!f.objs.count(num)) return false; v = f.objs[num].v; } else { num = -1; v = *val; } return true; }
        auto k = f.resolve(d->get("Kids")); if (k) for (auto& x : k->a) if (rec(&x)) return true; return false;
    };
    auto root = f.resolve(f.trailer.get("Root")); if (!root) return false; auto form = f.resolve(root->get("AcroForm")); if (!form) return false;
    auto fl = f.resolve(form->get("Fields")); if (!fl) return false;
    for (auto& x : fl->a) if (rec(&x)) return true; return false;
}
static bool readBack(const string& bytes, ref::File& f, int kind, const string& when)
{
    f = ref::readFile(bytes);
    if (!f.problems.empty()) { C->fail("file", when + ": " + f.problems[0]); return false; }
    if ((kind >= 2 && kind <= 4) != f.encrypted) { C->fail("encryption", when + ": the file is " + (f.encrypted ? "" : "not ") + "encrypted"); return false; }
    if (f.encrypted)
    {
        auto e = f.trailer.get("Encrypt"); auto ed = f.resolve(e); auto id = f.resolve(f.trailer.get("ID"));
        if (!ed || !id) { C->fail("encryption", when + ": no Encrypt or ID"); return false; }
        try { auto h = sec::Handler::fromDict(*ed, id->a[0].s); if (!h.auth("")) { C->fail("encryption", when + ": password not accepted"); return false; } sec::decryptFile(f, h, e->k == ref::Ref ? e->i : 0); } catch (const ref::Bad& x) { C->fail("encryption", when + ": " + x.what()); return false; }
    }
    return true;
}
static bool keeps(const string& now, const std::vector<Done>& done, int kind, const string& when)
{
    ref::File f; if (done.size() && !readBack(now, f, kind, when)) return false;
    for (auto& s : done)
    {
        if (now.size() < s.total || now.compare(0, s.total, s.bytes) != 0) { C->fail("signed-bytes-changed", when + ": the bytes covered by the signature " + s.name + " changed"); return false; }
        int64_t num; ref::Val v; if (!find(f, s.name, num, v)) { C->fail("signature-lost", when + ": no value of the field " + s.name); return false; }
        auto br = v.get("ByteRange"), ct = v.get("Contents");
        if (!br || !ct || br->k != ref::Arr || br->a.size() != 4 || br->a[1].i != (int64_t)s.gap || br->a[2].i != (int64_t)s.end || br->a[3].i != (int64_t)(s.total - s.end)) { C->fail("signature-changed", when + ": the byte range of " + s.name + " changed"); return false; }
        bool cipher = f.encrypted; (void)cipher;
        if (now.compare(s.gap, s.end - s.gap, s.bytes, s.gap, s.end - s.gap) != 0) { C->fail("signature-changed", when + ": the value of " + s.name + " changed"); return false; }
    }
    PdfMemDocument d; string what; int e = vf::errorOf([&] { d.LoadFromBuffer(now); }, &what); if (e != -1) { C->fail("reload", when + vf::fmt(": the file does not load, error %d: ", e) + what); return false; }
    for (auto& s : done) if (s.obj > 0)
    {
        auto o = d.GetObjects().GetObject(PdfReference((uint32_t)s.obj, (uint16_t)f.objs[s.obj].g)); if (!o || !o->IsDictionary()) { C->fail("reload", when + ": no signature value object"); return false; }
        auto c = o->GetDictionary().FindKey("Contents"); const PdfString* str;
        if (!c || !c->TryGetString(str) || string(str->GetRawData()) != s.value) { C->fail("value-reread", when + ": the signature read back is not the one given"); return false; }
    }
    return true;
}
struct Op { enum K { SignNew, SignPage, SignOld, Title, Update, Reload, Attr, Cert, SaveAs } k; size_t reserve = 20, actual = 20; };
static string text(const Op& o) { static const char* n[] = { "sign new field", "sign new field on page", "sign existing field", "SetTitle", "SaveUpdate", "reload", "sign with attributes", "certify", "Save elsewhere" }; return o.k <= Op::SignOld || o.k == Op::Attr || o.k == Op::Cert ? vf::fmt("%s %zu of %zu", n[o.k], o.actual, o.reserve) : n[o.k]; }
enum Dev { DString, DBuffer, DFile, DShared };
struct Run { Start s; Dev dev; PdfSaveOptions opts; std::vector<Op> ops; int sub = 0; };
struct Where { size_t gap = 0, end = 0, total = 0; };
static PdfField* child(PdfDocument& d) { auto f = d.GetAcroForm(); if (!f) return nullptr; if (f->GetFieldCount() == 0) return nullptr; PdfField* r = &f->GetFieldAt(0); if (r->GetChildren().GetCount()) r = &r->GetChildren().GetFieldAt(0); return r; }
static bool history(const Run& r, Where* where = nullptr)
{
    static const std::pair<const char*, const char*> SUB[] = { { "adbe.pkcs7.detached", "Sig" }, { "ETSI.RFC3161", "DocTimeStamp" } };
    string bytes = startBytes(r.s.kind, r.s.pad), stage;
    std::vector<Done> done; string what; int n = 0; bool usedOld = false;
    std::unique_ptr<PdfMemDocument> d; charbuff buf; string file = C->scratch() + "/s.pdf";
    std::unique_ptr<string> sbuf; std::unique_ptr<StreamDevice> dev;
    auto content = [&]() -> string { if (r.dev == DString) return *sbuf; if (r.dev == DFile) { dev->Flush(); std::ifstream i(file, std::ios::binary); return string(std::istreambuf_iterator<char>(i), { }); } return string(buf.data(), buf.size()); };
    auto open = [&](const string& b) {
        dev.reset(); d.reset(); bytes = b; d.reset(new PdfMemDocument());
        if (r.dev == DString) { sbuf.reset(new string(b)); dev.reset(new StringStreamDevice(*sbuf, (DeviceAccess)0x3, false)); }
        else if (r.dev == DFile) { { std::ofstream o(file, std::ios::binary | std::ios::trunc); o << b; } dev.reset(new FileStreamDevice(file, FileMode::Open)); }
        else { buf = charbuff(b); dev.reset(new BufferStreamDevice(buf, (DeviceAccess)0x3, false)); }
        if (r.dev == DShared || r.dev == DFile) d->LoadFromDevice(std::shared_ptr<InputStreamDevice>(new SpanStreamDevice(bytes))); else d->LoadFromBuffer(bytes);
    };
    int e = vf::errorOf([&] { open(bytes); }, &what); if (e != -1) { C->fail("load", vf::fmt("start document, error %d: ", e) + what); return false; }
    string title; std::vector<string> unsaved;
    for (auto& o : r.ops)
    {
        C->transition(); string before = content(); stage = vf::fmt("after %d: ", ++n) + text(o);
        switch (o.k)
        {
            case Op::SignNew: case Op::SignPage: case Op::SignOld: case Op::Attr: case Op::Cert:
            {
                PdfSignature* sg = nullptr; string name = vf::fmt("sig%d", n);
                Signer s(o.reserve, o.actual, n, SUB[r.sub].first, SUB[r.sub].second);
                e = vf::errorOf([&] {
                    if (o.k == Op::SignOld) { auto f = child(*d); if (r.s.kind < 6 || !f || f->GetType() != PdfFieldType::Signature || usedOld) return; sg = static_cast<PdfSignature*>(f); name = "old"; usedOld = true; }
                    else if (o.k == Op::SignNew || o.k == Op::Attr) sg = &static_cast<PdfSignature&>(d->GetOrCreateAcroForm().CreateField(name, PdfFieldType::Signature));
                    else sg = &static_cast<PdfSignature&>(d->GetPages().GetPageAt(0).CreateField(name, PdfFieldType::Signature, PdfRect(1, 1, 5, 5)));
                    if (o.k == Op::Attr || o.k == Op::Cert) { sg->EnsureValueObject(); sg->SetSignerName(PdfString("Me")); sg->SetSignatureReason(PdfString("Why")); sg->SetSignatureLocation(PdfString("Here")); sg->SetSignatureCreator(PdfString("App")); sg->SetSignatureDate(PdfDate::LocalNow()); if (o.k == Op::Cert) sg->AddCertificationReference(PdfCertPermission::FormFill); }
                }, &what);
                if (e != -1) { C->fail("field", stage + vf::fmt(": no field, error %d: ", e) + what); return false; }
                if (!sg) break;
                e = vf::errorOf([&] { SignDocument(*d, *dev, s, *sg, r.opts); }, &what);
                string now = content();
                if (now.size() < before.size() || now.compare(0, before.size(), before) != 0) { C->fail("original-changed", stage + ": the bytes before the update changed"); return false; }
                if (o.actual > o.reserve) { if (e == -1) C->fail("too-big-accepted", stage + ": a signature bigger than the space was accepted"); return false; }
                if (e != -1) { C->fail("sign-failed", stage + vf::fmt(": error %d: ", e) + what); return false; }
                ref::File f; if (!readBack(now, f, r.s.kind, stage)) return false;
                int64_t num; ref::Val v; if (!find(f, name, num, v)) { C->fail("no-value", stage + ": the field has no value in the file"); return false; }
                auto br = v.get("ByteRange"), ct = v.get("Contents"), fi = v.get("Filter"), su = v.get("SubFilter"), ty = v.get("Type");
                if (!br || br->k != ref::Arr || br->a.size() != 4 || !ct || ct->k != ref::Str) { C->fail("value", stage + ": no byte range or contents: " + ref::show(v).substr(0, 200)); return false; }
                for (auto& x : br->a) if (x.k != ref::Int || x.i < 0) { C->fail("value", stage + ": byte range " + ref::show(*br)); return false; }
                if (!fi || fi->s != "Adobe.PPKLite" || !su || su->s != s.sub || !ty || ty->s != s.type) { C->fail("value", stage + ": filter, subfilter or type: " + ref::show(v).substr(0, 200)); return false; }
                size_t a = br->a[1].i, b = br->a[2].i, c = br->a[3].i;
                if (br->a[0].i != 0 || a > b || b + c != now.size()) { C->fail("range", stage + vf::fmt(": byte range %s of a file of %zu bytes", ref::show(*br).c_str(), now.size())); return false; }
                size_t lo = num > 0 ? f.objs[num].off : 0; if (a < before.size() || a < lo) { C->fail("range", stage + ": the gap is outside the update"); return false; }
                string val; try { val = decodeHex(now.substr(a, b - a)); } catch (const ref::Bad& x) { C->fail("gap", stage + ": " + x.what()); return false; }
                string want = s.given; want.resize(o.reserve); if (val != want) { C->fail("gap-value", stage + vf::fmt(": the gap holds %zu bytes ", val.size()) + vf::hexs(val.substr(0, 40)) + ", not the signature " + vf::hexs(want.substr(0, 40))); return false; }
                // the gap is the value of Contents of that object: it changes when the gap does
                if (num > 0 && o.reserve && o.reserve < 1000) { string alt = now; alt[a + 1] = alt[a + 1] == '1' ? '2' : '1'; auto g = ref::readFile(alt); auto p = g.objs.count(num) ? g.objs[num].v.get("Contents") : nullptr; auto f0 = ref::readFile(now); auto q = f0.objs[num].v.get("Contents"); if (!p || !q || p->s == q->s) { C->fail("gap-place", stage + ": the gap is not the value of Contents"); return false; } }
                string cov = now.substr(0, a) + now.substr(b);
                if (s.data != cov) { size_t i = 0; while (i < s.data.size() && i < cov.size() && s.data[i] == cov[i]) i++; C->fail("signed-data", stage + vf::fmt(": the signer was given %zu bytes, the ranges have %zu; they differ at %zu", s.data.size(), cov.size(), i)); return false; }
                if (s.log != "DRAC") { C->fail("protocol", stage + ": the calls of the signer were " + s.log); return false; }
                auto root = f.resolve(f.trailer.get("Root")); auto form = f.resolve(root->get("AcroForm")); auto fl = form->get("SigFlags");
                if (!fl || fl->i != 3 || form->get("NeedAppearances")) { C->fail("form", stage + ": the form is " + ref::show(*form).substr(0, 200)); return false; }
                if (o.k == Op::SignOld && r.s.kind == 6 && (!v.get("Reason") || v.get("Reason")->s != "because")) { C->fail("value", stage + ": an existing attribute is lost"); return false; }
                if (o.k == Op::Attr || o.k == Op::Cert) { auto p = v.get("Prop_Build"); p = p ? f.resolve(p)->get("App") : nullptr; p = p ? f.resolve(p)->get("Name") : nullptr; for (auto& [k, t] : { std::pair<const char*, const char*>{ "Name", "Me" }, { "Reason", "Why" }, { "Location", "Here" } }) if (!v.get(k) || v.get(k)->s != t) { C->fail("attribute", stage + ": " + k + " is not written"); return false; } if (!p || !v.get("M") || p->s != "App") { C->fail("attribute", stage + ": creator or date not written"); return false; } }
                if (o.k == Op::Cert) { auto p = f.resolve(root->get("Perms")); auto q = p ? p->get("DocMDP") : nullptr; auto rr = f.resolve(v.get("Reference")); auto r0 = rr && rr->a.size() == 1 ? f.resolve(&rr->a[0]) : nullptr; auto tp = r0 ? f.resolve(r0->get("TransformParams")) : nullptr; if (!q || q->k != ref::Ref || q->i != num || !tp || tp->num("P", 0) != 2) { C->fail("certification", stage + ": Perms or Reference are not written"); return false; } }
                done.push_back({ before.size(), a, b, now.size(), now, want, num, name });
                if (!keeps(now, done, r.s.kind, stage)) return false;
                if (where) *where = { a, b, now.size() };
                C->trace(); if (!title.empty()) { unsaved.clear(); }
                break;
            }
            case Op::Title: title = vf::fmt("t%d", n); e = vf::errorOf([&] { d->GetMetadata().SetTitle(PdfString(title), true); }, &what); if (e != -1) { C->fail("title", stage + ": " + what); return false; } break;
            case Op::Update:
                e = vf::errorOf([&] { d->SaveUpdate(*dev, r.opts); dev->Flush(); }, &what); if (e != -1) { C->fail("update", stage + vf::fmt(": error %d: ", e) + what); return false; }
                { string now = content(); if (now.size() < before.size() || now.compare(0, before.size(), before) != 0) { C->fail("original-changed", stage + ": the bytes before the update changed"); return false; } if (!keeps(now, done, r.s.kind, stage)) return false; } break;
            case Op::Reload: e = vf::errorOf([&] { string b = content(); open(b); }, &what); if (e != -1) { C->fail("reload", stage + vf::fmt(": error %d: ", e) + what); return false; } break;
            case Op::SaveAs:
            {
                string out; StringStreamDevice o2(out); e = vf::errorOf([&] { d->Save(o2, r.opts); }, &what); if (e != -1) { C->fail("save", stage + vf::fmt(": error %d: ", e) + what); return false; }
                ref::File f; if (!readBack(out, f, r.s.kind, stage)) return false;
                for (auto& s : done) { int64_t num; ref::Val v; if (!find(f, s.name, num, v)) { C->fail("save-value", stage + ": no value of the field " + s.name); return false; } auto br = v.get("ByteRange"), ct = v.get("Contents"); if (!br || !ct || br->k != ref::Arr || br->a.size() != 4 || br->a[1].i != (int64_t)s.gap || ct->k != ref::Str || (!f.encrypted && ct->s != s.value)) { C->fail("save-value", stage + ": the value of " + s.name + " is " + ref::show(v).substr(0, 200)); return false; } }
                break;
            }
        }
        C->outcome(vf::fmt("%zu %zu", done.size(), content().size()));
        C->state(vf::hash(text(o), vf::hash(vf::fmt("%d %zu %zu", r.s.kind, done.size(), content().size() % 65536))));
    }
    return true;
}
static string text(const Run& r) { string s = vf::fmt("%s, pad %zu, device %d, options %d, type %d:", KIND[r.s.kind], r.s.pad, (int)r.dev, (int)r.opts, r.sub); for (auto& o : r.ops) s += " " + text(o) + ","; return s; }
static void explore(vf::Ctx& c)
{
    C = &c; const auto NM = PdfSaveOptions::NoModifyDateUpdate;
    const size_t B = 65536;
    // placement of the gap's begin, end and of the end of file around the borders of the buffer
    for (int kind : { 0, 1, 3, 6 }) for (size_t reserve : { (size_t)0, (size_t)1, (size_t)20, (size_t)3000, B / 2 - 2, B / 2 - 1, B / 2, B - 1, B + 5 }) for (int what = 0; what < 3; what++) for (int k = 1; k <= (c.thorough ? 3 : 2); k++) for (int dl = -3; dl <= 3; dl++)
    {
        if (!c.thorough && (kind > 1) && reserve != 20 && reserve != B / 2 - 1) continue;
        if (!c.thorough && k == 2 && reserve != 20 && reserve != B / 2 - 1) continue;
        c.run("place", [&] { return vf::fmt("%s, %zu reserved, %s at %d*65536%+d", KIND[kind], reserve, what == 0 ? "begin of gap" : what == 1 ? "end of gap" : "end of file", k, dl); }, [&] {
            Run r{ { kind, 1000, 0 }, DString, NM, { { kind == 6 ? Op::SignOld : Op::SignNew, reserve, reserve } } };
            size_t target = (size_t)k * B + dl; bool hit = false;
            if (reserve * 2 + 2000 > target && what) target += (reserve * 2 / B + 1) * B;
            for (int round = 0; round < 12 && !hit; round++)
            {
                Where w; if (!history(r, &w)) return;
                size_t at = what == 0 ? w.gap : what == 1 ? w.end : w.total;
                if (at == target) hit = true; else { int64_t np = (int64_t)r.s.pad + (int64_t)target - (int64_t)at; if (np < 0) { target += B; np += B; } r.s.pad = (size_t)np; }
            }
            c.count(hit ? "placements reached" : "placements not reached");
            if (hit) { r.dev = DFile; history(r); if (reserve) { r.dev = DShared; r.ops[0].actual = reserve - 1; history(r); } }
        });
    }
    // sizes, devices, options, types
    for (int kind = 0; kind < NK; kind++) for (int dev = 0; dev < 4; dev++) for (auto opts : { NM, PdfSaveOptions::None, NM | PdfSaveOptions::NoCollectGarbage, NM | PdfSaveOptions::NoFlateCompress, NM | PdfSaveOptions::Clean }) for (int sub = 0; sub < 2; sub++) for (auto k : { Op::SignNew, Op::SignPage, Op::SignOld, Op::Attr, Op::Cert }) for (auto [res, act] : std::initializer_list<std::pair<size_t, size_t>>{ { 0, 0 }, { 1, 1 }, { 20, 0 }, { 20, 19 }, { 20, 20 }, { 20, 21 }, { 0, 1 }, { 5000, 4000 } })
    {
        if (!c.thorough && res != 20 && (dev || opts != NM || sub)) continue;
        Run r{ { kind, 10, 0 }, (Dev)dev, opts, { { k, res, act } }, sub };
        c.run("sizes", [&] { return text(r); }, [&] { history(r); });
    }
    // histories
    std::vector<Op> ops = { { Op::SignNew, 20, 20 }, { Op::SignPage, 30, 10 }, { Op::SignOld, 20, 20 }, { Op::Title }, { Op::Update }, { Op::Reload }, { Op::SaveAs } };
    for (unsigned depth = 2; depth <= (c.thorough ? 5u : 4u); depth++) for (int kind = 0; kind < NK; kind++)
    {
        if (depth == 5 && kind != 0 && kind != 3 && kind != 6) continue;
        if (depth == 4 && !c.thorough && kind != 0 && kind != 1 && kind != 3) continue;
        vf::sequences((unsigned)ops.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            Run r{ { kind, 10, 0 }, DString, NM, { } }; for (auto i : v) r.ops.push_back(ops[i]);
            c.run("history", [&] { return text(r); }, [&] { history(r); });
        });
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P29";
    cfg.rule = "all placements of the signature's gap and of the end of file within 3 bytes of the borders of the reading buffer, all sizes, devices, options, field and start document kinds of the lists, and all histories of signing, editing, updating and reloading up to a depth; a state is the file reached, a transition one operation, and every file is judged by an independent reader against what the signer was given";
    cfg.assumptions = { "signers with a fixed reserved size" };
    return vf::main(argc, argv, cfg, explore);
}
