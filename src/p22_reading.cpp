// P22: what is read does not depend on how it is read. All sequences of accesses,
// copies, changes and releases of memory over the objects of a family of files,
// in every way of loading them; the truth is what the file was built from.
#include "sec.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <pdfmm/base/PdfParser.h>
#include <pdfmm/base/PdfObjectStream.h>
using namespace mm; using namespace ref; using std::string;
static vf::Ctx* C;

struct Node { Val v; bool stream = false, packed = false; string data, raw; int g = 0; };
struct Doc { string name, bytes, pw; bool enc = false; std::map<int64_t, Node> o; };

static void encStrings(Val& v, const sec::Handler& h, int64_t n, int g, int& seed)
{
    if (v.k == Str) v.s = h.encrypt(v.s, n, g, seed++);
    for (auto& x : v.a) encStrings(x, h, n, g, seed);
    for (auto& x : v.m) encStrings(x.second, h, n, g, seed);
}
static string up(const string& s, size_t cols) // PNG "up" rows
{
    string r, prev(cols, 0);
    for (size_t i = 0; i < s.size(); i += cols) { string row = s.substr(i, cols); r += '\2'; for (size_t k = 0; k < row.size(); k++) r += char(row[k] - prev[k]); prev = row; prev.resize(cols); }
    return r;
}
enum { NDOC = 9, NMAIN = 7 };
// kind 0 table, 1 object streams, 2 RC4, 3 AES-128 with clear metadata, 4 AES-256 with object streams, 5 table with junk before the header and CR line ends, 6 two sections
// 7 and 8: 1 and 6 with junk before the header
static Doc make(int kind)
{
    bool junk = kind == 5 || kind >= 7; if (kind >= 7) kind = kind == 7 ? 1 : 6;
    static const char* names[] = { "table", "objstm", "rc4", "aes128", "aes256-objstm", "odd", "updated" };
    Doc d; d.name = string(names[kind]) + (junk && kind != 5 ? "-junk" : "");
    bool packed = kind == 1 || kind == 4;
    std::unique_ptr<sec::Handler> h;
    if (kind >= 2 && kind <= 4) { h.reset(new sec::Handler); h->V = kind == 2 ? 2 : kind == 3 ? 4 : 5; h->R = kind == 2 ? 3 : kind == 3 ? 4 : 6; h->n = kind == 4 ? 32 : 16; h->aes = kind >= 3; h->meta = kind != 3; h->P = 0xFFFFFFFC; h->id = "0123456789abcdef"; h->create("u", "o", 1); d.enc = true; d.pw = "u"; }
    auto& o = d.o;
    auto put = [&](int64_t n, Val v, int g = 0, bool pack = false) { Node x; x.v = v; x.g = packed ? 0 : g; x.packed = packed && pack; o[n] = x; };
    auto puts = [&](int64_t n, Val v, string data, string raw) { Node x; x.v = v; x.stream = true; x.data = data; x.raw = raw; o[n] = x; };
    put(10, Val::D({ { "A", Val::S("a string (nested) \xE4") }, { "B", Val::A({ Val::I(1), Val::R(2.5), Val::N("N"), Val::S("\x01\xFEhex", true) }) }, { "R", Val::Rf(11) }, { "Sub", Val::D({ { "S", Val::S("sub") } }) } }));
    put(11, Val::I(42), 0, true);
    put(12, Val::S("plain"));
    put(13, Val::A({ Val::Rf(12), Val::Rf(10), Val::S("(x)"), Val::Rf(99) }), 0, true);
    string d14 = "data with endstream endobj 1 0 obj inside\r\n"; puts(14, Val::D({ { "Length", Val::I(d14.size()) }, { "T", Val::S("t") } }), d14, d14);
    string d15; for (int i = 0; i < 700; i++) d15 += vf::fmt("%d,", i * i); string r15 = deflate(d15);
    puts(15, Val::D({ { "Length", Val::Rf(16) }, { "Filter", Val::Rf(17) } }), d15, r15);
    put(16, Val::I(r15.size()), 0, true); put(17, Val::N("FlateDecode"), 0, true);
    string d18; for (int i = 0; i < 40; i++) d18 += char(i * i); string z = deflate(up(d18, 4)), r18; for (unsigned char ch : z) r18 += vf::fmt("%02x", ch); r18 += ">";
    puts(18, Val::D({ { "Length", Val::Rf(21) }, { "Filter", Val::A({ Val::Rf(19), Val::N("FlateDecode") }) }, { "DecodeParms", Val::A({ Val(), Val::Rf(20) }) } }), d18, r18);
    put(19, Val::N("ASCIIHexDecode"), 0, true); put(20, Val::D({ { "Predictor", Val::I(12) }, { "Columns", Val::I(4) } }), 0, true); put(21, Val::I(r18.size()));
    put(22, Val());                                // "22 0 obj endobj"
    put(24, Val::D({ { "Gen", Val::S("generation") } }), 2);
    string d25 = "<?xpacket?> metadata"; puts(25, Val::D({ { "Type", Val::N("Metadata") }, { "Length", Val::I(d25.size()) }, { "Note", Val::S("note") } }), d25, d25);
    if (h && !h->meta) o[25].v.m["Filter"] = Val::A({ Val::N("Crypt") });
    if (kind == 2) o[16].v = o[16].v; // lengths stay as RC4 keeps them
    puts(26, Val::D({ { "Length", Val::I(0) } }), "", "");
    string d27(9000, 0); for (size_t i = 0; i < d27.size(); i++) d27[i] = char(i * i * 7 + i / 256); puts(27, Val::D({ { "Length", Val::I(d27.size()) } }), d27, d27);

    Builder b(kind == 5 ? string("%PDF-1.6\r") : packed ? string("%PDF-1.7\n") : string("%PDF-1.4\n"));
    int seed = 1; std::map<int64_t, XEnt> ents; ents[0] = { 'f', 0, 65535 };
    auto emit = [&](int64_t n, Val v, int g, bool plain = false) {
        if (h && !plain) encStrings(v, *h, n, g, seed);
        if (v.k == Null) { b.offs[n] = { b.out.size(), g }; b.out += vf::fmt("%ld %d obj\nendobj\n", (long)n, g); }
        else if (kind == 5) { b.offs[n] = { b.out.size(), g }; b.out += vf::fmt("%ld %d obj%% comment\r", (long)n, g) + write(v) + "\rendobj\r"; }
        else b.obj(n, v, g);
        ents[n] = { 'n', b.offs[n].first, g };
    };
    auto emits = [&](int64_t n, Node& x) {
        Val v = x.v; string raw = x.raw; bool clear = h && !h->meta && n == 25;
        if (h) { if (!clear) raw = h->encrypt(raw, n, x.g, seed++); encStrings(v, *h, n, x.g, seed); }
        Val& len = v.m["Length"]; if (len.k == Ref) o[len.i].v = Val::I(raw.size()); else { len = Val::I(raw.size()); x.v.m["Length"] = len; }
        b.offs[n] = { b.out.size(), x.g };
        b.out += vf::fmt("%ld %d obj\n", (long)n, x.g) + write(v) + (kind == 5 ? "\nstream\n" : "\nstream\r\n") + raw + (n == 26 ? "endstream\nendobj\n" : "\nendstream\nendobj\n");
        ents[n] = { 'n', b.offs[n].first, x.g };
    };
    Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) }, { "Metadata", Val::Rf(25) }, { "All", Val::A() } });
    for (auto& p : o) cat.m["All"].a.push_back(Val::Rf(p.first, p.second.g));
    emit(1, cat, 0); emit(2, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } }), 0);
    size_t prev = 0;
    Val tr = Val::D({ { "Root", Val::Rf(1) }, { "Size", Val::I(40) } });
    if (kind == 6)
    {   // superseded in the update: other values under the same numbers
        for (int64_t n : { 10, 12, 15, 16 }) { b.obj(n, Val::S("old")); ents[n] = { 'n', b.offs[n].first, 0 }; }
        ents[24] = { 'f', 0, 2 }; prev = b.xrefTable(tr, ents); b.startxref(prev); ents.clear(); tr.m["Prev"] = Val::I(prev);
    }
    for (auto& p : o) if (p.second.stream) emits(p.first, p.second);
    for (auto& p : o) if (!p.second.stream && !p.second.packed) emit(p.first, p.second.v, p.second.g);
    if (packed)
    {
        string head, body; int i = 0;
        for (auto& p : o) if (p.second.packed) { head += vf::fmt("%ld %zu ", (long)p.first, body.size()); body += write(p.second.v) + " "; ents[p.first] = { 'c', 30, i++ }; }
        Node s; s.stream = true; s.raw = deflate(head + body); s.v = Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(i) }, { "First", Val::I(head.size()) }, { "Filter", Val::N("FlateDecode") }, { "Length", Val::I(0) } });
        emits(30, s);
    }
    if (h) { emit(4, h->dict(), 0, true); tr.m["Encrypt"] = Val::Rf(4); tr.m["ID"] = Val::A({ Val::S(h->id, true), Val::S(h->id, true) }); }
    size_t x = packed ? b.xrefStream(31, tr, ents) : b.xrefTable(tr, ents);
    b.startxref(x);
    d.bytes = junk ? "some junk\n" + b.out : b.out;
    return d;
}
static const Doc& doc(int k) { static std::map<int, Doc> m; auto it = m.find(k); if (it == m.end()) it = m.emplace(k, make(k)).first; return it->second; }

struct Now { const Node* f; Val v; string data; bool own = false; /* data set by us */ };
struct World
{
    const Doc* d; std::unique_ptr<PdfMemDocument> doc, other; std::map<int64_t, Now> m; std::vector<std::unique_ptr<PdfObject>> copies; string at;
    PdfObject* get(int64_t n) { auto p = doc->GetObjects().GetObject(PdfReference((uint32_t)n, (uint16_t)d->o.at(n).g)); if (!p) C->fail("object-missing", at + vf::fmt(": object %ld", (long)n)); return p; }
};
static bool sameVal(const Now& m, Val a)
{
    Val b = m.v;
    if (m.own) for (auto k : { "Length", "Filter", "DecodeParms" }) { a.m.erase(k); b.m.erase(k); }
    return equal(a, b, false, true);
}
static void checkValue(const string& at, int64_t n, const Now& m, const PdfObject& o, const char* how)
{
    Val v = fromObject(o);
    if (!sameVal(m, v)) C->fail(string("value-") + how, at + vf::fmt(": object %ld reads as ", (long)n) + vf::esc(show(v)) + " instead of " + vf::esc(show(m.v)));
}
static void checkStream(const string& at, int64_t n, const Now& m, const PdfObject& o, const char* how)
{
    if (o.HasStream() != m.f->stream) { C->fail(string("has-stream-") + how, at + vf::fmt(": object %ld HasStream %d", (long)n, o.HasStream())); return; }
    if (!m.f->stream) return;
    auto got = o.GetStream()->GetCopy();
    if (string(got.data(), got.size()) != m.data) C->fail(string("stream-") + how, at + vf::fmt(": stream %ld gives %zu bytes instead of %zu: ", (long)n, got.size(), m.data.size()) + vf::esc(string(got.data(), got.size()), 60));
}
enum { V, D, W, H, I, CP, F, X, M, S, NOP };
static const char* ON[] = { "value", "stream", "raw", "has-stream", "interleave", "copy", "free", "force-free", "modify", "set-data" };
static bool changes(int k) { return k == M || k == S; }
static void apply(World& w, int k, int64_t n, int step)
{
    auto* po = w.get(n); if (!po) return; auto& o = *po; auto& m = w.m.at(n); const string& at = w.at;
    switch (k)
    {
        case V: checkValue(at, n, m, o, "read"); break;
        case D: checkStream(at, n, m, o, "read"); break;
        case W: if (m.f->stream && !m.own) { auto got = o.GetStream()->GetCopy(true); if (string(got.data(), got.size()) != m.f->raw) C->fail("raw", at + vf::fmt(": raw stream %ld has %zu bytes instead of %zu", (long)n, got.size(), m.f->raw.size())); } break;
        case H: if (o.HasStream() != m.f->stream) C->fail("has-stream", at); if (o.IsDictionary() != (m.v.k == Dict)) C->fail("type", at); break;
        case I:
            if (!m.f->stream) { auto it = w.m.upper_bound(n); if (it != w.m.end()) checkValue(at, it->first, it->second, *w.get(it->first), "read"); checkValue(at, n, m, o, "read"); break; }
            {
                auto in = o.GetStream()->GetInputStream(); string got; char buf[7000];
                bool eof = false; size_t r = in.Read(buf, std::min<size_t>(3, m.data.size()), eof); got.append(buf, r);
                for (auto& p : w.m) if (p.first != n) { auto q = w.get(p.first); if (!q) return; checkValue(at, p.first, p.second, *q, "between"); checkStream(at, p.first, p.second, *q, "between"); }
                for (int i = 0; i < 10 && !eof; i++) { r = in.Read(buf, sizeof(buf), eof); got.append(buf, r); }
                if (got != m.data) C->fail("stream-interleaved", at + vf::fmt(": stream %ld gives %zu bytes instead of %zu", (long)n, got.size(), m.data.size()));
            }
            break;
        case CP: { PdfObject c(o); Now mc = m; mc.own |= m.f->stream; checkValue(at, n, mc, c, "copy"); checkStream(at, n, m, c, "copy"); w.copies.emplace_back(new PdfObject(o)); break; }
        case F: case X:
        {
            string what; int err = vf::errorOf([&] { w.doc->FreeObjectMemory(o.GetIndirectReference(), k == X); }, &what);
            if (m.f->packed) { if (err != (int)PdfErrorCode::InvalidHandle) C->fail("free-packed", at + vf::fmt(": error %d instead of InvalidHandle for an object in an object stream", err)); break; }
            if (err != -1) C->fail("free-error", at + vf::fmt(": error %d ", err) + what);
            if (k == X) { m.v = m.f->v; m.data = m.f->data; m.own = false; }
            break;
        }
        case M:
            if (m.v.k == Dict) { o.GetDictionary().AddKey("Mod", (int64_t)step); m.v.m["Mod"] = Val::I(step); }
            else if (m.v.k == Arr) { o.GetArray().Add(PdfObject((int64_t)step)); m.v.a.push_back(Val::I(step)); }
            break;
        case S: if (m.f->stream) { string t = vf::fmt("new data %d", step); o.GetStream()->SetData(t, step % 2 == 0); m.data = t; m.own = true; if (step % 2 == 0) { o.GetDictionary().RemoveKey("Filter"); o.GetDictionary().RemoveKey("DecodeParms"); } } break;
    }
}
static void verifyAll(World& w, const char* how)
{
    for (auto& p : w.m) { auto q = w.get(p.first); if (!q) return; checkValue(w.at, p.first, p.second, *q, how); checkStream(w.at, p.first, p.second, *q, how); }
}
static World open(const Doc& d, std::shared_ptr<InputStreamDevice> dev = nullptr)
{
    World w; w.d = &d; w.doc.reset(new PdfMemDocument());
    if (dev) w.doc->LoadFromDevice(dev, d.pw); else w.doc->LoadFromBuffer({ d.bytes.data(), d.bytes.size() }, d.pw);
    for (auto& p : d.o) { Now n; n.f = &p.second; n.v = p.second.v; n.data = p.second.data; w.m[p.first] = n; }
    return w;
}
// What a document read back from bytes has must be what the model says
static void compareSaved(const string& at, const World& w, PdfMemDocument& r, const char* how)
{
    for (auto& p : w.m)
    {
        auto q = r.GetObjects().GetObject(PdfReference((uint32_t)p.first, (uint16_t)w.d->o.at(p.first).g));
        if (!q) { if (p.second.v.k != Null) C->fail(string("object-missing-") + how, at + vf::fmt(": object %ld", (long)p.first)); continue; }
        Now m = p.second; Val v = fromObject(*q);
        if (m.f->stream) m.own = true;
        if (!(sameVal(m, v) || (m.v.k == Int && p.second.f->v.k == Int && (p.first == 16 || p.first == 21)))) C->fail(string("value-") + how, at + vf::fmt(": object %ld is ", (long)p.first) + vf::esc(show(v)) + " instead of " + vf::esc(show(m.v)));
        checkStream(at, p.first, m, *q, how);
    }
}
typedef std::vector<std::pair<int, int64_t>> Hist;
static string nameHist(const Hist& h) { string s; for (auto& p : h) s += vf::fmt(" %s(%ld)", ON[p.first], (long)p.second); return s; }
// end: 0 verify, 1 save, 2 copy the document, 3 update, 4 verify backwards
static void history(int kind, const Hist& h, int end)
{
    auto& d = doc(kind); C->trace();
    string what;
    int err = vf::errorOf([&] {
        World w = open(d); int step = 0;
        for (auto& p : h) { w.at = vf::fmt("step %d %s(%ld)", step, ON[p.first], (long)p.second); C->transition(); apply(w, p.first, p.second, step++); if (C->failed()) return; }
        string st = d.name; for (auto& p : w.m) st += "|" + show(p.second.v) + (p.second.own ? p.second.data : ""); for (auto& p : h) if (p.first == F || p.first == X) st += vf::fmt("f%ld", (long)p.second); C->state(st);
        w.at = "at the end";
        if (end == 1 || end == 3)
        {
            charbuff out; StringStreamDevice dev(out);
            if (end == 1) w.doc->Save(dev, PdfSaveOptions::NoCollectGarbage); else { dev.Write(d.bytes); w.doc->SaveUpdate(dev); }
            if (end == 3 && out.size() < d.bytes.size()) { C->fail("update-short", "nothing appended"); return; }
            PdfMemDocument r; r.LoadFromBuffer({ out.data(), out.size() }, d.pw);
            compareSaved("saved", w, r, end == 1 ? "saved" : "updated");
            if (C->failed()) return;
            w.at = "after saving"; for (auto& p : w.m) if (p.second.f->stream) p.second.own = true;
            verifyAll(w, "after-save");
        }
        else if (end == 2)
        {
            PdfMemDocument r(*w.doc); compareSaved("copied document", w, r, "document-copy"); if (C->failed()) return;
            w.doc.reset(); compareSaved("copied document after the source was destroyed", w, r, "document-copy");
        }
        else if (end == 4) { for (auto it = w.m.rbegin(); it != w.m.rend(); ++it) { auto q = w.get(it->first); if (!q) return; checkStream(w.at, it->first, it->second, *q, "end"); checkValue(w.at, it->first, it->second, *q, "end"); } }
        else verifyAll(w, "end");
        // copies made on the way keep what they had
    }, &what);
    if (err != -1) C->fail("error", vf::fmt("%s: error %d ", d.name.c_str(), err) + what);
}

struct Slow : InputStreamDevice      // a device that gives one byte at a time from its buffers
{
    SpanStreamDevice in; Slow(const string& s) : in(std::string_view(s)) { SetAccess(DeviceAccess::Read); }
    size_t GetLength() const override { return in.GetLength(); }
    size_t GetPosition() const override { return in.GetPosition(); }
    bool Eof() const override { return in.Eof(); }
    bool CanSeek() const override { return true; }
protected:
    bool peek(char& ch) const override { return in.Peek(ch); }
    size_t readBuffer(char* b, size_t n, bool& eof) override { return in.Read(b, n, eof); }
    bool readChar(char& ch) override { return in.Read(ch); }
    void seek(ssize_t o, SeekDirection d) override { in.Seek(o, d); }
};
static const char* LN[] = { "buffer", "path", "file-device", "istream", "iostream", "string-device", "vector-device", "own-device", "buffer-device", "ctor", "parser", "parser-on-demand", "reloaded" };
enum { NLOAD = sizeof(LN) / sizeof(*LN) };
// both: two documents on the same device
static void loadMode(int kind, int mode, size_t pos, bool backwards, bool both)
{
    auto& d = doc(kind); C->trace(); string what;
    static std::vector<std::unique_ptr<std::stringstream>> keep; keep.clear();
    int err = vf::errorOf([&] {
        std::shared_ptr<InputStreamDevice> dev; string path = C->scratch() + "/in.pdf"; std::vector<char> vec; charbuff buf; string str = d.bytes;
        if (mode == 1 || mode == 2) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << d.bytes; }
        World w; w.d = &d; w.doc.reset(new PdfMemDocument()); std::unique_ptr<PdfParser> parser;
        for (auto& p : d.o) { Now n; n.f = &p.second; n.v = p.second.v; n.data = p.second.data; w.m[p.first] = n; }
        switch (mode)
        {
            case 2: dev.reset(new FileStreamDevice(path)); break;
            case 3: keep.emplace_back(new std::stringstream(d.bytes)); dev.reset(new StandardStreamDevice((std::istream&)*keep.back())); break;
            case 4: keep.emplace_back(new std::stringstream(d.bytes)); dev.reset(new StandardStreamDevice(*keep.back())); break;
            case 5: dev.reset(new StringStreamDevice(str)); break;
            case 6: vec.assign(d.bytes.begin(), d.bytes.end()); dev.reset(new VectorStreamDevice(vec)); break;
            case 7: dev.reset(new Slow(d.bytes)); break;
            case 8: buf.assign(d.bytes.data(), d.bytes.size()); dev.reset(new BufferStreamDevice(buf)); break;
            case 0: case 1: break;
            default: dev.reset(new SpanStreamDevice(std::string_view(d.bytes))); break;
        }
        if (dev && pos) { if (pos == 1) dev->Seek(0, SeekDirection::End); else dev->Seek(std::min<size_t>(pos, d.bytes.size())); }
        if (mode == 0) w.doc->LoadFromBuffer({ d.bytes.data(), d.bytes.size() }, d.pw);
        else if (mode == 1) w.doc->Load(path, d.pw);
        else if (mode == 9) w.doc.reset(new PdfMemDocument(dev, d.pw));
        else if (mode == 10 || mode == 11) { parser.reset(new PdfParser(w.doc->GetObjects())); parser->SetPassword(d.pw); parser->Parse(*dev, mode == 11); }
        else if (mode == 12) { auto& e = doc((kind + 1) % NDOC); w.doc->LoadFromBuffer({ e.bytes.data(), e.bytes.size() }, e.pw); for (PdfObject* o : w.doc->GetObjects()) (void)o->HasStream(); w.doc->LoadFromDevice(dev, d.pw); }
        else w.doc->LoadFromDevice(dev, d.pw);
        w.at = LN[mode];
        if (mode == 10 && dev) { // all was read: the device is no longer needed
            if (dynamic_cast<SpanStreamDevice*>(dev.get())) dev->Seek(0, SeekDirection::End); }
        std::unique_ptr<PdfMemDocument> second;
        if (both && dev) { second.reset(new PdfMemDocument()); second->LoadFromDevice(dev, d.pw); }
        World w2; if (second) { w2.d = &d; w2.m = w.m; w2.doc = std::move(second); w2.at = "second document"; }
        auto one = [&](int64_t n) { for (World* x : { &w, &w2 }) { if (!x->doc) continue; auto q = x->get(n); if (!q) return; checkValue(x->at, n, x->m.at(n), *q, "load"); checkStream(x->at, n, x->m.at(n), *q, "load"); } C->transition(); };
        if (backwards) for (auto it = w.m.rbegin(); it != w.m.rend(); ++it) one(it->first); else for (auto& p : w.m) one(p.first);
        if (mode == 10) { /* all objects were read at once: all must be there and nothing pending */ }
        C->state(vf::fmt("%d %d %zu %d %d", kind, mode, pos, backwards, both));
        if (w2.doc) { w.doc.reset(); for (auto& p : w2.m) { auto q = w2.get(p.first); if (q) checkValue("after the other document was destroyed", p.first, p.second, *q, "load"); } }
    }, &what);
    if (err != -1) C->fail("load-error", vf::fmt("%s via %s: error %d ", d.name.c_str(), LN[mode], err) + what);
}
static void explore(vf::Ctx& c)
{
    C = &c;
    for (int k = 0; k < NDOC; k++) for (int m = 0; m < NLOAD; m++) for (size_t pos : { 0, 1, 7, 500 }) for (int bw = 0; bw < 2; bw++) for (int two = 0; two < 2; two++)
        c.run("load", [&] { return vf::fmt("%s via %s, device at %zu, %s, %s", doc(k).name.c_str(), LN[m], pos, bw ? "backwards" : "forwards", two ? "two documents" : "one"); }, [&] { loadMode(k, m, pos, bw, two); });
    auto seqs = [&](const char* tag, int k, const std::vector<int>& ops, const std::vector<int64_t>& objs, unsigned depth, int end) {
        std::vector<std::pair<int, int64_t>> al; auto& d = doc(k);
        for (int o : ops) for (auto n : objs) { bool st = d.o.at(n).stream; if ((o == W || o == S) && !st) continue; if (o == W && d.enc) continue; if (o == M && d.o.at(n).v.k == Str) continue; al.push_back({ o, n }); }
        vf::sequences((unsigned)al.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            Hist h; for (auto i : v) h.push_back(al[i]);
            c.run(tag, [&] { return doc(k).name + ":" + nameHist(h) + vf::fmt(" end %d", end); }, [&] { history(k, h, end); });
        });
    };
    std::vector<int> all{ V, D, W, H, I, CP, F, X, M, S }, read{ V, D, I, F }, core{ D, F, X, M, S };
    std::vector<int64_t> objs{ 10, 12, 13, 14, 15, 18, 22, 24, 25 }, few{ 10, 15, 18, 16, 25 }, every; for (auto& p : doc(0).o) every.push_back(p.first);
    for (int k = 0; k < NDOC; k++)
    {
        for (int e = 0; e < 5; e++) { seqs("short", k, all, every, 0, e); seqs("short", k, all, every, 1, e); if (k < NMAIN) seqs("short", k, all, e == 0 ? every : objs, 2, e); }
        if (k >= NMAIN) continue;
        seqs("read", k, read, few, 3, 0);
        seqs("change", k, core, { 10, 15, 25 }, c.thorough || k < 2 ? 4 : 3, 0);
        seqs("change", k, core, { 15, 18 }, c.thorough ? 4 : 3, 1);
        if (c.thorough) { seqs("deep", k, all, objs, 3, 0); seqs("deep", k, all, objs, 3, 1); seqs("read", k, read, few, 4, 0); }
    }
    // every order of first reading
    std::vector<int64_t> perm{ 10, 13, 15, 16, 17, 18, 27 }; std::sort(perm.begin(), perm.end());
    for (int k = 0; k < NMAIN; k++) { auto p = perm; do { if (!c.mine()) { c.skip(); continue; } Hist h; for (auto n : p) h.push_back({ doc(k).o.at(n).stream ? D : V, n }); c.run("order", [&] { return doc(k).name + ":" + nameHist(h); }, [&] { history(k, h, 4); }); } while (std::next_permutation(p.begin(), p.end())); }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P22";
    cfg.rule = "all sequences up to a depth of reading values, streams and raw streams, interleaved stream reads, copies, memory releases and changes over the objects of a family of files, then verification, saving, updating or copying of the document; all ways of loading; all orders of first reading. A state is the model's content plus what was released; every value and stream is compared with what the file was built from";
    cfg.assumptions = { "a stream is not released while an input stream on it is open" };
    return vf::main(argc, argv, cfg, explore);
}
