// P21: failed writes surface as errors and harm nothing. A failure is injected at
// every write call and at every byte of a save or update, then the document is
// compared with its state before and saved again.
#include "sec.h"
#include <fstream>
#include <memory>
#include <tuple>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>
#include <signal.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <pdfmm/base/PdfObjectStream.h>
#include <pdfmm/base/PdfFilter.h>
using namespace mm; using namespace ref; using std::string;
static vf::Ctx* C;

struct Fault { int mode = 0; size_t at = 0; };     // 0 none, 1 nth call once, 2 all calls from the nth, 3 capacity in bytes, 4 nth call with another exception, 5 flush, 6 nth position query, 7 nth call after writing half of it
struct Sink : OutputStreamDevice
{
    string& out; Fault f; size_t pos = 0, calls = 0, queries = 0, flushes = 0; bool hit = false;
    Sink(string& o, Fault f) : OutputStreamDevice(true), out(o), f(f) { SetAccess(DeviceAccess::Write); pos = out.size(); }
    size_t GetLength() const override { return out.size(); }
    size_t GetPosition() const override { auto t = const_cast<Sink*>(this); if (f.mode == 6 && t->queries++ == f.at) { t->hit = true; PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "injected"); } return pos; }
    bool Eof() const override { return pos >= out.size(); }
    bool CanSeek() const override { return true; }
protected:
    void put(const char* b, size_t n) { if (pos + n > out.size()) out.resize(pos + n); out.replace(pos, n, b, n); pos += n; }
    void writeBuffer(const char* b, size_t n) override
    {
        size_t k = calls++;
        if (n == 0) return;
        if (f.mode == 3) { size_t room = f.at > pos ? f.at - pos : 0; if (n > room) { put(b, room); hit = true; PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "injected: full"); } }
        else if ((f.mode == 1 && k == f.at) || (f.mode == 2 && k >= f.at)) { hit = true; PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "injected"); }
        else if (f.mode == 4 && k == f.at) { hit = true; throw std::runtime_error("injected"); }
        else if (f.mode == 7 && k == f.at) { put(b, n / 2); hit = true; PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "injected"); }
        put(b, n);
    }
    void flush() override { if (f.mode == 5) { hit = true; PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "injected"); } flushes++; }
    void seek(ssize_t o, SeekDirection d) override { pos = d == SeekDirection::End ? out.size() + o : d == SeekDirection::Begin ? (size_t)o : pos + o; }
};
// a standard stream with limited capacity; error: flush fails instead
struct Buf : std::streambuf
{
    string out; size_t cap; char b[64]; Buf(size_t c) : cap(c) { setp(b, b + sizeof b); }
    bool drain() { size_t n = pptr() - pbase(), room = cap > out.size() ? cap - out.size() : 0; out.append(pbase(), std::min(n, room)); bool ok = n <= room; setp(b, b + sizeof b); return ok; }
    int overflow(int c) override { if (!drain()) return EOF; if (c != EOF) { *pptr() = (char)c; pbump(1); } return c == EOF ? 0 : c; }
    int sync() override { return drain() ? 0 : -1; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { if (!drain()) return -1; if (d == std::ios_base::beg && (size_t)o != out.size()) return -1; return (off_type)out.size(); }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(p, std::ios_base::beg, m); }
};

enum { NDOC = 9 };
static const char* DN[] = { "new", "loaded", "loaded-xrefstream", "new-rc4", "new-aes256", "loaded-aes128", "edited", "new-updated", "loaded-version" };
static string plainFile(bool xs)
{
    Builder b(xs ? "%PDF-1.5\n" : "%PDF-1.4\n");
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) }, { "U", Val::A({ Val::Rf(5), Val::Rf(7, xs ? 0 : 3), Val::S("str") }) } }));
    b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(1) }, { "Kids", Val::A({ Val::Rf(3) }) } }));
    b.obj(3, Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(2) }, { "MediaBox", Val::A({ Val::I(0), Val::I(0), Val::I(9), Val::I(9) }) }, { "Contents", Val::Rf(4) } }));
    b.stream(4, Val::D(), "q 1 0 0 1 0 0 cm Q some contents to be compressed, compressed, compressed");
    string z = deflate(string(300, 'z')); b.stream(5, Val::D({ { "Filter", Val::N("FlateDecode") } }), z);
    b.obj(7, Val::D({ { "S", Val::S("another string") } }), xs ? 0 : 3);
    b.obj(8, Val::S("unreachable"));
    b.obj(9, Val::D({ { "Producer", Val::S("p") } }));
    Val t = Val::D({ { "Root", Val::Rf(1) }, { "Info", Val::Rf(9) } });
    size_t x;
    if (xs) { std::map<int64_t, XEnt> e; e[0] = { 'f', 6, 65535 }; e[6] = { 'f', 0, 1 }; for (auto& o : b.offs) e[o.first] = { 'n', o.second.first, o.second.second }; x = b.xrefStream(10, t, e); }
    else x = b.xrefTableAuto(t);
    b.startxref(x); return b.out;
}
struct Env { std::unique_ptr<PdfMemDocument> doc; string base, pw; bool canUpdate = false; };
static string save(PdfMemDocument& d, PdfSaveOptions o) { charbuff b; StringStreamDevice dev(b); d.Save(dev, o); return string(b.data(), b.size()); }
static void fill(PdfMemDocument& d)
{
    auto& p = d.GetPages().CreatePage(PdfRect(0, 0, 10, 10));
    auto& o = d.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream().SetData(string("uncompressed stream data, data, data, data, data"), true);
    p.GetDictionary().AddKey("Contents", o.GetIndirectReference());
    auto& s = d.GetObjects().CreateDictionaryObject(); s.GetDictionary().AddKey("S", PdfString("a string")); s.GetDictionary().AddKey("A", PdfArray());
    d.GetCatalog().GetDictionary().AddKey("U", s.GetIndirectReference());
    auto& u = d.GetObjects().CreateDictionaryObject(); u.GetDictionary().AddKey("Unreachable", true);
}
static Env make(int k)
{
    static std::map<int, string> cache; Env e; e.doc.reset(new PdfMemDocument()); auto& d = *e.doc;
    auto load = [&](const std::function<string()>& f) { auto& c = cache[k]; if (c.empty()) c = f(); e.base = c; d.LoadFromBuffer({ c.data(), c.size() }, e.pw); e.canUpdate = true; };
    switch (k)
    {
        case 0: fill(d); break;
        case 1: load([] { return plainFile(false); }); break;
        case 2: load([] { return plainFile(true); }); break;
        case 3: fill(d); d.SetEncrypted("u", "o", PdfPermissions::Default, PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128); e.pw = "u"; break;
        case 4: fill(d); d.SetEncrypted("u", "o", PdfPermissions::Default, PdfEncryptAlgorithm::AESV3, PdfKeyLength::L256); e.pw = "u"; break;
        case 5: e.pw = "u"; load([] { PdfMemDocument x; fill(x); x.SetEncrypted("u", "o", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128); return save(x, PdfSaveOptions::None); }); d.GetCatalog().GetDictionary().AddKey("Edit", PdfString("edited")); break;
        case 6: load([] { return plainFile(false); }); d.GetCatalog().GetDictionary().AddKey("Edit", PdfString("edited")); d.GetObjects().MustGetObject(PdfReference(4, 0)).GetOrCreateStream().SetData(string(2000, 'x') + "edited contents", true); d.GetObjects().RemoveObject(PdfReference(8, 0)); { auto& o = d.GetObjects().CreateDictionaryObject(); d.GetCatalog().GetDictionary().AddKey("New", o.GetIndirectReference()); } break;
        case 7: load([] { PdfMemDocument x; fill(x); string s = save(x, PdfSaveOptions::None); PdfMemDocument y; y.LoadFromBuffer({ s.data(), s.size() }); y.GetCatalog().GetDictionary().AddKey("K", (int64_t)1); charbuff b; StringStreamDevice dev(b); dev.Write(s); y.SaveUpdate(dev); return string(b.data(), b.size()); }); d.GetPages().CreatePage(PdfRect(0, 0, 10, 10)); break;
        case 8: load([] { return plainFile(false); }); d.GetMetadata().SetPdfVersion(PdfVersion::V1_7); break;
    }
    return e;
}
// All that a document holds, dates and identifiers aside
static string snapshot(PdfMemDocument& d, bool refs = true)
{
    string s; auto& t = d.GetTrailer().GetDictionary(); PdfReference info = t.HasKey("Info") && t.GetKey("Info")->IsReference() ? t.GetKey("Info")->GetReference() : PdfReference();
    for (PdfObject* o : d.GetObjects())
    {
        if (!refs && o->IsDictionary() && o->GetDictionary().HasKey("Type") && o->GetDictionary().MustFindKey("Type").IsName() && o->GetDictionary().MustFindKey("Type").GetName() == "XRef") continue;
        if (!refs && o->IsDictionary() && o->GetDictionary().HasKey("StmF")) continue;
        Val v = fromObject(*o);
        if (!refs && o->IsDictionary() && v.get("O") && v.get("U") && v.get("P") && v.get("V")) continue;   // the Encrypt dictionary as read back
        if (o->HasStream()) for (auto k : { "Length", "Filter", "DecodeParms" }) v.m.erase(k);
        if (o->GetIndirectReference() == info) for (auto k : { "ModDate", "CreationDate", "Producer" }) v.m.erase(k);
        if (o->IsDictionary() && v.get("Type") && v.get("Type")->s == "Metadata") { s += "[xmp]"; continue; }
        s += vf::fmt("[%u %u ", o->GetIndirectReference().ObjectNumber(), o->GetIndirectReference().GenerationNumber()) + show(v);
        if (o->HasStream()) { auto c = o->GetStream()->GetCopy(); s += " stream " + string(c.data(), c.size()); }
        s += "]";
    }
    Val tr = fromObject(d.GetTrailer().GetObject()); for (auto k : { "ID", "Prev", "Size", "Encrypt", "XRefStm", "Index", "W", "Type", "Length", "Filter" }) tr.m.erase(k);
    s += "trailer " + show(tr);
    if (refs) s += d.GetEncrypt() ? "encrypted" : "plain";
    return s;
}
// after: how to go on; 0 save, 1 the same operation again, 2 edit and save, 3 fail again then save
static void fault(int k, bool update, PdfSaveOptions opt, Fault f, int after, Fault f2)
{
    C->trace();
    Env e = make(k); auto& d = *e.doc; string what;
    auto attempt = [&](Fault ff, string& out) { out = update ? e.base : ""; Sink s(out, ff); bool hit = false; int err;
        try { what.clear(); err = vf::errorOf([&] { try { if (update) d.SaveUpdate(s, opt); else d.Save(s, opt); } catch (...) { hit = s.hit; throw; } hit = s.hit; }, &what); } catch (std::runtime_error&) { err = 1000; }
        return std::make_pair(hit, err); };
    // garbage is collected and dates are set before anything is written
    int pre = vf::errorOf([&] { if ((opt & PdfSaveOptions::NoCollectGarbage) == PdfSaveOptions::None) d.CollectGarbage(); }, &what);
    if (pre != -1) { C->fail("collect", what); return; }
    string before = snapshot(d), out;
    auto r = attempt(f, out);
    C->transition();
    if (!r.first) { C->count("fault-not-reached"); if (r.second != -1) C->fail("spurious-error", vf::fmt("error %d without a fault: ", r.second) + what); return; }
    if (r.second == -1) { C->fail("reported-success", vf::fmt("the device failed (mode %d at %zu) but the operation returned", f.mode, f.at)); return; }
    string now = snapshot(d);
    // the update may have set the version in the catalog
    auto norm = [](string s) { for (;;) { auto p = s.find("/Version "); if (p == string::npos) break; s.erase(p, s.find(' ', p + 9) + 1 - p); } return s; };
    auto same = [&](const string& a, const string& b, const char* sig) { auto x = norm(a), y = norm(b); if (x != y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; size_t j = i > 60 ? i - 60 : 0; C->fail(sig, "differs at: " + vf::esc(y.substr(j, 160)) + " was " + vf::esc(x.substr(j, 160))); } };
    same(before, now, "document-changed"); if (C->failed()) return;
    C->state(vf::fmt("%d %d %d %d %zu", k, update, (int)opt, f.mode, f.at));
    if (after == 3) { auto r2 = attempt(f2, out); if (r2.first && r2.second == -1) { C->fail("reported-success-second", ""); return; } same(before, snapshot(d), "document-changed-second"); if (C->failed()) return; C->transition(); }
    if (after == 2) { d.GetCatalog().GetDictionary().AddKey("After", PdfString("failure")); PdfArray arr; arr.Add(PdfString("x")); d.GetPages().GetPageAt(0).GetDictionary().AddKey("AfterRef", arr); before = snapshot(d); }
    int err;
    bool up = update && after != 0;
    err = vf::errorOf([&] { out = up ? e.base : ""; Sink s(out, Fault()); if (up) d.SaveUpdate(s, opt); else d.Save(s, opt); }, &what);
    if (err != -1) { C->fail("resave-failed", vf::fmt("error %d ", err) + what); return; }
    C->transition();
    auto file = readFile(out);
    if (file.problems.size()) { C->fail("resaved-file", file.problems[0]); return; }
    PdfMemDocument re;
    if ((err = vf::errorOf([&] { re.LoadFromBuffer({ out.data(), out.size() }, e.pw); }, &what)) != -1) { C->fail("reload-failed", vf::fmt("error %d ", err) + what); return; }
    // compare with what an undisturbed document saves
    string want, got = snapshot(re, false);
    {
        Env g = make(k); auto& gd = *g.doc; if ((opt & PdfSaveOptions::NoCollectGarbage) == PdfSaveOptions::None) gd.CollectGarbage();
        if (after == 2) { gd.GetCatalog().GetDictionary().AddKey("After", PdfString("failure")); PdfArray arr; arr.Add(PdfString("x")); gd.GetPages().GetPageAt(0).GetDictionary().AddKey("AfterRef", arr); }
        string gout = up ? g.base : ""; Sink s(gout, Fault()); if (up) gd.SaveUpdate(s, opt); else gd.Save(s, opt);
        PdfMemDocument gre; gre.LoadFromBuffer({ gout.data(), gout.size() }, g.pw); want = snapshot(gre, false);
    }
    same(want, got, "resaved-content");
}
// Bounds of the calls and bytes of each save and update, somewhat larger than the largest: salts and identifiers are
// random and vary in length, and the cases have to be the same for all workers; faults out of reach are counted
static void calls(int k, bool update, PdfSaveOptions opt, size_t& n, size_t& bytes, size_t& queries)
{
    static const size_t N[][2] = { { 300, 0 }, { 280, 110 }, { 350, 140 }, { 430, 0 }, { 680, 0 }, { 630, 440 }, { 290, 170 }, { 360, 210 }, { 280, 140 } };
    static const size_t B[][2] = { { 860, 0 }, { 940, 1110 }, { 1160, 1100 }, { 1110, 0 }, { 1570, 0 }, { 1360, 2060 }, { 940, 1370 }, { 940, 1560 }, { 940, 1210 } };
    n = N[k][update]; bytes = B[k][update] + (k == 6 && (opt & PdfSaveOptions::NoFlateCompress) != PdfSaveOptions::None ? 1900 : 0); queries = 10;
}
static const PdfSaveOptions OPT[] = { PdfSaveOptions::None, PdfSaveOptions::NoModifyDateUpdate, PdfSaveOptions::NoFlateCompress | PdfSaveOptions::NoModifyDateUpdate, PdfSaveOptions::Clean | PdfSaveOptions::NoCollectGarbage | PdfSaveOptions::NoModifyDateUpdate };
static bool skipped(int k, int up) { return up && k != 1 && k != 2 && k < 5; }
static void explore(vf::Ctx& c)
{
    C = &c;
    for (int k = 0; k < NDOC; k++) for (int up = 0; up < 2; up++)
    {
        if (skipped(k, up)) continue;
        for (auto opt : OPT)
        {
            size_t n, bytes, q; calls(k, up, opt, n, bytes, q);
            bool deep = opt == OPT[1] || c.thorough;
            auto one = [&](const char* tag, Fault f, int after, Fault f2 = {}) { if (!c.mine()) { c.skip(); return; } c.run(tag, [&] { return vf::fmt("%s %s options %d, fault mode %d at %zu, then %d (mode %d at %zu)", DN[k], up ? "update" : "save", (int)opt, f.mode, f.at, after, f2.mode, f2.at); }, [&] { fault(k, up, opt, f, after, f2); }); };
            // a change in the length of dates or identifiers may move the end a little
            for (int after = 0; after < 3; after++)
            {
                for (size_t i = 0; i < n + 8; i++) for (int m : { 1, 2, 4, 7 }) if (m == 1 || deep || after == 0) one("call", { m, i }, after);
                for (size_t i = 0; i < q + 4; i++) one("position", { 6, i }, after);
                one("flush", { 5, 0 }, after);
                static const size_t FROM[] = { 0, 840, 880, 0, 0, 1180, 840, 1130, 840 }; size_t from = up ? FROM[k] : 0;
                if (after == 0 || c.thorough) for (size_t i = from; i < bytes; i += deep ? 1 : 7) one("byte", { 3, i }, after);
            }
            if (opt == OPT[1]) for (size_t i = 0; i < n; i += c.thorough ? 1 : 3) for (size_t j = 0; j < n; j += c.thorough ? 1 : 5) one("twice", { 1, i }, 3, { c.thorough ? 2 : 4, j });
        }
    }
    // real files and standard streams
    for (int k = 0; k < NDOC; k++) for (int up = 0; up < 2; up++)
    {
        if (skipped(k, up)) continue;
        size_t n, bytes, q; calls(k, up, OPT[1], n, bytes, q);
        c.run("dev-full", [&] { return vf::fmt("%s %s to /dev/full", DN[k], up ? "update" : "save"); }, [&] {
            Env e = make(k); string what; int err = vf::errorOf([&] { if (up) e.doc->SaveUpdate("/dev/full", OPT[1]); else e.doc->Save("/dev/full", OPT[1]); }, &what);
            if (err == -1) { C->fail("reported-success-file", "saving to a full device returned without an error"); return; }
            string s; err = vf::errorOf([&] { s = save(*e.doc, OPT[1]); }, &what); if (err != -1) C->fail("resave-failed", what); else if (readFile(s).problems.size()) C->fail("resaved-file", readFile(s).problems[0]);
        });
        for (size_t cap = 0; cap < bytes; cap += c.thorough ? 1 : 5)
        {
            c.run("ostream", [&] { return vf::fmt("%s %s to a stream of %zu bytes", DN[k], up ? "update" : "save", cap); }, [&] {
                Env e = make(k); string what; if (up && cap < e.base.size()) return; C->trace();
                Buf b(cap); if (up) b.out = e.base; std::ostream os(&b); int err;
                { std::unique_ptr<StandardStreamDevice> dev(new StandardStreamDevice(os)); err = vf::errorOf([&] { if (up) e.doc->SaveUpdate(*dev, OPT[1]); else e.doc->Save(*dev, OPT[1]); }, &what); }
                bool complete = b.drain() && b.out.size() > 5 && b.out.substr(b.out.size() - 6) == "%%EOF\n";
                if (err == -1 && !complete) C->fail("reported-success-stream", vf::fmt("only %zu bytes were taken but saving returned without an error", b.out.size()));
            });
            // a file that may not grow further, as on a full disk
            c.run("file", [&] { return vf::fmt("%s %s to a file limited to %zu bytes", DN[k], up ? "update" : "save", cap); }, [&] {
                Env e = make(k); string what; if (up && cap < e.base.size()) return; C->trace();
                string path = C->scratch() + "/out.pdf"; unlink(path.c_str()); if (up) { std::ofstream f(path, std::ios::binary); f << e.base; }
                signal(SIGXFSZ, SIG_IGN); rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = cap; setrlimit(RLIMIT_FSIZE, &lim);
                int err = vf::errorOf([&] { if (up) e.doc->SaveUpdate(path, OPT[1]); else e.doc->Save(path, OPT[1]); }, &what);
                setrlimit(RLIMIT_FSIZE, &old);
                std::ifstream in(path, std::ios::binary); string got((std::istreambuf_iterator<char>(in)), {});
                if (err == -1 && (got.size() < 6 || got.substr(got.size() - 6) != "%%EOF\n")) { C->fail("reported-success-file", vf::fmt("the file has %zu bytes but saving returned without an error", got.size())); return; }
                if (err == -1) return;
                // retry at the same place
                if (up) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << e.base; }
                err = vf::errorOf([&] { if (up) e.doc->SaveUpdate(path, OPT[1]); else e.doc->Save(path, OPT[1]); }, &what);
                std::ifstream in2(path, std::ios::binary); got.assign((std::istreambuf_iterator<char>(in2)), {});
                if (err != -1) C->fail("resave-failed", what); else if (readFile(got).problems.size()) C->fail("resaved-file", readFile(got).problems[0]);
            });
        }
    }
    // encoders, decoders, stream copies and single objects writing to a failing device
    static const PdfFilterType FT[] = { PdfFilterType::None, PdfFilterType::FlateDecode, PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode };
    string data; for (int i = 0; i < 9000; i++) data += char(i * i * 31 + i / 7);
    for (auto a : FT) for (auto b2 : FT) for (int what = 0; what < 4; what++) for (size_t cut : { (size_t)0, (size_t)1, (size_t)50, data.size() }) for (int mode : { 1, 2, 3 }) for (size_t at = 0; at < (mode == 3 ? 400u : 60u); at++)
    {
        if (!c.mine()) { c.skip(); continue; }
        c.run("stream", [&] { return vf::fmt("filters %d %d, operation %d, %zu bytes, fault mode %d at %zu", (int)a, (int)b2, what, cut, mode, at); }, [&] {
            string out; Sink s(out, { mode, at }); string err0; bool threw = false;
            PdfFilterList fl; if (a != PdfFilterType::None) fl.push_back(a); if (b2 != PdfFilterType::None) fl.push_back(b2);
            PdfMemDocument d; auto& o = d.GetObjects().CreateDictionaryObject(); if (fl.size()) o.GetOrCreateStream().SetData(data.substr(0, cut), fl); else o.GetOrCreateStream().SetData(data.substr(0, cut), true);
            bool ended = false;
            try
            {
                if (what == 0) { if (!fl.size()) return; auto es = PdfFilterFactory::CreateEncodeStream(std::shared_ptr<OutputStream>(&s, [](OutputStream*) {}), fl); es->Write(data.substr(0, cut / 2)); es->Write(data.substr(cut / 2, cut - cut / 2)); es->Flush(); ended = true; }
                else if (what == 1) { o.GetStream()->CopyTo(s); ended = true; }
                else if (what == 2) { o.GetStream()->CopyToSafe(s); ended = true; }
                else { auto in = o.GetStream()->GetInputStream(); in.CopyTo(s); ended = true; }
            }
            catch (PdfError&) { threw = true; }
            if (what != 0 && s.hit && !threw) C->fail("reported-success-copy", "the device failed but the copy returned");
            if (!s.hit && !ended) C->fail("spurious-error", "");
            auto again = o.GetStream()->GetCopy(); if (string(again.data(), again.size()) != data.substr(0, cut)) C->fail("stream-changed", "the stream has other data after the failure");
        });
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P21";
    cfg.rule = "a failure at every write call, every output byte, every position query and the flush of a save or update of each document with each options, followed by every continuation (save, the same again, edit and save, a second failure at every point); a state is (document, operation, fault), transitions are attempts; real files of limited size, /dev/full and standard streams likewise; the result must be an error, the document unchanged and the next save complete";
    cfg.assumptions = { "dates, identifiers and the version key of an update may change", "bytes an encoder writes in its destructor cannot be reported" };
    return vf::main(argc, argv, cfg, explore);
}
