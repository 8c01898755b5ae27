// P03: text strings against an independent model of the three PDF text encodings.
#include "ref.h"
#include <pdfmm/base/PdfEncrypt.h>
using namespace ref;
using namespace mm;
using std::string; using std::u32string;
static vf::Ctx* C;

static string u8(const u32string& t)
{
    string o;
    for (char32_t c : t)
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    return o;
}
// PDFDocEncoding, ISO 32000 annex D; 0 for the undefined ones
static char32_t doc(unsigned char b)
{
    static const char32_t lo[] = { 0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC };
    static const char32_t hi[] = { 0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018, 0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E, 0, 0x20AC };
    if (b >= 0x18 && b < 0x20) return lo[b - 0x18];
    if (b >= 0x80 && b <= 0xA0) return hi[b - 0x80];
    if (b == 0x7F || b == 0xAD) return 0;
    return b;
}
// false when the bytes are not a text string in any encoding
static bool decode(const string& b, u32string& t, bool& undef)
{
    t.clear(); undef = false;
    auto B = [&](size_t i) { return (char32_t)(unsigned char)b[i]; };
    bool be = b.compare(0, 2, "\xFE\xFF") == 0, le = b.compare(0, 2, "\xFF\xFE") == 0;
    if (be || le)
    {
        if (b.size() % 2) return false;
        for (size_t i = 2; i < b.size(); i += 2)
        {
            auto unit = [&](size_t k) { return be ? B(k) << 8 | B(k + 1) : B(k + 1) << 8 | B(k); };
            char32_t u = unit(i);
            if (u >= 0xDC00 && u < 0xE000) return false;
            if (u >= 0xD800 && u < 0xDC00) { if (i + 3 >= b.size()) return false; char32_t v = unit(i + 2); if (v < 0xDC00 || v >= 0xE000) return false; u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); i += 2; }
            t += u;
        }
        return true;
    }
    if (b.compare(0, 3, "\xEF\xBB\xBF") == 0)
    {
        for (size_t i = 3; i < b.size();)
        {
            char32_t c = B(i); int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
            if (n < 0 || i + n >= b.size()) return false;
            c = n == 0 ? c : c & (0x3F >> n);
            for (int k = 1; k <= n; k++) { if ((B(i + k) & 0xC0) != 0x80) return false; c = c << 6 | (B(i + k) & 63); }
            if ((n == 2 && c < 0x800) || (n == 3 && c < 0x10000) || (c >= 0xD800 && c < 0xE000) || c > 0x10FFFF) return false;
            t += c; i += n + 1;
        }
        return true;
    }
    for (size_t i = 0; i < b.size(); i++) { char32_t c = doc(b[i]); if (c == 0 && b[i]) undef = true; t += c; }
    return true;
}
static string wr(const PdfString& s) { string o; PdfVariant(s).ToString(o); return o; }
static bool literal(const string& text, string& bytes, bool& hex)
{
    try { Lex l(text); Val v = l.value(); if (v.k != Str || !l.eof()) return false; bytes = v.s; hex = v.hex; return true; } catch (const Bad&) { return false; }
}
static PdfString rd(const string& text) { PdfTokenizer t; SpanStreamDevice d(text); PdfVariant v; t.ReadNextVariant(d, v); return v.GetString(); }

static void textCase(const u32string& t)
{
    string u = u8(t); C->transition();
    string what; int err = vf::errorOf([&] {
        PdfString s(u);
        if (s.GetString() != u) { C->fail("text-lost", "text is not what it was made from"); return; }
        string w = wr(s), bytes; bool hex; u32string back; bool undef;
        if (!literal(w, bytes, hex)) { C->fail("bad-literal", "written as " + vf::esc(w)); return; }
        if (!decode(bytes, back, undef) || back != t) { C->fail("wrong-bytes", "written as " + vf::esc(w) + " which spells '" + vf::esc(u8(back)) + "'"); return; }
        PdfString r = rd(w);
        PdfString copy(r);
        if (wr(r) != w) { C->fail("raw-changed", "unread string rewritten as " + vf::esc(wr(r)) + " instead of " + vf::esc(w)); return; }
        if (r.GetString() != u) { C->fail("wrong-text", vf::esc(w) + " reads as '" + vf::esc(r.GetString()) + "'"); return; }
        if (copy.GetString() != u) { C->fail("wrong-text", "a copy reads differently"); return; }
        string w2 = wr(r);
        if (rd(w2).GetString() != u) { C->fail("rewritten-text", "after reading, written as " + vf::esc(w2)); return; }
        if (!(PdfString(u) == s) || PdfString(u) != s || !(s == u) || s != u) C->fail("not-equal", "equal texts compare unequal");
        C->state(vf::hash(bytes));
    }, &what);
    if (err != -1) C->fail("error", vf::fmt("error %d: ", err) + what);
    C->trace();
}
static void rawCase(const string& b, bool hex)
{
    C->transition();
    string what; int err = vf::errorOf([&] {
        PdfString s = PdfString::FromRaw(b, hex);
        string w = wr(s), bytes; bool h;
        if (!literal(w, bytes, h) || bytes != b || h != hex) { C->fail("raw-bytes", "written as " + vf::esc(w)); return; }
        if (s.GetRawData() != b || s.IsHex() != hex) { C->fail("raw-bytes", "raw data differs"); return; }
        PdfString r = rd(w);
        if (r.IsHex() != hex || r.GetRawData() != b) { C->fail("raw-bytes", "read as '" + vf::esc(r.GetRawData()) + "'"); return; }
        if (!(r == s) || r != s) { C->fail("raw-equal", "same raw strings differ"); return; }
        u32string t; bool undef; bool ok = decode(b, t, undef);
        string got = r.GetString();
        if (ok && !undef && got != u8(t)) { C->fail("wrong-text", vf::esc(w) + " reads as '" + vf::esc(got) + "' instead of '" + vf::esc(u8(t)) + "'"); return; }
        // invalid after a mark, and undefined bytes: nothing is promised about the text
        if (!ok && b.find_first_of("\x7F\x9F\xAD") != string::npos) return;
        string w2 = wr(r); PdfString r2 = rd(w2);
        if (r2.GetString() != got || r2.IsHex() != hex) { C->fail("rewritten-text", "after reading as text, " + vf::esc(w) + " is written as " + vf::esc(w2) + " and reads as '" + vf::esc(r2.GetString()) + "' instead of '" + vf::esc(got) + "'"); return; }
        if (s.GetRawData() != b) C->fail("shared", "the other string was changed by reading");
        C->state(vf::hash(b)); C->count(ok ? "raw-text" : "raw-not-text");
    }, &what);
    if (err != -1) C->fail("error", vf::fmt("error %d: ", err) + what);
    C->trace();
}
// all texts in one document, saved and loaded
static void docCase(int alg, int key, bool touch, bool update, const std::vector<u32string>& texts, const std::vector<string>& raws)
{
    string what; int err = vf::errorOf([&] {
        PdfMemDocument d;
        auto& o = d.GetObjects().CreateDictionaryObject();
        d.GetCatalog().GetDictionary().AddKey("Holder", PdfObject(o.GetIndirectReference()));
        auto fill = [&](PdfObject& o) {
            PdfArray a, b, e;
            for (auto& t : texts) a.Add(PdfObject(PdfString(u8(t))));
            for (auto& r : raws) { b.Add(PdfObject(PdfString::FromRaw(r, false))); e.Add(PdfObject(PdfString::FromRaw(r, true))); }
            o.GetDictionary().AddKey("T", PdfObject(a)); o.GetDictionary().AddKey("R", PdfObject(b)); o.GetDictionary().AddKey("H", PdfObject(e));
        };
        if (!update) fill(o);
        if (alg) d.SetEncrypted("u", "o", PdfPermissions::Default, (PdfEncryptAlgorithm)alg, (PdfKeyLength)key);
        charbuff buf; { StringStreamDevice dev(buf); d.Save(dev); }
        auto load = [&](const charbuff& buf, bool rawToo) {
            PdfMemDocument e; e.LoadFromBuffer(buf, alg ? "u" : "");
            auto* h = e.GetCatalog().GetDictionary().FindKey("Holder"); if (!h) { C->fail("doc-lost", "holder is gone"); return charbuff(); }
            auto& T = h->GetDictionary().MustFindKey("T").GetArray(); auto& R = h->GetDictionary().MustFindKey("R").GetArray(); auto& H = h->GetDictionary().MustFindKey("H").GetArray();
            if (T.size() != texts.size() || R.size() != raws.size() || H.size() != raws.size()) { C->fail("doc-lost", "strings are gone"); return charbuff(); }
            if (rawToo)
                for (size_t i = 0; i < raws.size(); i++) for (auto* a : { &R, &H }) { C->transition(); auto& s = (*a)[(unsigned)i].GetString(); if (s.GetRawData() != raws[i]) { C->fail("doc-raw", "raw string " + vf::esc(raws[i]) + " is now " + vf::esc(s.GetRawData())); return charbuff(); } }
            if (touch || !rawToo) for (size_t i = 0; i < texts.size(); i++) { C->transition(); if (T[(unsigned)i].GetString().GetString() != u8(texts[i])) { C->fail("doc-text", "text " + vf::esc(u8(texts[i])) + " is now " + vf::esc(T[(unsigned)i].GetString().GetString())); return charbuff(); } }
            charbuff out; StringStreamDevice dev(out); e.Save(dev); return out;
        };
        if (update) { PdfMemDocument e; e.LoadFromBuffer(buf, alg ? "u" : ""); fill(e.GetCatalog().GetDictionary().MustFindKey("Holder")); charbuff out; StringStreamDevice dev(out); e.Save(dev); out.swap(buf); }
        charbuff second = load(buf, true);
        if (!C->failed()) load(second, !touch);
    }, &what);
    if (err != -1) C->fail("error", vf::fmt("error %d: ", err) + what);
    C->trace();
}
static void explore(vf::Ctx& c)
{
    C = &c; bool T = c.thorough;
    auto txt = [&](const char* tag, const u32string& t) { c.run(tag, [&] { string d; for (auto x : t) d += vf::fmt("U+%04X ", (unsigned)x); return d; }, [&] { textCase(t); }); };
    auto raw = [&](const char* tag, const string& b) { for (bool h : { false, true }) c.run(tag, [&] { return vf::hexs(b) + (h ? " hex" : ""); }, [&] { rawCase(b, h); }); };
    txt("text", U"");
    for (char32_t p = 0; p <= 0x10FFFF; p++)
    {
        if (p >= 0xD800 && p < 0xE000) continue;
        txt("one", { p });
        if (p < 0x3000 || T || (p & 0xFFFF) >= 0xFFF0 || (p >= 0xFB00 && p < 0xFB10)) { txt("ctx", { U'a', p }); txt("ctx", { p, 0xE9 }); txt("ctx", { 0x2D8, p, 0x4E2D }); }
    }
    u32string A = { 0, 9, '\n', '\r', '(', ')', '\\', 'a', 0x16, 0x17, 0x18, 0x7F, 0x80, 0xA0, 0xAD, 0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 0x141, 0x20AC, 0x2D8, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000 };
    for (unsigned n = 2; n <= (T ? 4u : 3u); n++)
        vf::sequences(A.size(), n, [&](const std::vector<unsigned>& v) { u32string t; for (auto x : v) t += A[x]; txt("mix", t); });
    u32string S = { 0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 'a', 0 };
    for (unsigned n = 4; n <= (T ? 6u : 5u); n++) vf::sequences(S.size(), n, [&](const std::vector<unsigned>& v) { u32string t; for (auto x : v) t += S[x]; txt("bom", t); });
    for (unsigned n : { 100u, 127u, 4095u, 4096u, 4097u, 9000u }) for (char32_t x : { U'a', U'(', (char32_t)0xE9, (char32_t)0x4E2D, (char32_t)0x1F600 }) txt("long", u32string(n, x));
    // raw
    raw("raw", "");
    for (int a = 0; a < 256; a++)
    {
        string x(1, (char)a); raw("raw1", x);
        for (int b = 0; b < 256; b++)
        {
            string y = x + (char)b; raw("raw2", y);
            raw("rawbe", "\xFE\xFF" + y); raw("rawle", "\xFF\xFE" + y); raw("rawu8", "\xEF\xBB\xBF" + y);
        }
    }
    string R("\0\x16\x18\x7F\x9F\xA0\xAD\xFE\xFF\xEF\xBB\xBF(\\\r\na\xD8\xDC\x80\xC3\xF0", 22);
    vf::strings(R, 3, T ? 5 : 4, [&](const string& s) { raw("raw-n", s); });
    string Q("\0\xD8\xDC\xFE\xFF" "A", 6);
    vf::strings(Q, 0, 6, [&](const string& s) { raw("be-n", "\xFE\xFF" + s); if (T) raw("le-n", "\xFF\xFE" + s); });
    string P("\x7F\x80\xBF\xC2\xE0\xED\xEF\xF0\xF4\x90\xA0" "A", 12);
    vf::strings(P, 0, 4, [&](const string& s) { raw("u8-n", "\xEF\xBB\xBF" + s); });
    // documents
    std::vector<u32string> texts{ U"" };
    for (unsigned n = 1; n <= 2; n++) vf::sequences(A.size(), n, [&](const std::vector<unsigned>& v) { u32string t; for (auto x : v) t += A[x]; texts.push_back(t); });
    std::vector<string> raws{ "" };
    for (int a = 0; a < 256; a++) raws.push_back(string(1, (char)a));
    vf::strings(R, 2, 2, [&](const string& s) { raws.push_back(s); });
    for (unsigned n = 3; n < 70; n++) { raws.push_back(string(n, 'x')); raws.push_back(string(n, '\0')); texts.push_back(u32string(n, U'y')); texts.push_back(u32string(n, 0x4E00)); }
    static const int algs[][2] = { { 0, 0 }, { (int)PdfEncryptAlgorithm::RC4V1, 40 }, { (int)PdfEncryptAlgorithm::RC4V2, 40 }, { (int)PdfEncryptAlgorithm::RC4V2, 128 }, { (int)PdfEncryptAlgorithm::AESV2, 128 }, { (int)PdfEncryptAlgorithm::AESV3, 256 }, { (int)PdfEncryptAlgorithm::AESV3R6, 256 } };
    for (auto& a : algs) for (int touch = 0; touch < 2; touch++) for (int up = 0; up < 2; up++)
    {
        c.run("doc", [&] { return vf::fmt("document, algorithm %d key %d touch %d update %d", a[0], a[1], touch, up); }, [&] { docCase(a[0], a[1], touch, up, texts, raws); });
        for (size_t i = 0; i < texts.size(); i += (T ? 5 : 50)) c.run("doc1", [&] { return vf::fmt("one text %zu, algorithm %d key %d touch %d update %d", i, a[0], a[1], touch, up); }, [&] { docCase(a[0], a[1], touch, up, { texts[i] }, {}); });
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P03";
    cfg.rule = "every code point alone, every short text and byte string over the alphabets, and documents holding all of them under every encryption, are written, decoded by an independent model and read back; a state is a distinct byte string";
    cfg.assumptions = { "Bytes PDFDocEncoding leaves undefined may read as anything stable", "UTF-16 little endian with a mark is read as such", "Bytes after a mark that are no valid Unicode may read as anything stable" };
    return vf::main(argc, argv, cfg, explore);
}
