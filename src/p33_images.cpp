// Images: pixels given as data, PNG and TIFF files, against an evaluation of the
// image dictionary written from the specification and against the decoder.
#include "ref.h"
#include <zlib.h>
#include <cstdio>
#include <fstream>
extern "C" {
#include <jpeglib.h>
}
using namespace mm;
using std::string;
typedef std::vector<double> Px;                    // components 0..1; the last one is the alpha
struct Pic { unsigned w = 0, h = 0; std::vector<Px> p; };
static vf::Ctx* C;
static string save(PdfMemDocument& d) { string b; StringStreamDevice dev(b); d.Save(dev, PdfSaveOptions::NoModifyDateUpdate); return b; }
// ---- what an image dictionary says (ISO 32000-1, 8.9.5) --------------------------------------------------------------
static string show(const Px& p) { string s; for (auto v : p) s += vf::fmt(" %.3f", v); return s; }
static Pic eval(ref::File& f, int64_t n, bool mask = false)
{
    using namespace ref; if (!f.objs.count(n) || !f.objs[n].stream) throw Bad("no image stream");
    auto& o = f.objs[n]; auto& d = o.v; Pic r; auto st = f.resolve(d.get("Subtype")); if (!st || st->s != "Image") throw Bad("not an image");
    auto num = [&](const char* k) { auto v = f.resolve(d.get(k)); if (!v || v->k != Int) throw Bad(string("no ") + k); return v->i; };
    r.w = (unsigned)num("Width"); r.h = (unsigned)num("Height"); int64_t bpc = num("BitsPerComponent"); if (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16) throw Bad("BitsPerComponent");
    auto cs = f.resolve(d.get("ColorSpace")); if (!cs) throw Bad("no ColorSpace");
    auto comps = [](const string& s) { if (s == "DeviceGray") return 1; if (s == "DeviceRGB") return 3; if (s == "DeviceCMYK") return 4; throw Bad("ColorSpace " + s); };
    int nc = 1, base = 0; string lookup; int64_t hival = -1;
    if (cs->k == Name) nc = comps(cs->s);
    else if (cs->k == Arr && cs->a.size() == 4 && cs->a[0].k == Name && cs->a[0].s == "Indexed") { if (cs->a[1].k != Name || cs->a[2].k != Int) throw Bad("Indexed"); base = comps(cs->a[1].s); hival = cs->a[2].i; auto& l = cs->a[3]; if (l.k == Str) lookup = l.s; else if (l.k == Ref && f.objs.count(l.i)) lookup = f.decoded(f.objs[l.i]); if ((int64_t)lookup.size() < (hival + 1) * base) throw Bad("the palette is too short"); }
    else throw Bad("ColorSpace " + ref::show(*cs));
    if (mask && (nc != 1 || base)) throw Bad("the soft mask is not gray");
    std::vector<double> dec; auto dv = f.resolve(d.get("Decode")); if (dv) { if (dv->k != Arr || (int)dv->a.size() != 2 * nc) throw Bad("Decode"); for (auto& x : dv->a) dec.push_back(x.k == Int ? (double)x.i : x.d); } else for (int i = 0; i < nc; i++) { dec.push_back(0); dec.push_back(base ? (double)((1 << bpc) - 1) : 1); }
    string data = f.decoded(o); size_t row = (r.w * nc * bpc + 7) / 8; if (data.size() < row * r.h) throw Bad(vf::fmt("%zu bytes of data, not %zu", data.size(), row * r.h));
    double max = (double)((1u << bpc) - 1);
    for (unsigned y = 0; y < r.h; y++) for (unsigned x = 0; x < r.w; x++)
    {
        Px p; for (int c = 0; c < nc; c++) { size_t bit = (x * nc + c) * bpc; auto q = (const unsigned char*)data.data() + y * row + bit / 8; unsigned v = bpc == 16 ? q[0] << 8 | q[1] : (q[0] >> (8 - bpc - bit % 8)) & (unsigned)max; double e = dec[2 * c] + v * (dec[2 * c + 1] - dec[2 * c]) / max; if (base) { int64_t i = (int64_t)(e + 0.5); if (i > hival) i = hival; for (int k = 0; k < base; k++) p.push_back((unsigned char)lookup[i * base + k] / 255.0); } else p.push_back(e); }
        p.push_back(1); r.p.push_back(p);
    }
    if (!mask) if (auto m = d.get("SMask")) { if (m->k != Ref) throw Bad("SMask"); auto a = eval(f, m->i, true); if (a.w != r.w || a.h != r.h) throw Bad("soft mask size"); for (size_t i = 0; i < r.p.size(); i++) r.p[i].back() = a.p[i][0]; }
    return r;
}
static Px rgb(const Px& p) { if (p.size() == 2) return { p[0], p[0], p[0], p[1] }; return p; }
static bool near(const Px& a, const Px& b) { auto x = rgb(a), y = rgb(b); if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (fabs(x[i] - y[i]) > 0.0026) return false; return true; }
static bool same(const Pic& g, const Pic& w, const char* sig, const string& when)
{
    if (g.w != w.w || g.h != w.h) { C->fail(sig, when + vf::fmt(": the size is %u x %u, not %u x %u", g.w, g.h, w.w, w.h)); return false; }
    for (size_t i = 0; i < w.p.size(); i++) if (!near(g.p[i], w.p[i])) { C->fail(sig, when + vf::fmt(": pixel %zu,%zu is", i % w.w, i / w.w) + show(g.p[i]) + ", not" + show(w.p[i])); return false; }
    return true;
}
// ---- the decoder -------------------------------------------------------------------------------------------------------
static const PdfPixelFormat FM[] = { PdfPixelFormat::Grayscale, PdfPixelFormat::RGB24, PdfPixelFormat::BGR24, PdfPixelFormat::RGBA, PdfPixelFormat::BGRA };
static const unsigned BPP[] = { 1, 3, 3, 4, 4 }; static const char* FNAME[] = { "Grayscale", "RGB24", "BGR24", "RGBA", "BGRA" };
static unsigned defRow(int f, unsigned w) { return (w * BPP[f] + 3) / 4 * 4; }
// Decodes in every format, row size and by all functions. mustDecode: refusing is not accepted, except RGB as gray
static bool decodes(const PdfImage& im, const Pic& w, bool mustDecode, const string& when)
{
    bool gray = w.p.empty() || w.p[0].size() == 2;
    for (int f = 0; f < 5; f++) for (int rs : { -1, -2, 0, 1, 4, 7 })     // -1: default, -2: too small, else that much more
    {
        unsigned row = defRow(f, w.w); int arg = -1; if (rs == -2) { if (row == 0) continue; arg = (int)row - 1; } else if (rs >= 0) { row += rs; arg = (int)row; }
        size_t size = (size_t)row * w.h; charbuff a; string s; std::vector<char> b(size); std::vector<char> tight(size ? size - 1 : 0);
        string what = when + ", as " + FNAME[f] + vf::fmt(" with row size %d", arg);
        int ea = vf::errorOf([&] { im.DecodeTo(a, FM[f], arg); }), eb = vf::errorOf([&] { im.DecodeTo(bufferspan(b.data(), b.size()), FM[f], arg); }), es = vf::errorOf([&] { StringStreamDevice dev(s); im.DecodeTo(dev, FM[f], arg); });
        C->transition();
        if (rs == -2) { if (ea < 0 || es < 0) { C->fail("row-size", what + ": rows too small are accepted"); return false; } continue; }
        if ((ea < 0) != (es < 0) || (eb < 0) != (es < 0)) { C->fail("decode-forms", what + vf::fmt(": the ways to decode disagree (%d %d %d)", ea, eb, es)); return false; }
        if (es >= 0) { if (mustDecode && w.h && !(f == 0 && !gray)) { C->fail("decode-refused", what + vf::fmt(": error %d", es)); return false; } continue; }
        if (es == -2 || ea == -2) { C->fail("decode-error", what + ": an unexpected exception"); return false; }
        if (size && w.h && vf::errorOf([&] { im.DecodeTo(bufferspan(tight.data(), tight.size()), FM[f], arg); }) < 0) { C->fail("small-buffer", what + ": a buffer too small is accepted"); return false; }
        if (s.size() != size || a.size() != size) { C->fail("decode-size", what + vf::fmt(": %zu and %zu bytes, not %zu", s.size(), a.size(), size)); return false; }
        for (unsigned y = 0; y < w.h; y++) for (unsigned x = 0; x < w.w; x++) for (const char* d : { (const char*)a.data(), (const char*)b.data(), (const char*)s.data() })
        {
            auto q = (const unsigned char*)d + (size_t)y * row + x * BPP[f]; auto e = rgb(w.p[y * w.w + x]); Px g;
            if (f == 0) g = { q[0] / 255.0, q[0] / 255.0, q[0] / 255.0 }; else if (f == 1 || f == 3) g = { q[0] / 255.0, q[1] / 255.0, q[2] / 255.0 }; else g = { q[2] / 255.0, q[1] / 255.0, q[0] / 255.0 };
            g.push_back(f >= 3 ? q[3] / 255.0 : 1); if (f < 3) e.back() = 1; if (e.size() != 4) { C->fail("decode-value", what + ": decoded although it cannot be"); return false; }
            for (int k = 0; k < 4; k++) if (fabs(g[k] - e[k]) > 0.0026) { C->fail("decode-value", what + vf::fmt(": pixel %u,%u is", x, y) + show(g) + ", not" + show(e)); return false; }
        }
    }
    return true;
}
static bool judge(PdfMemDocument& d, PdfImage& im, const Pic& w, bool mustDecode, bool direct)
{
    if (im.GetWidth() != w.w || im.GetHeight() != w.h) { C->fail("size", vf::fmt("the size is %u x %u", im.GetWidth(), im.GetHeight())); return false; }
    if (direct && !decodes(im, w, mustDecode, "in memory")) return false;
    d.GetPages().CreatePage(PdfRect(0, 0, 9, 9)); auto ref = im.GetObject().GetIndirectReference(); d.GetCatalog().GetDictionary().AddKey("Img", ref);
    string b = save(d); auto f = ref::readFile(b); if (f.problems.size()) { C->fail("file", f.problems[0]); return false; }
    auto n = f.resolve(f.trailer.get("Root"))->get("Img")->i; Pic g;
    try { g = eval(f, n); } catch (const ref::Bad& e) { C->fail("dictionary", string("the image cannot be shown: ") + e.what()); return false; }
    if (!same(g, w, "value", "in the file")) return false;
    if (direct) { PdfMemDocument e; e.LoadFromBuffer(b); std::unique_ptr<PdfImage> x; auto o = e.GetCatalog().GetDictionary().FindKey("Img"); if (!o || !PdfXObject::TryCreateFromObject(*o, x)) { C->fail("reload", "not an image after reloading"); return false; } if (!decodes(*x, w, mustDecode, "after reloading")) return false; }
    string sig; for (auto& p : w.p) sig += show(p); C->state(vf::fmt("%u %u", w.w, w.h) + sig); C->trace();
    return true;
}
// ---- pixels -------------------------------------------------------------------------------------------------------------
static unsigned char px(unsigned i) { return (unsigned char)((i * 2654435761u + 12345) >> 13); }
// what the image object held before: nothing, inverted gray, one-bit filtered RGB, an indexed picture with rows of one bit, other pixels
static const char* BEFORE[] = { "", ", after inverted gray", ", after filtered RGB", ", after indexed", ", after other pixels", ", after a PNG" };
struct Png; static string pngBytes();
static void prepare(PdfImage& im, int before)
{
    PdfImageInfo i; i.Width = 3; i.Height = 5; i.BitsPerComponent = 8; i.ColorSpace = PdfColorSpace::DeviceGray; string data(200, 'b');
    if (before == 1) { i.Decode.Add(1.0); i.Decode.Add(0.0); }
    else if (before == 2) { i.ColorSpace = PdfColorSpace::DeviceRGB; i.BitsPerComponent = 1; i.Filters = { PdfFilterType::ASCIIHexDecode, PdfFilterType::FlateDecode }; string z = ref::deflate(data); data.clear(); for (unsigned char c : z) data += vf::fmt("%02x", c); data += ">"; }
    else if (before == 3) { i.BitsPerComponent = 1; i.ColorSpace = PdfColorSpace::Indexed; i.ColorSpaceArray.Add(PdfName("DeviceRGB")); i.ColorSpaceArray.Add((int64_t)1); i.ColorSpaceArray.Add(PdfString::FromRaw(string("abcdef"))); for (double v : { 1.0, 0.0 }) i.Decode.Add(v); }
    else if (before == 4) { im.SetData(bufferview(data.data(), data.size()), 4, 7, PdfPixelFormat::BGR24); return; }
    else if (before == 5) { auto b = pngBytes(); im.LoadFromBuffer(bufferview(b.data(), b.size())); return; }
    else return;
    SpanStreamDevice s(data.data(), data.size()); im.SetDataRaw(s, i);
}
static void pixels(int f, unsigned w, unsigned h, int extra, int mask, bool viaStream, int before = 0)
{
    PdfMemDocument d; auto im = d.CreateImage(); prepare(*im, before); unsigned need = w * BPP[f], row = extra == -100 ? defRow(f, w) : need + extra; if (extra != -100 && (int)need + extra < 0) return;
    std::vector<char> data((size_t)row * h); for (size_t i = 0; i < data.size(); i++) data[i] = (char)px((unsigned)i);
    auto set = [&](PdfImage& i, const std::vector<char>& v, unsigned ww, int ff, int rs) { if (viaStream) { SpanStreamDevice s(v.data(), v.size()); i.SetData(s, ww, h, FM[ff], rs); } else i.SetData(bufferview(v.data(), v.size()), ww, h, FM[ff], rs); };
    int e = vf::errorOf([&] { set(*im, data, w, f, extra == -100 ? -1 : (int)row); });
    if (f >= 3) { if (e < 0) C->fail("alpha", "a format with alpha is accepted"); return; }
    if (extra < 0 && extra != -100) { if (e < 0) C->fail("stride", "rows shorter than the pixels are accepted"); return; }
    if (e != -1) { C->fail("set", vf::fmt("error %d", e)); return; }
    Pic p; p.w = w; p.h = h; std::vector<char> alpha; unsigned arow = (w + 3) / 4 * 4; if (mask) { alpha.resize((size_t)arow * h); for (size_t i = 0; i < alpha.size(); i++) alpha[i] = (char)px((unsigned)i + 77); }
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { auto q = (const unsigned char*)data.data() + (size_t)y * row + x * BPP[f]; Px v; if (f == 0) v = { q[0] / 255.0 }; else if (f == 1) v = { q[0] / 255.0, q[1] / 255.0, q[2] / 255.0 }; else v = { q[2] / 255.0, q[1] / 255.0, q[0] / 255.0 }; v.push_back(mask ? (unsigned char)alpha[y * arow + x] / 255.0 : 1); p.p.push_back(v); }
    if (mask) { auto m = d.CreateImage(); set(*m, alpha, w, 0, -1); im->SetSoftmask(*m); }
    judge(d, *im, p, true, true);
}
// ---- raw data with other depths, decode arrays and masks ------------------------------------------------------------------
static void raw(int cs, int bpc, unsigned w, unsigned h, int len, int dec, int mask, int before = 0)
{
    PdfMemDocument d; auto im = d.CreateImage(); prepare(*im, before); int nc = cs ? 3 : 1; size_t row = (w * nc * bpc + 7) / 8; string data; for (size_t i = 0; i < row * h; i++) data += (char)px((unsigned)i);
    if (len < 0) { if (data.empty()) return; data.resize(data.size() - 1); } else data += string(len, 'x');
    auto build = [&](bool full) {
        PdfImageInfo inf; inf.Width = w; inf.Height = h; inf.BitsPerComponent = (unsigned char)bpc; inf.ColorSpace = cs ? PdfColorSpace::DeviceRGB : PdfColorSpace::DeviceGray;
        if (dec) for (int i = 0; i < nc; i++) { inf.Decode.Add(dec == 1 ? 0.0 : 1.0); inf.Decode.Add(dec == 1 ? 1.0 : dec == 2 ? 0.0 : 0.5); }
        string z = data; if (full && len < 0) z += 'x'; SpanStreamDevice s(z.data(), z.size()); im->SetDataRaw(s, inf);
    };
    build(false);
    if (mask) { auto m = d.CreateImage(); PdfImageInfo inf; inf.Width = w + (mask == 2); inf.Height = h + (mask == 3); inf.BitsPerComponent = mask == 4 ? 1 : mask == 5 ? 16 : 8; inf.ColorSpace = PdfColorSpace::DeviceGray; string s((w * inf.BitsPerComponent + 7) / 8 * h + 2 * w + 2 * h + 2, 'm'); for (size_t i = 0; i < s.size(); i++) s[i] = (char)px((unsigned)i + 9); SpanStreamDevice dev(s.data(), s.size()); m->SetDataRaw(dev, inf); im->SetSoftmask(*m); }
    // the value by the evaluation of the dictionary; data too short or masks of other sizes must be refused when asked for
    d.GetPages().CreatePage(PdfRect(0, 0, 9, 9)); d.GetCatalog().GetDictionary().AddKey("Img", im->GetObject().GetIndirectReference());
    string b = save(d); auto f = ref::readFile(b); auto n = f.resolve(f.trailer.get("Root"))->get("Img")->i; Pic p; bool bad = false;
    try { p = eval(f, n); } catch (const ref::Bad& e) { bad = true; if (len >= 0 && mask != 2 && mask != 3) { C->fail("raw", e.what()); return; } }
    PdfMemDocument e; e.LoadFromBuffer(b); std::unique_ptr<PdfImage> x; PdfXObject::TryCreateFromObject(*e.GetCatalog().GetDictionary().FindKey("Img"), x); if (!x) { C->fail("raw", "not an image after reloading"); return; }
    if (bad) { for (int k = 0; k < 5; k++) { if (len >= 0 && k < 3) continue; charbuff a; if (vf::errorOf([&] { x->DecodeTo(a, FM[k]); }) < 0 && w && h) { C->fail("raw-short", string("an image with too little data or another mask size is decoded as ") + FNAME[k]); return; } } C->trace(); return; }
    if (!decodes(*x, p, bpc == 8 && (mask <= 1) && !dec, "after reloading")) return;
    C->trace();
}
// ---- PNG ------------------------------------------------------------------------------------------------------------------
static string be32(unsigned v) { return { (char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v }; }
static string chunk(const string& t, const string& d) { string x = t + d; return be32((unsigned)d.size()) + x + be32((unsigned)crc32(0, (const Bytef*)x.data(), (uInt)x.size())); }
struct Png { string bytes; Pic pic; };
static Png makePng(int ct, int depth, unsigned w, unsigned h, int inter, int trns, int filter, bool split = false)
{
    Png r; r.pic.w = w; r.pic.h = h; int nc = ct == 2 ? 3 : ct == 4 ? 2 : ct == 6 ? 4 : 1; unsigned max = (1u << depth) - 1; unsigned ncol = ct == 3 ? std::min(max + 1, 5u) : 0;
    auto sample = [&](unsigned x, unsigned y, int c) { unsigned v = px((y * w + x) * nc + c) | px((y * w + x) * nc + c + 500) << 8; v &= max; if (ct == 3) v %= ncol; return v; };
    string pal, tr; for (unsigned i = 0; i < ncol * 3; i++) pal += (char)px(i + 50);
    unsigned key[3] = { sample(0, 0, 0), ct == 2 ? sample(0, 0, 1) : 0, ct == 2 ? sample(0, 0, 2) : 0 };
    if (trns && ct == 3) for (unsigned i = 0; i < (trns == 1 ? ncol : 1); i++) tr += (char)px(i + 90);
    if (trns && ct == 0) tr = { (char)(key[0] >> 8), (char)key[0] }; if (trns && ct == 2) for (int i = 0; i < 3; i++) { tr += (char)(key[i] >> 8); tr += (char)key[i]; }
    auto eight = [&](unsigned v) { return depth == 16 ? (v >> 8) / 255.0 : v / (double)max; };
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
    {
        Px p; if (ct == 3) { unsigned i = sample(x, y, 0); for (int k = 0; k < 3; k++) p.push_back((unsigned char)pal[i * 3 + k] / 255.0); p.push_back(i < tr.size() ? (unsigned char)tr[i] / 255.0 : 1); }
        else { for (int c = 0; c < nc; c++) p.push_back(eight(sample(x, y, c))); if (nc == 1 || nc == 3) { bool k = tr.size() > 0; for (int c = 0; c < nc; c++) if (sample(x, y, c) != key[c]) k = false; p.push_back(k ? 0 : 1); } }
        r.pic.p.push_back(p);
    }
    string rawd; auto pass = [&](unsigned x0, unsigned y0, unsigned dx, unsigned dy) {
        if (x0 >= w) return; string prev; unsigned bpp = std::max(1, nc * depth / 8);
        for (unsigned y = y0; y < h; y += dy)
        {
            string line; unsigned acc = 0, nb = 0; for (unsigned x = x0; x < w; x += dx) for (int c = 0; c < nc; c++) { unsigned v = sample(x, y, c); if (depth == 16) { line += (char)(v >> 8); line += (char)v; } else { acc = acc << depth | v; nb += depth; if (nb == 8) { line += (char)acc; acc = nb = 0; } } } if (nb) line += (char)(acc << (8 - nb));
            if (prev.empty()) prev = string(line.size(), 0); string o(1, (char)filter);
            for (size_t i = 0; i < line.size(); i++) { int a = i >= bpp ? (unsigned char)line[i - bpp] : 0, b = (unsigned char)prev[i], c = i >= bpp ? (unsigned char)prev[i - bpp] : 0, s = 0; if (filter == 1) s = a; else if (filter == 2) s = b; else if (filter == 3) s = (a + b) / 2; else if (filter == 4) { int q = a + b - c, pa = abs(q - a), pb = abs(q - b), pc = abs(q - c); s = pa <= pb && pa <= pc ? a : pb <= pc ? b : c; } o += (char)((unsigned char)line[i] - s); }
            prev = line; rawd += o;
        }
    };
    if (!inter) pass(0, 0, 1, 1); else { static const unsigned P[7][4] = { { 0, 0, 8, 8 }, { 4, 0, 8, 8 }, { 0, 4, 4, 8 }, { 2, 0, 4, 4 }, { 0, 2, 2, 4 }, { 1, 0, 2, 2 }, { 0, 1, 1, 2 } }; for (auto& p : P) pass(p[0], p[1], p[2], p[3]); }
    string z = ref::deflate(rawd); string idat = split ? chunk("IDAT", z.substr(0, 3)) + chunk("IDAT", z.substr(3)) : chunk("IDAT", z);
    r.bytes = "\x89PNG\r\n\x1A\n" + chunk("IHDR", be32(w) + be32(h) + string{ (char)depth, (char)ct, 0, 0, (char)inter }) + (pal.size() ? chunk("PLTE", pal) : "") + (tr.size() ? chunk("tRNS", tr) : "") + idat + chunk("IEND", "");
    return r;
}
static string pngBytes() { return makePng(3, 2, 5, 3, 0, 0, 0).bytes; } // no transparency: a soft mask is a property of its own, which stays
static string scratchFile(const string& ext, const string& bytes) { string p = C->scratch() + "/img" + ext; std::ofstream(p, std::ios::binary) << bytes; return p; }
static void png(int ct, int depth, unsigned w, unsigned h, int inter, int trns, int filter, bool file)
{
    auto g = makePng(ct, depth, w, h, inter, trns, filter, file); PdfMemDocument d; auto im = d.CreateImage(); string what;
    int e = vf::errorOf([&] { if (file) im->LoadFromFile(scratchFile(".png", g.bytes)); else im->LoadFromBuffer(bufferview(g.bytes.data(), g.bytes.size())); }, &what);
    if (e != -1) { C->fail("png-refused", vf::fmt("error %d ", e) + what); return; }
    judge(d, *im, g.pic, ct != 3, true);
}
static void damaged(const string& bytes, const string& ext, const char* sig)
{
    PdfMemDocument d; auto im = d.CreateImage(); int e = vf::errorOf([&] { if (ext.size()) im->LoadFromFile(scratchFile(ext, bytes)); else im->LoadFromBuffer(bufferview(bytes.data(), bytes.size())); });
    if (e == -2) { C->fail(sig, "an unexpected exception"); return; }
    if (e == -1 && im->GetObject().HasStream() && (double)im->GetWidth() * im->GetHeight() < 1e6) for (int f = 0; f < 5; f++) { charbuff b; if (vf::errorOf([&] { im->DecodeTo(b, FM[f]); }) == -2) { C->fail(sig, "an unexpected exception on decoding"); return; } }
    C->outcome(vf::fmt("%s %d", sig, e)); C->trace();
}
// ---- TIFF -----------------------------------------------------------------------------------------------------------------
struct Tif { string bytes; Pic pic; };
// ph: photometric; alpha: an extra sample; rps: rows per strip; planar
static Tif makeTiff(bool big, int ph, int bps, int extra, unsigned w, unsigned h, unsigned rps, int planar, int orient)
{
    Tif r; r.pic.w = w; r.pic.h = h; int nc = ph == 2 ? 3 : ph == 5 ? 4 : 1, spp = nc + extra; unsigned max = (1u << bps) - 1;
    auto u16 = [&](unsigned v) { return big ? string{ (char)(v >> 8), (char)v } : string{ (char)v, (char)(v >> 8) }; };
    auto u32 = [&](unsigned v) { return big ? be32(v) : string{ (char)v, (char)(v >> 8), (char)(v >> 16), (char)(v >> 24) }; };
    auto sample = [&](unsigned x, unsigned y, int c) { return (px((y * w + x) * spp + c) | px((y * w + x) * spp + c + 500) << 8) & max; };
    string map; if (ph == 3) for (int k = 0; k < 3; k++) for (unsigned i = 0; i <= max; i++) map += u16((unsigned)px(i * 3 + k + 31) * 257);
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { Px p; if (ph == 3) { unsigned i = sample(x, y, 0); for (int k = 0; k < 3; k++) p.push_back(px(i * 3 + k + 31) / 255.0); } else for (int c = 0; c < nc; c++) { double v = sample(x, y, c) / (double)max; p.push_back(ph == 0 ? 1 - v : v); } p.push_back(1); r.pic.p.push_back(p); }
    std::vector<string> strips; for (int pl = 0; pl < (planar == 2 ? spp : 1); pl++) for (unsigned y0 = 0; y0 < h; y0 += rps)
    {
        string s; for (unsigned y = y0; y < std::min(h, y0 + rps); y++) { unsigned acc = 0, nb = 0; for (unsigned x = 0; x < w; x++) for (int c = planar == 2 ? pl : 0; c < (planar == 2 ? pl + 1 : spp); c++) { unsigned v = sample(x, y, c); if (bps == 16) s += u16(v); else { acc = acc << bps | v; nb += bps; if (nb == 8) { s += (char)acc; acc = nb = 0; } } } if (nb) s += (char)(acc << (8 - nb)); }
        strips.push_back(s);
    }
    std::map<unsigned, std::pair<unsigned, std::vector<unsigned>>> tags{ { 256, { 4, { w } } }, { 257, { 4, { h } } }, { 258, { 3, std::vector<unsigned>(spp, bps) } }, { 259, { 3, { 1 } } }, { 262, { 3, { (unsigned)ph } } }, { 277, { 3, { (unsigned)spp } } }, { 278, { 4, { rps } } }, { 284, { 3, { (unsigned)planar } } }, { 274, { 3, { (unsigned)orient } } } };
    if (extra) tags[338] = { 3, std::vector<unsigned>(extra, 2) };
    string body = big ? string("MM\0*", 4) : string("II*\0", 4); body += u32(0); std::vector<unsigned> offs, cnts;
    for (auto& s : strips) { offs.push_back((unsigned)body.size()); cnts.push_back((unsigned)s.size()); body += s; if (body.size() & 1) body += '\0'; }
    tags[273] = { 4, offs }; tags[279] = { 4, cnts }; if (ph == 3) { std::vector<unsigned> m; for (int k = 0; k < 3; k++) for (unsigned i = 0; i <= max; i++) m.push_back((unsigned)px(i * 3 + k + 31) * 257); tags[320] = { 3, m }; }
    std::map<unsigned, string> vals; for (auto& t : tags) { string v; for (auto x : t.second.second) v += t.second.first == 3 ? u16(x) : u32(x); vals[t.first] = v; }
    std::map<unsigned, unsigned> where; for (auto& v : vals) if (v.second.size() > 4) { where[v.first] = (unsigned)body.size(); body += v.second; if (body.size() & 1) body += '\0'; }
    unsigned ifd = (unsigned)body.size(); body += u16((unsigned)tags.size()); for (auto& t : tags) { body += u16(t.first) + u16(t.second.first) + u32((unsigned)t.second.second.size()); string v = vals[t.first]; if (v.size() > 4) body += u32(where[t.first]); else { v.resize(4); body += v; } } body += u32(0);
    auto o = u32(ifd); for (int i = 0; i < 4; i++) body[4 + i] = o[i]; r.bytes = body; return r;
}
static void tiff(bool big, int ph, int bps, int extra, unsigned w, unsigned h, unsigned rps, int planar, int orient, bool file)
{
    auto g = makeTiff(big, ph, bps, extra, w, h, rps, planar, orient); PdfMemDocument d; auto im = d.CreateImage(); string what;
    int e = vf::errorOf([&] { if (file) im->LoadFromFile(scratchFile(".tiff", g.bytes)); else im->LoadFromBuffer(bufferview(g.bytes.data(), g.bytes.size())); }, &what);
    bool must = orient == 1 && !extra && planar == 1 && (ph == 0 || ph == 1 ? true : ph == 3 ? bps <= 8 : bps == 8) && !(ph <= 1 && (bps == 2 || bps == 4));
    if (e == -2) { C->fail("tiff-error", what); return; }
    if (e >= 0) { if (must) C->fail("tiff-refused", vf::fmt("error %d ", e) + what); return; }
    judge(d, *im, g.pic, false, ph != 5);
}
// ---- JPEG -----------------------------------------------------------------------------------------------------------------
static void jpeg(bool gray, unsigned w, unsigned h, bool file, bool exp)
{
    jpeg_compress_struct cc; jpeg_error_mgr err; cc.err = jpeg_std_error(&err); jpeg_create_compress(&cc); unsigned char* mem = nullptr; unsigned long len = 0; jpeg_mem_dest(&cc, &mem, &len);
    cc.image_width = w; cc.image_height = h; cc.input_components = gray ? 1 : 3; cc.in_color_space = gray ? JCS_GRAYSCALE : JCS_RGB; jpeg_set_defaults(&cc); jpeg_set_quality(&cc, 90, TRUE); jpeg_start_compress(&cc, TRUE);
    std::vector<unsigned char> line(w * 3); for (unsigned y = 0; y < h; y++) { for (size_t i = 0; i < line.size(); i++) line[i] = px((unsigned)(y * 64 + i)); JSAMPROW r = line.data(); jpeg_write_scanlines(&cc, &r, 1); }
    jpeg_finish_compress(&cc); jpeg_destroy_compress(&cc); string bytes((char*)mem, len); free(mem);
    auto decode = [&](const string& b) { Pic p; jpeg_decompress_struct dc; jpeg_error_mgr e2; dc.err = jpeg_std_error(&e2); jpeg_create_decompress(&dc); jpeg_mem_src(&dc, (const unsigned char*)b.data(), b.size()); jpeg_read_header(&dc, TRUE); int ncc = dc.num_components; dc.out_color_space = JCS_RGB; jpeg_start_decompress(&dc); p.w = dc.output_width; p.h = dc.output_height; std::vector<unsigned char> l(p.w * 3); for (unsigned y = 0; y < p.h; y++) { JSAMPROW r = l.data(); jpeg_read_scanlines(&dc, &r, 1); for (unsigned x = 0; x < p.w; x++) { Px q; if (ncc == 1) q = { l[x * 3] / 255.0 }; else q = { l[x * 3] / 255.0, l[x * 3 + 1] / 255.0, l[x * 3 + 2] / 255.0 }; q.push_back(1); p.p.push_back(q); } } jpeg_finish_decompress(&dc); jpeg_destroy_decompress(&dc); return p; };
    Pic want = decode(bytes); PdfMemDocument d; auto im = d.CreateImage(); if (file) im->LoadFromFile(scratchFile(".jpg", bytes)); else im->LoadFromBuffer(bufferview(bytes.data(), bytes.size()));
    if (im->GetWidth() != w || im->GetHeight() != h) { C->fail("jpeg-size", "another size"); return; }
    for (int f = gray ? 0 : 1; f < 5; f++) { charbuff b; im->DecodeTo(b, FM[f]); unsigned row = defRow(f, w); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { auto q = (const unsigned char*)b.data() + y * row + x * BPP[f]; auto e = rgb(want.p[y * w + x]); bool sw = f == 2 || f == 4; if (fabs(q[0] / 255.0 - e[sw ? 2 : 0]) > 0.0026 || (f && (fabs(q[1] / 255.0 - e[1]) > 0.0026 || fabs(q[2] / 255.0 - e[sw ? 0 : 2]) > 0.0026)) || (f >= 3 && q[3] != 255)) { C->fail("jpeg-value", vf::fmt("pixel %u,%u as %s is %d %d %d, not", x, y, FNAME[f], q[0], q[1], q[2]) + show(e)); return; } } }
    auto cs = im->GetObject().GetDictionary().FindKey("ColorSpace"); if (!cs || string(cs->GetName().GetString()) != (gray ? "DeviceGray" : "DeviceRGB")) { C->fail("jpeg-space", "the colour space"); return; }
    if (exp) { charbuff out; PdfArray args; args.Add(1.0); im->ExportTo(out, PdfExportFormat::Jpeg, args); auto p = decode(string(out.data(), out.size())); if (p.w != w || p.h != h) { C->fail("export-size", vf::fmt("%u x %u", p.w, p.h)); return; } double sum = 0; for (size_t i = 0; i < p.p.size(); i++) { auto x = rgb(p.p[i]), y = rgb(want.p[i]); for (int k = 0; k < 3; k++) sum += x[k] - y[k]; } if (p.p.size() && fabs(sum / p.p.size()) > 0.15) { C->fail("export-value", "the exported image is another one"); return; } }
    C->trace();
}
// A TIFF whose rows alone would not fit into memory
static bool wide(const string& b)
{
    if (b.size() < 8 || (b[0] != 'M' && b[0] != 'I')) return false;
    bool big = b[0] == 'M'; auto rd = [&](size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(p + i < b.size() ? (unsigned char)b[p + i] : 0) << 8 * (big ? n - 1 - i : i); return v; };
    size_t ifd = rd(4, 4); for (unsigned i = 0; i < rd(ifd, 2); i++) { size_t e = ifd + 2 + 12 * i; if (rd(e, 2) == 256 && rd(e + 8, rd(e + 2, 2) == 3 ? 2 : 4) > 1000000) return true; if (rd(e, 2) == 277 && rd(e + 8, 2) > 1000) return true; }
    return false;
}
static void explore(vf::Ctx& c)
{
    C = &c; const unsigned W = c.thorough ? 17 : 9, H = c.thorough ? 4 : 2;
    for (int f = 0; f < 5; f++) for (unsigned w = 1; w <= W; w++) for (unsigned h = 0; h <= H; h++) for (int ex : { -100, 0, 1, 2, 3, 8, -1 }) for (int m : { 0, 1 }) for (bool s : { false, true })
    { if (!c.mine()) { c.skip(); continue; } c.run("pixels", [&] { return vf::fmt("%s %u x %u, rows %s%d, mask %d, %s", FNAME[f], w, h, ex == -100 ? "default " : "+", ex, m, s ? "stream" : "buffer"); }, [&] { pixels(f, w, h, ex, m, s); }); }
    for (int before = 1; before < 6; before++) for (int f = 0; f < 3; f++) for (unsigned w = 1; w <= 9; w += 1 + 2 * (w > 4)) for (int m = 0; m < 2; m++) for (int s = 0; s < 2; s++)
    { if (!c.mine()) { c.skip(); continue; } c.run("pixels-again", [&] { return vf::fmt("%s %u x 2, mask %d, %s%s", FNAME[f], w, m, s ? "stream" : "buffer", BEFORE[before]); }, [&] { pixels(f, w, 2, -100, m, s, before); }); }
    for (int before = 1; before < 6; before++) for (int cs = 0; cs < 2; cs++) for (int bpc : { 1, 2, 4, 8, 16 }) for (unsigned w = 1; w <= 9; w += 4) for (int dec = 0; dec < 4; dec++) for (int m = 0; m < 2; m++)
    { if (!c.mine()) { c.skip(); continue; } c.run("raw-again", [&] { return vf::fmt("%s, %d bits, %u x 2, decode %d, mask %d%s", cs ? "RGB" : "gray", bpc, w, dec, m, BEFORE[before]); }, [&] { raw(cs, bpc, w, 2, 0, dec, m, before); }); }
    for (int cs = 0; cs < 2; cs++) for (int bpc : { 1, 2, 4, 8, 16 }) for (unsigned w : { 1u, 2u, 3u, 5u, 8u, 9u }) for (unsigned h = 0; h <= H; h++) for (int len : { 0, 1, -1 }) for (int dec = 0; dec < 4; dec++) for (int m = 0; m < 6; m++)
    { if (!c.mine()) { c.skip(); continue; } c.run("raw", [&] { return vf::fmt("%s, %d bits, %u x %u, length %+d, decode %d, mask %d", cs ? "RGB" : "gray", bpc, w, h, len, dec, m); }, [&] { raw(cs, bpc, w, h, len, dec, m); }); }
    static const std::pair<int, int> CT[] = { { 0, 1 }, { 0, 2 }, { 0, 4 }, { 0, 8 }, { 0, 16 }, { 2, 8 }, { 2, 16 }, { 3, 1 }, { 3, 2 }, { 3, 4 }, { 3, 8 }, { 4, 8 }, { 4, 16 }, { 6, 8 }, { 6, 16 } };
    for (auto& t : CT) for (unsigned w = 1; w <= W; w++) for (unsigned h = 1; h <= H + 1; h++) for (int in : { 0, 1 }) for (int tr = 0; tr < (t.first == 3 ? 3 : t.first < 3 ? 2 : 1); tr++) for (int fi = 0; fi < 5; fi++) for (bool file : { false, true })
    { if (!c.thorough && fi && (w + h + in) % 3) continue; if (!c.mine()) { c.skip(); continue; } c.run("png", [&] { return vf::fmt("type %d, %d bits, %u x %u, interlace %d, transparency %d, filter %d, %s", t.first, t.second, w, h, in, tr, fi, file ? "file" : "buffer"); }, [&] { png(t.first, t.second, w, h, in, tr, fi, file); }); }
    for (bool big : { false, true }) for (int ph : { 0, 1, 2, 3, 5 }) for (int bps : { 1, 2, 4, 8, 16 }) for (int ex : { 0, 1, 2 }) for (unsigned w = 1; w <= W; w++) for (unsigned h = 1; h <= H; h++) for (unsigned rps : { 1u, 2u }) for (int pl : { 1, 2 }) for (int o : { 1, 2 }) for (bool file : { false, true })
    { if (o == 2 && (w > 3 || ex)) continue; if (!c.mine()) { c.skip(); continue; } c.run("tiff", [&] { return vf::fmt("%s, photometric %d, %d bits, %d extra samples, %u x %u, %u rows per strip, planar %d, orientation %d, %s", big ? "MM" : "II", ph, bps, ex, w, h, rps, pl, o, file ? "file" : "buffer"); }, [&] { tiff(big, ph, bps, ex, w, h, rps, pl, o, file); }); }
    for (bool g : { false, true }) for (unsigned w = 1; w <= W; w++) for (unsigned h = 1; h <= H; h++) for (bool file : { false, true })
    { if (!c.mine()) { c.skip(); continue; } c.run("jpeg", [&] { return vf::fmt("%s %u x %u %s", g ? "gray" : "RGB", w, h, file ? "file" : "buffer"); }, [&] { jpeg(g, w, h, file, true); }); }
    auto damage = [&](const string& b, const string& ext, const char* sig) {
        for (size_t n = 0; n < b.size(); n++) { if (!c.mine()) { c.skip(); continue; } c.run("truncated", [&] { return vf::fmt("%s cut to %zu of %zu bytes", sig, n, b.size()); }, [&] { damaged(b.substr(0, n), ext, sig); }); }
        for (size_t n = 4; n < b.size(); n++) for (int v : { 0, 255, 1, 128 }) { if (!c.mine()) { c.skip(); continue; } c.run("altered", [&] { return vf::fmt("%s, byte %zu set to %d", sig, n, v); }, [&] { string x = b; x[n] = (char)v; if (wide(x)) return; damaged(x, ext, sig); }); }
    };
    for (auto ext : { "", ".png" }) damage(makePng(3, 4, 5, 2, 0, 1, 1).bytes, ext, "png-palette");
    damage(makePng(6, 8, 3, 2, 1, 0, 4).bytes, "", "png-rgba");
    for (auto ext : { "", ".tiff" }) { damage(makeTiff(false, 3, 4, 0, 5, 2, 1, 1, 1).bytes, ext, "tiff-palette"); damage(makeTiff(true, 2, 8, 0, 3, 2, 2, 1, 1).bytes, ext, "tiff-rgb"); }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P33";
    cfg.rule = "all images of the families within the bounds; a state is an image (its pixels), a transition one decoding; each is judged by decoding in all formats and row sizes by all functions, in the saved file by an evaluation of the image dictionary written from the specification, and after reloading";
    cfg.assumptions = { "padding at the end of rows is not judged", "formats the library refuses are accepted as refused, except those it documents" };
    return vf::main(argc, argv, cfg, explore);
}
