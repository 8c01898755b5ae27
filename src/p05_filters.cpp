// P04 / P05: stream filters. P05 decodes the output of the independent encoders
// below in all their admissible variants, in all splits; P04 encodes with the
// library, in all splits and chains, and decodes again.
#include "ref.h"
#include <algorithm>
#include <memory>
#include <zlib.h>
#include <pdfmm/base/PdfFilter.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm;
using std::string; using std::vector; using std::shared_ptr;
static vf::Ctx* C;
typedef vector<unsigned> Cuts;      // chunk lengths; the last one repeats until the end

// An input that hands out at most the listed lengths per read
struct ChunkIn : InputStream
{
    string d; Cuts cuts; size_t p = 0, i = 0; bool lateEof;
    ChunkIn(const string& s, const Cuts& c, bool late) : d(s), cuts(c), lateEof(late) {}
    size_t readBuffer(char* b, size_t n, bool& eof) override
    {
        size_t k = std::min({ n, (size_t)cuts[std::min(i, cuts.size() - 1)], d.size() - p });
        i++;
        memcpy(b, d.data() + p, k); p += k;
        eof = p == d.size() && (!lateEof || k == 0);
        return k;
    }
};
struct Sink : OutputStream
{
    string d;
    void writeBuffer(const char* b, size_t n) override { d.append(b, n); }
};
template <class F> static void chunks(const string& s, const Cuts& c, F f)
{
    size_t p = 0, i = 0;
    while (p < s.size()) { size_t k = std::min((size_t)c[std::min(i, c.size() - 1)], s.size() - p); i++; f(s.data() + p, k); p += k; }
}
static string decodeBlocks(PdfFilterType t, const string& e, const Cuts& c, const PdfDictionary* parms)
{
    Sink out; auto f = PdfFilterFactory::Create(t);
    f->BeginDecode(out, parms);
    chunks(e, c, [&](const char* b, size_t n) { f->DecodeBlock({ b, n }); });
    f->EndDecode();
    return out.d;
}
static string decodeStream(const PdfFilterList& l, const string& e, const Cuts& c, bool late, unsigned rd, const vector<const PdfDictionary*>& parms)
{
    auto in = std::make_shared<ChunkIn>(e, c, late);
    auto s = PdfFilterFactory::CreateDecodeStream(in, l, parms);
    string out; string buf(rd, 0); bool eof = false; int guard = 0;
    while (!eof)
    {
        size_t n = s->Read(&buf[0], rd, eof);
        out.append(buf, 0, n);
        if (n == 0 && ++guard > 1000) { C->fail("no-eof", "the end of the stream is never reported"); break; }
    }
    return out;
}
// All compositions of n (n small), or the single cuts and constant sizes
static vector<Cuts> cutsOf(size_t n, bool rich)
{
    vector<Cuts> r;
    if (n <= 1) return { { 1 } };
    if (n <= (rich ? 9u : 5u))
    {
        for (unsigned m = 0; m < (1u << (n - 1)); m++)
        {
            Cuts c; unsigned len = 1;
            for (size_t i = 0; i < n - 1; i++) if (m >> i & 1) { c.push_back(len); len = 1; } else len++;
            c.push_back(len); r.push_back(c);
        }
        return r;
    }
    r.push_back({ (unsigned)n });
    for (unsigned k : { 1u, 2u, 3u, 5u, 7u, 4095u, 4096u, 4097u }) if (k < n) r.push_back({ k });
    if (n <= 40 || (rich && n <= 200)) for (unsigned k = 1; k < n; k++) r.push_back({ k, (unsigned)n });
    else for (unsigned k : { 1u, 2u, 3u, 4u, 5u, 6u, 8u, 16u, 64u, 255u, 256u, 257u, 511u, 512u, 1000u, 4095u, 4096u }) if (k < n) { r.push_back({ k, (unsigned)n }); r.push_back({ (unsigned)n - k, (unsigned)n }); }
    return r;
}
static void expect(const string& got, const string& want, const string& how)
{
    if (got == want) return;
    size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
    C->fail("data", how + vf::fmt(": %zu bytes instead of %zu, differing at %zu: ", got.size(), want.size(), p) + vf::hexs(got.substr(p, 16)) + " instead of " + vf::hexs(want.substr(p, 16)));
}
static string cutText(const Cuts& c) { string s = "chunks"; for (auto x : c) s += vf::fmt(" %u", x); return s; }

// Decoding e with filter t must give want however it is split
static void decodeAll(PdfFilterType t, const string& e, const string& want, const ref::Val& parms, bool rich)
{
    PdfObject po; const PdfDictionary* pd = nullptr;
    if (parms.k == ref::Dict) { po = ref::toObject(parms); pd = &po.GetDictionary(); }
    string what;
    for (auto& c : cutsOf(e.size(), rich))
    {
        int err = vf::errorOf([&] {
            expect(decodeBlocks(t, e, c, pd), want, "blocks, " + cutText(c));
            C->trace();
            if (C->failed()) return;
            for (unsigned rd : { 1u, 3u, 5000u })
                for (bool late : { false, true })
                {
                    if (!rich && late != (rd == 3)) continue;
                    expect(decodeStream({ t }, e, c, late, rd, { pd }), want, vf::fmt("stream read by %u, late end %d, ", rd, late) + cutText(c));
                    C->trace();
                    if (C->failed()) return;
                }
        }, &what);
        if (err != -1) C->fail("error", vf::fmt("error %d (", err) + what + ") for " + cutText(c) + " of " + vf::hexs(e.substr(0, 64)));
        if (C->failed()) return;
    }
    C->state(vf::hash(e, vf::hash(parms.k == ref::Dict ? ref::show(parms) : "", (uint64_t)t)));
    C->outcome(want);
}

// ---- independent encoders ------------------------------------------------
static string hexEnc(const string& d, int kase)
{
    static const char* U = "0123456789ABCDEF"; static const char* L = "0123456789abcdef";
    string r; int i = 0;
    for (unsigned char c : d) { r += (kase == 0 || (kase == 2 && i % 2) ? U : L)[c >> 4]; r += (kase == 0 || (kase == 2 && i % 3) ? U : L)[c & 15]; i++; }
    return r;
}
static string a85Enc(const string& d, bool useZ = true)
{
    string r; size_t i = 0;
    for (; i + 4 <= d.size(); i += 4)
    {
        uint32_t v = 0; for (int k = 0; k < 4; k++) v = v << 8 | (unsigned char)d[i + k];
        if (v == 0 && useZ) { r += 'z'; continue; }
        char t[5]; for (int k = 4; k >= 0; k--) { t[k] = (char)(v % 85 + '!'); v /= 85; }
        r.append(t, 5);
    }
    size_t n = d.size() - i;
    if (n)
    {
        uint32_t v = 0; for (size_t k = 0; k < 4; k++) v = v << 8 | (k < n ? (unsigned char)d[i + k] : 0);
        char t[5]; for (int k = 4; k >= 0; k--) { t[k] = (char)(v % 85 + '!'); v /= 85; }
        r.append(t, n + 1);
    }
    return r;
}
static string rleSeg(const string& s, bool repeat)
{
    if (repeat) return string(1, (char)(257 - s.size())) + s[0];
    return string(1, (char)(s.size() - 1)) + s;
}
static void rleAll(const string& d, size_t p, const string& acc, const std::function<void(const string&)>& f)
{
    if (p == d.size()) { f(acc); return; }
    for (size_t n = 1; p + n <= d.size() && n <= 128; n++)
    {
        string s = d.substr(p, n);
        rleAll(d, p + n, acc + rleSeg(s, false), f);
        if (n >= 2 && s.find_first_not_of(s[0]) == string::npos) rleAll(d, p + n, acc + rleSeg(s, true), f);
    }
}
// LZW encoder of the PDF specification: variable code lengths from 9 to 12 bits,
// high order bit first
struct Lzw
{
    int early; string out; uint64_t acc = 0; int bits = 0, width = 9; int next = 258; bool first = true;
    vector<string> tab; string prev;
    explicit Lzw(int e) : early(e) { reset(); }
    void reset() { tab.assign(258, ""); for (int i = 0; i < 256; i++) tab[i] = string(1, (char)i); width = 9; prev.clear(); first = true; }
    void put(int code) { acc = acc << width | (unsigned)code; bits += width; while (bits >= 8) { out += (char)(acc >> (bits - 8)); bits -= 8; } acc &= ((1ull << bits) - 1); }
    void clear() { put(256); reset(); }
    // emit a code; the string it stands for must be in the table (or be the one being made)
    void code(int c)
    {
        string s = c < (int)tab.size() ? tab[c] : prev + prev[0];
        put(c);
        // what the reader now adds: previous string plus first byte of this one
        if (!first && tab.size() < 4096) tab.push_back(prev + s[0]);
        first = false; prev = s;
        int n = (int)tab.size() + early;
        width = n >= 2048 ? 12 : n >= 1024 ? 11 : n >= 512 ? 10 : 9;
    }
    string end() { put(257); if (bits) out += (char)(acc << (8 - bits)); bits = 0; return out; }
    // the codes that may come next for the text t at p
    vector<int> fits(const string& t, size_t p) const
    {
        vector<int> r;
        for (int i = 0; i < (int)tab.size(); i++) if (i != 256 && i != 257 && !tab[i].empty() && t.compare(p, tab[i].size(), tab[i]) == 0) r.push_back(i);
        if (!first && tab.size() < 4096) { string s = prev + prev[0]; if (t.compare(p, s.size(), s) == 0) r.push_back((int)tab.size()); }
        return r;
    }
};
static void lzwAll(const string& d, size_t p, Lzw e, int clears, const std::function<void(Lzw)>& f)
{
    if (p == d.size()) { f(e); return; }
    for (int c : e.fits(d, p)) { Lzw x = e; size_t n = c < (int)x.tab.size() ? x.tab[c].size() : x.prev.size() + 1; x.code(c); lzwAll(d, p + n, x, clears, f); }
    if (clears > 0) { Lzw x = e; x.clear(); lzwAll(d, p, x, clears - 1, f); }
}
// Longest match with a clear code whenever the table reaches `limit` entries (0: never)
static string lzwLong(const string& d, int early, int limit, bool startClear)
{
    Lzw e(early); if (startClear) e.clear();
    std::map<string, int> idx; auto rebuild = [&] { idx.clear(); for (int i = 0; i < 256; i++) idx[string(1, (char)i)] = i; };
    rebuild();
    size_t known = 258;
    for (size_t p = 0; p < d.size();)
    {
        for (; known < e.tab.size(); known++) idx.emplace(e.tab[known], (int)known);
        if (limit && (int)e.tab.size() >= limit) { e.clear(); rebuild(); known = 258; }
        int best = (unsigned char)d[p]; size_t n = 1;
        while (p + n < d.size()) { auto it = idx.find(d.substr(p, n + 1)); if (it == idx.end()) break; best = it->second; n++; }
        if (!e.first && e.tab.size() < 4096) { string s = e.prev + e.prev[0]; if (s.size() > n && d.compare(p, s.size(), s) == 0) { best = (int)e.tab.size(); n = s.size(); } }
        e.code(best); p += n;
    }
    return e.end();
}
static string flateEnc(const string& d, int level, int strategy, int wbits, int mem, unsigned flushEvery, int flush)
{
    z_stream z; memset(&z, 0, sizeof z);
    if (deflateInit2(&z, level, Z_DEFLATED, wbits, mem, strategy) != Z_OK) throw std::runtime_error("deflate");
    string out; char buf[8192]; size_t p = 0;
    do
    {
        size_t n = flushEvery ? std::min((size_t)flushEvery, d.size() - p) : d.size() - p;
        z.next_in = (Bytef*)d.data() + p; z.avail_in = (unsigned)n; p += n;
        int mode = p == d.size() ? Z_FINISH : flush;
        do { z.next_out = (Bytef*)buf; z.avail_out = sizeof buf; deflate(&z, mode); out.append(buf, sizeof buf - z.avail_out); } while (z.avail_out == 0);
    } while (p < d.size());
    deflateEnd(&z);
    return out;
}
struct Pred { int colors, bpc, cols; int bpp() const { return std::max(1, colors * bpc / 8); } int row() const { return (colors * bpc * cols + 7) / 8; } };
static int paeth(int a, int b, int c) { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); return pa <= pb && pa <= pc ? a : pb <= pc ? b : c; }
static string pngEnc(const string& d, const Pred& P, const vector<unsigned>& tags)
{
    string r; int n = P.row(), k = P.bpp(); string up(n, 0);
    for (size_t y = 0; y * n < d.size(); y++)
    {
        string row = d.substr(y * n, n); unsigned t = tags[y % tags.size()]; r += (char)t;
        for (int i = 0; i < n; i++)
        {
            int a = i < k ? 0 : (unsigned char)row[i - k], b = (unsigned char)up[i], c = i < k ? 0 : (unsigned char)up[i - k];
            int pr = t == 0 ? 0 : t == 1 ? a : t == 2 ? b : t == 3 ? (a + b) / 2 : paeth(a, b, c);
            r += (char)((unsigned char)row[i] - pr);
        }
        up = row;
    }
    return r;
}
static string tiffEnc(const string& d, const Pred& P)
{
    string r = d; int n = P.row();
    for (size_t y = 0; y * n < d.size(); y++) for (int i = n - 1; i >= P.colors; i--) r[y * n + i] = (char)(d[y * n + i] - d[y * n + i - P.colors]);
    return r;
}
static string structured(unsigned n, int kind)
{
    string s(n, 0); uint32_t x = 12345;
    for (unsigned i = 0; i < n; i++)
        switch (kind)
        {
            case 0: break;                                            // zeros
            case 1: s[i] = (char)i; break;                            // ramp
            case 2: x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); break;   // noise
            case 3: s[i] = "ab"[(i / 3) % 2]; break;
            default: s[i] = (char)(i * i >> 7);
        }
    return s;
}
static const vector<std::pair<PdfFilterType, const char*>> ENC = { { PdfFilterType::ASCIIHexDecode, "ASCIIHexDecode" }, { PdfFilterType::ASCII85Decode, "ASCII85Decode" }, { PdfFilterType::FlateDecode, "FlateDecode" } };

// ---- P05 -----------------------------------------------------------------
struct Item { string name, enc, want; ref::Val filter, parms; };
static vector<Item> docItems;
static void docRun(const vector<Item>& items, size_t from, size_t n)
{
    ref::Builder b; b.obj(1, ref::Val::D({ { "Type", ref::Val::N("Catalog") }, { "Pages", ref::Val::Rf(2) } }));
    b.obj(2, ref::Val::D({ { "Type", ref::Val::N("Pages") }, { "Kids", ref::Val::A() }, { "Count", ref::Val::I(0) } }));
    for (size_t i = 0; i < n; i++)
    {
        auto& it = items[from + i]; ref::Val d = ref::Val::D();
        d.m["Filter"] = it.filter; if (it.parms.k != ref::Null) d.m["DecodeParms"] = it.parms;
        b.stream(3 + (int)i, d, it.enc);
    }
    auto x = b.xrefTableAuto(ref::Val::D({ { "Root", ref::Val::Rf(1) } })); b.startxref(x);
    PdfMemDocument doc; string what;
    int err = vf::errorOf([&] {
        doc.LoadFromBuffer({ b.out.data(), b.out.size() });
        for (size_t i = 0; i < n; i++)
        {
            auto o = doc.GetObjects().GetObject(PdfReference((unsigned)(3 + i), 0));
            if (!o) { C->fail("missing", "object missing"); return; }
            what = items[from + i].name;
            expect((string)o->MustGetStream().GetCopy(), items[from + i].want, "document stream " + items[from + i].name);
            auto is = o->MustGetStream().GetInputStream(); string got; char ch; while (is.Read(ch)) got += ch;
            expect(got, items[from + i].want, "document stream by characters " + items[from + i].name);
            C->trace(2);
        }
    }, &what);
    if (err != -1) C->fail("error", vf::fmt("error %d ", err) + what);
}
static void dec(const char* tag, PdfFilterType t, const string& e, const string& want, const ref::Val& parms = ref::Val(), bool rich = true)
{
    C->run(tag, [&] { return vf::fmt("%s ", tag) + (parms.k == ref::Dict ? ref::show(parms) : "") + " encoded " + vf::hexs(e.substr(0, 100)) + vf::fmt(" (%zu bytes)", e.size()); }, [&] { decodeAll(t, e, want, parms, rich); });
}
static void exploreDec(vf::Ctx& c)
{
    C = &c; bool T = c.thorough;
    auto H = PdfFilterType::ASCIIHexDecode, A = PdfFilterType::ASCII85Decode, R = PdfFilterType::RunLengthDecode, L = PdfFilterType::LZWDecode, F = PdfFilterType::FlateDecode;
    string alpha("\0\x01" "A\x7F\x80\xFF", 6);
    vector<string> datas; vf::strings(alpha, 0, T ? 5 : 4, [&](const string& s) { datas.push_back(s); });
    for (int i = 0; i < 256; i++) datas.push_back(string(1, (char)i));
    string WS("\0\t\n\f\r ", 6);
    vector<string> tails = { "", ">", ">X", ">41>", "> \n41", "\n>\n" };
    for (auto& d : datas)
        for (int k = 0; k < 3; k++)
        {
            string e = hexEnc(d, k);
            for (auto& t : tails) dec("hex", H, e + t, d, {}, d.size() < 4 || T);
            if (!e.empty() && e.back() == '0') for (auto& t : tails) dec("hex-odd", H, e.substr(0, e.size() - 1) + t, d, {}, d.size() < 4 || T);
            if (d.size() <= 2 && k == 0) for (size_t p = 0; p <= e.size(); p++) for (char w : WS) { dec("hex-ws", H, e.substr(0, p) + w + e.substr(p) + ">", d); dec("hex-ws", H, e.substr(0, p) + w + "\r\n" + e.substr(p), d); }
        }
    for (auto& d : datas)
        for (bool z : { true, false })
        {
            string e = a85Enc(d, z);
            if (!z && e == a85Enc(d)) continue;
            for (auto& t : { "", "~>", "~>X", "~>~>", "~>!!!!!", "\n~>\n", " ~>z" }) dec("a85", A, e + t, d, {}, d.size() < 4 || T);
            if (d.size() <= 4) for (size_t p = 0; p <= e.size(); p++) for (char w : WS) dec("a85-ws", A, e.substr(0, p) + w + e.substr(p) + "~>", d, {}, d.size() < 2);
        }
    vf::strings(string("\0\0\0\0\x01", 1) + "\x01\xFF", 5, T ? 10 : 8, [&](const string& d) { dec("a85-long", A, a85Enc(d) + "~>", d, {}, false); });
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += T ? 1 : 5) { string d{ (char)a, (char)b, (char)(a ^ b), (char)(a + b) }; for (size_t n = 2; n <= 4; n++) dec("a85-bytes", A, a85Enc(d.substr(0, n)) + "~>", d.substr(0, n), {}, false); }
    // run lengths
    vf::strings(string("a\x80\xFF", 3), 0, T ? 6 : 5, [&](const string& d) {
        rleAll(d, 0, "", [&](const string& e) { for (auto& t : { string("\x80", 1), string("\x80" "ab", 3), string(), string("\x80\x80\x05", 3) }) dec("rle", R, e + t, d, {}, T); });
    });
    for (unsigned n = 1; n <= 128; n++) for (char ch : { 'a', '\x80', '\0', '\xFF' })
    {
        string lit = structured(n, 1), rep(n, ch);
        dec("rle-len", R, rleSeg(lit, false) + "\x80", lit, {}, false);
        if (n >= 2) { dec("rle-len", R, rleSeg(rep, true) + "\x80", rep, {}, false); dec("rle-mix", R, rleSeg(rep, true) + rleSeg(lit, false) + rleSeg(rep, true) + "\x80", rep + lit + rep, {}, false); }
    }
    // LZW
    for (int early : { -1, 0, 1 })
    {
        ref::Val parms; if (early >= 0) parms = ref::Val::D({ { "EarlyChange", ref::Val::I(early) } });
        int e = early == 0 ? 0 : 1;
        vf::strings(string("ab"), 0, T ? 9 : 7, [&](const string& d) {
            for (bool start : { true, false }) { Lzw x(e); if (start) x.clear(); lzwAll(d, 0, x, d.size() <= 4 ? 2 : d.size() <= 6 ? 1 : 0, [&](Lzw y) { dec("lzw", L, y.end(), d, parms, T); }); }
        });
        vf::strings(string("\0\x80\xFF", 3), 1, T ? 5 : 4, [&](const string& d) { Lzw x(e); x.clear(); lzwAll(d, 0, x, 1, [&](Lzw y) { string z = y.end(); dec("lzw", L, z, d, parms, false); dec("lzw-tail", L, z + "\x12\x34\x80", d, parms, false); }); });
        for (int kind = 0; kind < 5; kind++)
            for (unsigned n : { 250u, 253u, 254u, 255u, 256u, 257u, 258u, 300u, 510u, 511u, 512u, 760u, 765u, 766u, 767u, 768u, 769u, 1024u, 1788u, 1790u, 1791u, 1792u, 2048u, 3834u, 3836u, 3837u, 3838u, 3839u, 3840u, 3842u, 4096u, 5000u, 9000u, 20000u })
                for (int limit : { 0, 300, 511, 512, 513, 1023, 1024, 2047, 2048, 4094, 4095, 4096 })
                {
                    if (!T && (n > 5000 || (limit > 300 && limit < 4094)) && (n + limit) % 3) continue;
                    string d = structured(n, kind);
                    dec("lzw-long", L, lzwLong(d, e, limit, true), d, parms, false);
                }
        for (unsigned n = 240; n < 270; n++) { string d = structured(n, 2); dec("lzw-width", L, lzwLong(d, e, 0, false), d, parms, false); }
        for (unsigned n = 760; n < 775; n++) { string d = structured(n, 2); dec("lzw-width", L, lzwLong(d, e, 0, true), d, parms, false); }
        for (unsigned n = 3830; n < 3845; n++) { string d = structured(n, 2); dec("lzw-width", L, lzwLong(d, e, 0, true), d, parms, false); dec("lzw-width", L, lzwLong(d, e, 4096, true), d, parms, false); }
    }
    // Flate
    vector<string> fd = datas;
    for (int kind = 0; kind < 5; kind++) for (unsigned n : { 20u, 255u, 4095u, 4096u, 4097u, 8191u, 8192u, 8193u, 12288u, 40000u }) fd.push_back(structured(n, kind));
    for (auto& d : fd)
        for (int level : { 0, 1, 6, 9 })
        {
            if (d.size() > 1 && d.size() < 10 && level != 6 && !T) continue;
            for (int st : { Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_FIXED, Z_RLE })
            {
                if (d.size() > 1 && st != Z_DEFAULT_STRATEGY && d.size() < 10) continue;
                dec("flate", F, flateEnc(d, level, st, 15, 8, 0, Z_NO_FLUSH), d, {}, d.size() < 3);
                if (d.size() != 1) { dec("flate", F, flateEnc(d, level, st, 9, 1, 1000, Z_SYNC_FLUSH), d, {}, false); dec("flate", F, flateEnc(d, level, st, 12, 9, 777, Z_FULL_FLUSH), d, {}, false); }
            }
            if (d.size() != 1) for (auto& t : { "\n", "\r\n", "\0\0\0", "xyz\x78\x9c" }) dec("flate-tail", F, flateEnc(d, level, Z_DEFAULT_STRATEGY, 15, 8, 0, Z_NO_FLUSH) + t, d, {}, false);
        }
    // Predictors
    string PB("\0\x01\x7F\x80\xFF", 5);
    auto pred = [&](const Pred& P, int predictor, const string& d, const string& enc, bool rich) {
        ref::Val parms = ref::Val::D({ { "Predictor", ref::Val::I(predictor) } });
        if (P.colors != 1) parms.m["Colors"] = ref::Val::I(P.colors);
        if (P.bpc != 8) parms.m["BitsPerComponent"] = ref::Val::I(P.bpc);
        if (P.cols != 1) parms.m["Columns"] = ref::Val::I(P.cols);
        dec("pred-flate", F, flateEnc(enc, 6, Z_DEFAULT_STRATEGY, 15, 8, 0, Z_NO_FLUSH), d, parms, rich);
        if (rich || d.size() > 8) { dec("pred-stored", F, flateEnc(enc, 0, Z_DEFAULT_STRATEGY, 15, 8, 0, Z_NO_FLUSH), d, parms, rich); dec("pred-lzw", L, lzwLong(enc, 1, 4096, true), d, parms, rich); }
    };
    for (int cols : { 1, 2, 3 })
        for (unsigned rows = 1; rows <= 2; rows++)
        {
            Pred P{ 1, 8, cols };
            if (cols * rows > (T ? 6u : 4u)) continue;
            vf::strings(PB, cols * rows, cols * rows, [&](const string& d) {
                vf::sequences(5, rows, [&](const vector<unsigned>& tags) { for (int p : { 10, 12, 15 }) { if (p != 15 && (tags[0] != 2 || d.size() > 2)) continue; pred(P, p, d, pngEnc(d, P, tags), false); } });
                pred(P, 2, d, tiffEnc(d, P), false); pred(P, 1, d, d, false);
            });
        }
    for (int colors : { 1, 2, 3, 4, 5 })
        for (int bpc : { 1, 2, 4, 8, 16 })
            for (int cols : { 1, 2, 3, 4, 5, 7, 8, 9, 17 })
            {
                Pred P{ colors, bpc, cols };
                for (int kind : { 1, 2, 4 })
                {
                    string d = structured(P.row() * 3, kind);
                    vf::sequences(5, 3, [&](const vector<unsigned>& tags) { if ((kind == 2 && cols <= 5) || T) pred(P, 15, d, pngEnc(d, P, tags), false); });
                    for (int p = 10; p <= 14; p++) pred(P, p, d, pngEnc(d, P, { (unsigned)(p - 10) }), false);
                    if (bpc == 8) pred(P, 2, d, tiffEnc(d, P), false);
                    pred(P, 1, d, d, false);
                }
            }
    for (int cols : { 1000, 4094, 4095, 4096, 4097 }) for (int colors : { 1, 3 }) { Pred P{ colors, 8, cols }; string d = structured(P.row() * 6, 4); pred(P, 15, d, pngEnc(d, P, { 0, 1, 2, 3, 4, 2 }), false); pred(P, 2, d, tiffEnc(d, P), false); }
    // chains of decoders, in documents
    vector<Item> items;
    vector<string> cd; vf::strings(string("\0a\xFF", 3), 0, 3, [&](const string& s) { cd.push_back(s); });
    for (int k = 0; k < 5; k++) for (unsigned n : { 100u, 4096u, 9000u }) cd.push_back(structured(n, k));
    struct Fil { const char* n; ref::Val parms; std::function<string(const string&)> enc; };
    Pred P4{ 1, 8, 4 };
    auto pad = [](string s) { return s; }; (void)pad;
    vector<Fil> fl = {
        { "ASCIIHexDecode", {}, [](const string& d) { return hexEnc(d, 2) + ">"; } }, { "ASCIIHexDecode", {}, [](const string& d) { string e = hexEnc(d, 1), r; for (size_t i = 0; i < e.size(); i++) { r += e[i]; if (i % 40 == 39) r += '\n'; } return r + ">\n"; } },
        { "ASCII85Decode", {}, [](const string& d) { string e = a85Enc(d), r; for (size_t i = 0; i < e.size(); i++) { r += e[i]; if (i % 71 == 70) r += "\r\n"; } return r + "~>"; } }, { "ASCII85Decode", {}, [](const string& d) { return a85Enc(d) + "~>"; } },
        { "RunLengthDecode", {}, [](const string& d) { string r; for (size_t i = 0; i < d.size();) { size_t n = 1; while (i + n < d.size() && d[i + n] == d[i] && n < 128) n++; if (n >= 2) r += rleSeg(d.substr(i, n), true); else r += rleSeg(d.substr(i, 1), false); i += n; } return r + "\x80"; } },
        { "LZWDecode", ref::Val::D({ { "EarlyChange", ref::Val::I(0) } }), [](const string& d) { return lzwLong(d, 0, 4096, true); } }, { "LZWDecode", {}, [](const string& d) { return lzwLong(d, 1, 4095, true); } },
        { "FlateDecode", {}, [](const string& d) { return flateEnc(d, 6, 0, 15, 8, 0, 0); } }, { "FlateDecode", ref::Val::D({ { "Predictor", ref::Val::I(1) } }), [](const string& d) { return flateEnc(d, 1, 0, 15, 8, 0, 0); } },
    };
    for (auto& d : cd)
        for (unsigned n = 1; n <= 3; n++)
        {
            if (n == 3 && (d.size() > 4096 || (!T && d.size() > 1 && d.size() < 100))) continue;
            vf::sequences(fl.size(), n, [&](const vector<unsigned>& v) {
                Item it; it.want = d;
                ref::Val f = ref::Val::A(), p = ref::Val::A(); bool any = false;
                for (auto x : v) { f.a.push_back(ref::Val::N(fl[x].n)); p.a.push_back(fl[x].parms); any |= fl[x].parms.k == ref::Dict; it.name += string(fl[x].n) + " "; }
                it.filter = n == 1 ? f.a[0] : f; if (any) it.parms = n == 1 ? p.a[0] : p;
                it.enc = "\x01"; for (auto x : v) it.enc += (char)x;     // encoded when run
                items.push_back(it);
            });
        }
    for (size_t i = 0; i < items.size(); i += 50)
    {
        size_t n = std::min<size_t>(50, items.size() - i);
        c.run("doc", [&] { return vf::fmt("document streams %zu..%zu from %s on %zu bytes", i, i + n - 1, items[i].name.c_str(), items[i].want.size()); }, [&] {
            vector<Item> b(items.begin() + i, items.begin() + i + n);
            for (auto& it : b) { string idx = it.enc.substr(1); it.enc = it.want; for (size_t k = idx.size(); k-- > 0;) it.enc = fl[(unsigned char)idx[k]].enc(it.enc); }
            docRun(b, 0, n);
            for (auto& it : b) C->state(vf::hash(it.enc, vf::hash(it.name)));
        });
    }
    (void)P4; (void)docItems;
}

// ---- P04 -----------------------------------------------------------------
static string strip(const string& e, PdfFilterType t)
{
    // reference decoders, strict
    string r;
    if (t == PdfFilterType::ASCIIHexDecode)
    {
        int hi = -1;
        for (char c : e) { if (c == '>') break; if (ref::isWs((unsigned char)c)) continue; int v = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (v < 0) throw ref::Bad("hex digit"); if (hi < 0) hi = v; else { r += (char)(hi << 4 | v); hi = -1; } }
        if (hi >= 0) r += (char)(hi << 4);
        return r;
    }
    if (t == PdfFilterType::ASCII85Decode)
    {
        uint64_t v = 0; int n = 0;
        for (char c : e)
        {
            if (c == '~') break;
            if (ref::isWs((unsigned char)c)) continue;
            if (c == 'z' && n == 0) { r += string(4, 0); continue; }
            if (c < '!' || c > 'u') throw ref::Bad("base 85 digit");
            v = v * 85 + (c - '!');
            if (++n == 5) { if (v > 0xFFFFFFFFull) throw ref::Bad("base 85 overflow"); for (int k = 3; k >= 0; k--) r += (char)(v >> 8 * k); v = 0; n = 0; }
        }
        if (n == 1) throw ref::Bad("base 85 rest of one");
        if (n) { for (int k = n; k < 5; k++) v = v * 85 + 84; if (v > 0xFFFFFFFFull) throw ref::Bad("base 85 overflow"); for (int k = 0; k < n - 1; k++) r += (char)(v >> (24 - 8 * k)); }
        return r;
    }
    bool ok = false; r = ref::inflate(e, &ok); if (!ok) throw ref::Bad("flate");
    return r;
}
static PdfFilterList listOf(const vector<unsigned>& v) { PdfFilterList l; for (auto x : v) l.push_back(ENC[x].first); return l; }
static string nameOf(const vector<unsigned>& v) { string s; for (auto x : v) s += string(ENC[x].second) + " "; return s; }
static void refDecode(const string& e, const PdfFilterList& l, const string& want, const string& how)
{
    string s = e;
    try { for (auto t : l) s = strip(s, t); } catch (const ref::Bad& x) { C->fail("encoded", how + ": the encoded bytes are no valid encoding (" + x.what() + "): " + vf::hexs(e.substr(0, 60))); return; }
    expect(s, want, how + ", decoded by the reference");
}
static void encCase(const vector<unsigned>& v, const string& d, bool rich)
{
    auto l = listOf(v); vector<const PdfDictionary*> np(l.size(), nullptr); string what;
    auto cs = cutsOf(d.size(), rich);
    if (d.empty()) cs = { { 1 } };
    string firstEnc; bool have = false;
    for (auto& c : cs)
    {
        int err = vf::errorOf([&] {
            // the factory pipeline
            auto sink = std::make_shared<Sink>();
            {
                auto s = PdfFilterFactory::CreateEncodeStream(sink, l);
                chunks(d, c, [&](const char* b, size_t n) { s->Write(b, n); });
            }
            refDecode(sink->d, l, d, "pipeline, " + cutText(c)); C->trace();
            if (C->failed()) return;
            if (!have) { firstEnc = sink->d; have = true; }
            for (auto& rc : { Cuts{ 1 }, Cuts{ 3 }, Cuts{ 5000 } }) { expect(decodeStream(l, sink->d, rc, false, rc[0] == 1 ? 5000 : 1, np), d, "pipeline, " + cutText(c) + ", read by " + cutText(rc)); C->trace(); }
            if (C->failed()) return;
            if (l.size() == 1)
            {
                auto f = PdfFilterFactory::Create(l[0]); Sink out;
                f->BeginEncode(out); chunks(d, c, [&](const char* b, size_t n) { f->EncodeBlock({ b, n }); }); f->EndEncode();
                refDecode(out.d, l, d, "blocks, " + cutText(c));
                string first = out.d; out.d.clear();
                // the same filter object once more
                f->BeginEncode(out); chunks(d, c, [&](const char* b, size_t n) { f->EncodeBlock({ b, n }); }); f->EndEncode();
                refDecode(out.d, l, d, "blocks with a used filter, " + cutText(c)); C->trace(2);
                charbuff one; f->EncodeTo(one, { d.data(), d.size() }); refDecode((string)one, l, d, "EncodeTo");
                charbuff back; f->DecodeTo(back, { one.data(), one.size() }); expect((string)back, d, "EncodeTo and DecodeTo with one filter object"); C->trace();
                back.clear(); f->DecodeTo(back, { one.data(), one.size() }); expect((string)back, d, "DecodeTo once more");
            }
        }, &what);
        if (err != -1) { C->fail("error", vf::fmt("error %d (", err) + what + ") for " + cutText(c)); }
        if (C->failed()) return;
    }
    C->state(vf::hash(firstEnc, vf::hash(nameOf(v)))); C->outcome(d);
}
// Object streams: all ways of putting data in, then reading it, saving, loading
static void objCase(const vector<vector<unsigned>>& lists, const string& d, int way, const Cuts& c, int save)
{
    string what; string path;
    int err = vf::errorOf([&] {
        PdfMemDocument doc; vector<PdfReference> refs; vector<string> wants;
        for (auto& v : lists)
        {
            auto l = listOf(v);
            auto& o = doc.GetObjects().CreateDictionaryObject(); auto& s = o.GetOrCreateStream();
            string want = d;
            // what was there before must not matter
            if (way & 1) { s.SetData(string("previous content previous content")); if (way & 8) o.GetDictionary().AddKey("DecodeParms", ref::toObject(ref::Val::D({ { "Predictor", ref::Val::I(12) } }))); }
            switch (way >> 1 & 3)
            {
                case 0: s.SetData({ d.data(), d.size() }, l); break;
                case 1: { ChunkIn in(d, c, false); s.SetData(in, l); break; }
                case 2: { auto os = s.GetOutputStream(l); chunks(d, c, [&](const char* b, size_t n) { os.Write(b, n); }); break; }
                default:
                {
                    size_t h = d.size() / 2; { auto os = s.GetOutputStream(l); chunks(d.substr(0, h), c, [&](const char* b, size_t n) { os.Write(b, n); }); }
                    { auto os = s.GetOutputStream(l, true); chunks(d.substr(h), c, [&](const char* b, size_t n) { os.Write(b, n); }); }
                }
            }
            refs.push_back(o.GetIndirectReference());
            doc.GetCatalog().GetDictionary().AddKey(vf::fmt("X%zu", refs.size()), o.GetIndirectReference());
            if (l.empty() && o.GetDictionary().HasKey("Filter")) C->fail("filter", "a filter is set on a stream written without one");
            expect((string)s.GetCopy(), want, "in memory, " + nameOf(v)); C->trace();
            if (!C->failed()) { PdfFilterList l2 = l; refDecode((string)s.GetCopy(true), l2, want, "raw data, " + nameOf(v)); }
            if (C->failed()) return;
        }
        if (save < 0) return;
        for (int round = 0; round < 2; round++)
        {
            string bytes; StringStreamDevice dev(bytes);
            if (save & 4) { auto a = save & 8 ? PdfEncryptAlgorithm::AESV2 : PdfEncryptAlgorithm::RC4V2; if (round == 0) doc.SetEncrypted("u", "o", PdfPermissions::Default, a, PdfKeyLength::L128); }
            doc.Save(dev, (save & 1 ? PdfSaveOptions::Clean : PdfSaveOptions::None) | (save & 2 ? PdfSaveOptions::NoFlateCompress : PdfSaveOptions::None));
            PdfMemDocument two; two.LoadFromBuffer({ bytes.data(), bytes.size() }, "u");
            for (size_t i = 0; i < refs.size(); i++)
            {
                auto o = two.GetObjects().GetObject(refs[i]);
                if (!o) { C->fail("missing", "object missing after saving"); return; }
                expect((string)o->MustGetStream().GetCopy(), d, vf::fmt("loaded (save %d, round %d), ", save, round) + nameOf(lists[i])); C->trace();
                if (C->failed()) return;
            }
        }
    }, &what);
    if (err != -1) C->fail("error", vf::fmt("error %d ", err) + what);
}
static void exploreEnc(vf::Ctx& c)
{
    C = &c; bool T = c.thorough;
    vector<vector<unsigned>> chains; for (unsigned n = 1; n <= 3; n++) vf::sequences(3, n, [&](const vector<unsigned>& v) { chains.push_back(v); });
    auto one = [&](const char* tag, const vector<unsigned>& v, const string& d, bool rich) { c.run(tag, [&] { return nameOf(v) + vf::fmt("on %zu bytes ", d.size()) + vf::hexs(d.substr(0, 40)); }, [&] { encCase(v, d, rich); }); };
    string alpha("\0\x01" "A\x7F\x80\xFF", 6);
    vf::strings(alpha, 0, T ? 6 : 4, [&](const string& d) { for (auto& v : chains) if (v.size() == 1 || d.size() <= (T ? 4 : 3)) one("short", v, d, true); });
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { string d{ (char)a, (char)b }; for (unsigned k = 0; k < 2; k++) one("pairs", { k }, d, true); if (b == 0) for (unsigned k = 0; k < 3; k++) one("bytes", { k }, string(1, (char)a), true); }
    vf::strings(string("\0\xFF", 2), 5, T ? 10 : 8, [&](const string& d) { for (unsigned k = 0; k < 3; k++) one("binary", { k }, d, T); });
    for (int kind = 0; kind < 5; kind++)
        for (unsigned n : { 10u, 100u, 1023u, 1024u, 1025u, 2047u, 2048u, 4094u, 4095u, 4096u, 4097u, 8191u, 8192u, 8193u, 12287u, 12288u, 16384u, 65535u, 65536u, 100000u, 300000u })
        {
            if (n > 20000 && !T && kind != 2 && kind != 1) continue;
            for (auto& v : chains) if (n <= 20000 || v.size() == 1 || (v.size() == 2 && T)) one("long", v, structured(n, kind), false);
        }
    vector<vector<unsigned>> lists = chains; lists.push_back({});
    vector<string> ds; vf::strings(string("\0a\xFF", 3), 0, 3, [&](const string& s) { ds.push_back(s); });
    for (auto s : { "\n", "\r", "\r\n", "a\r", "a\n", "endstream", "\nendstream\nendobj\n", "stream\r\n", ">>" }) ds.push_back(s);
    for (int k = 0; k < 5; k++) for (unsigned n : { 100u, 1023u, 4095u, 4096u, 4097u, 8192u, 20000u }) ds.push_back(structured(n, k));
    for (auto& d : ds) for (int way = 0; way < 16; way++) for (auto& cu : { Cuts{ 1 }, Cuts{ 3, 5000 }, Cuts{ 4096 } })
    {
        if (!(way & 1) && (way & 8)) continue;
        if (d.size() > 200 && cu[0] == 1 && !T) continue;
        for (int save = -1; save < 16; save++)
        {
            if (save >= 0 && (save & 8) && !(save & 4)) continue;
            if (save >= 0 && !T && (way > 6 || cu[0] != 3) && (d.size() != 3 || d[0] || cu[0] == 4096)) continue;
            if (save < 0 && !T && cu[0] == 4096 && d.size() < 100) continue;
            c.run("object", [&] { return vf::fmt("object stream, way %d, save %d, ", way, save) + cutText(cu) + vf::fmt(" data %zu ", d.size()) + vf::hexs(d.substr(0, 40)); }, [&] { objCase(lists, d, way, cu, save); });
        }
    }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = vf::prop("P05");
    if (cfg.prop == "P04")
    {
        cfg.rule = "every short byte string over the alphabet and structured long ones are encoded by every chain of up to three filters in every split, checked by reference decoders and decoded again by the library; a state is a distinct encoded string";
        cfg.assumptions = { "The library encodes ASCIIHex, ASCII85 and Flate only" };
        return vf::main(argc, argv, cfg, exploreEnc);
    }
    cfg.rule = "every admissible encoding of the short data by the reference encoders (and width, table and buffer borders for long data) is decoded in every split of its bytes; a state is a distinct encoded string with its parameters";
    cfg.assumptions = { "TIFF predictors other than 8 bits per component are rejected by the library and left out" };
    return vf::main(argc, argv, cfg, exploreDec);
}
