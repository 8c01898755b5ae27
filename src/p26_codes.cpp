// P26: character codes map to text as the encoding data says. Character maps,
// simple encodings with differences and fonts are built from small sets of
// mappings; decoding, encoding and exporting are compared with the mappings.
#include "ref.h"
#include "tables.h"
#include <memory>
#include <set>
#include <algorithm>
#include <ft2build.h>
#include FT_FREETYPE_H
#include <pdfmm/base/PdfStreamDevice.h>
#include <pdfmm/base/PdfCMapEncoding.h>
#include <pdfmm/base/PdfCharCodeMap.h>
#include <pdfmm/base/PdfDifferenceEncoding.h>
#include <pdfmm/base/PdfEncodingMapFactory.h>
#include <pdfmm/base/PdfIdentityEncoding.h>
#include <pdfmm/base/PdfEncodingFactory.h>
using namespace mm; using namespace ref; using std::string; using std::vector; using std::u32string;
static vf::Ctx* C;
typedef std::map<string, u32string> Map;            // code bytes -> text
static string u8(const u32string& t) { string s; for (char32_t c : t) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } } return s; }
static u32string from8(const string& s) { u32string r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0xFF >> (n + 1)); for (int k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63); r += v; i += n; } return r; }
static string hex(const string& s) { static const char* D = "0123456789abcdef"; string r = "<"; for (unsigned char c : s) { r += D[c >> 4]; r += D[c & 15]; } return r + ">"; }
static string showMap(const Map& m) { string s; for (auto& p : m) s += hex(p.first) + "=" + vf::esc(u8(p.second)) + " "; return s; }
static PdfCharCode unit(const string& code) { unsigned v = 0; for (unsigned char c : code) v = v << 8 | c; return PdfCharCode(v, (unsigned char)code.size()); }

// --- the meaning of a map ----------------------------------------------------
// longest declared text at p; 0 if there is none
static size_t longest(const Map& m, const u32string& t, size_t p) { size_t best = 0; for (auto& e : m) if (e.second.size() > best && t.compare(p, e.second.size(), e.second) == 0) best = e.second.size(); return best; }
static bool encodable(const Map& m, const u32string& t) { size_t p = 0; while (p < t.size()) { size_t n = longest(m, t, p); if (!n) return false; p += n; } return true; }
static bool decode(const Map& m, const string& s, u32string& out) { out.clear(); for (size_t p = 0; p < s.size();) { bool ok = false; for (size_t n = 1; n <= 4 && p + n <= s.size(); n++) { auto it = m.find(s.substr(p, n)); if (it != m.end()) { out += it->second; p += n; ok = true; break; } } if (!ok) return false; } return true; }

// compare the library's map with what it was made of
static void checkMap(const PdfEncodingMap& em, const Map& m, bool identity, bool deep)
{
    vector<string> sel; for (auto& p : m) sel.push_back(p.first);
    if (sel.size() > 5) { vector<string> few = { sel[0], sel[1], sel[sel.size() / 2], sel[sel.size() - 2], sel.back() }; sel = few; }
    // decoding
    vf::words(sel, 0, deep ? 3 : 2, [&](const string& s) {
        u32string want; if (!decode(m, s, want)) C->fail("reference", "cannot decode " + hex(s));
        std::string_view v(s); auto it = v.begin(), end = v.end(); u32string got; bool ok = true; vector<char32_t> cps;
        while (it != end) { if (!em.TryGetNextCodePoints(it, end, cps)) { ok = false; break; } got.append(cps.begin(), cps.end()); }
        C->transition();
        C->check(ok && got == want, "decode", hex(s) + " gives " + (ok ? "'" + vf::esc(u8(got)) + "'" : "nothing at " + std::to_string(it - v.begin()) + " after '" + vf::esc(u8(got)) + "'") + " not '" + vf::esc(u8(want)) + "' with " + showMap(m));
    });
    for (auto& p : m) { vector<char32_t> cps; bool ok = em.TryGetCodePoints(unit(p.first), cps); C->check(ok && u32string(cps.begin(), cps.end()) == p.second, "code", hex(p.first) + " gives '" + vf::esc(u8(u32string(cps.begin(), cps.end()))) + "' with " + showMap(m)); }
    // a code that is not there does not disturb the others
    std::set<size_t> sizes; for (auto& p : m) sizes.insert(p.first.size());
    // encoding
    std::set<char32_t> letters; for (auto& p : m) for (char32_t c : p.second) letters.insert(c);
    vector<u32string> alpha; for (char32_t c : letters) alpha.push_back(u32string(1, c)); if (alpha.size() > 5) { alpha[2] = alpha[alpha.size() / 2]; alpha[3] = alpha[alpha.size() - 2]; alpha[4] = alpha.back(); alpha.resize(5); } alpha.push_back(U"\u017c");
    for (unsigned len = 0; len <= (deep ? 3u : 2u); len++) vf::sequences((unsigned)alpha.size(), len, [&](const vector<unsigned>& q) {
        u32string t; for (auto i : q) t += alpha[i];
        bool can = encodable(m, t); if (!can && identity) return;
        string s = u8(t); std::string_view v(s); auto it = v.begin(), end = v.end(); string got; bool ok = true; PdfCharCode cc;
        while (it != end) { if (!em.TryGetNextCharCode(it, end, cc)) { ok = false; break; } cc.AppendTo(got); }
        C->transition();
        if (!can) { C->check(!ok, "encode-undefined", "'" + vf::esc(s) + "' is encoded as " + hex(got) + " with " + showMap(m)); return; }
        u32string back; bool dec = ok && decode(m, got, back);
        C->check(dec && back == t, "encode", "'" + vf::esc(s) + "' is encoded as " + (ok ? hex(got) : "nothing") + " which is '" + vf::esc(u8(back)) + "' with " + showMap(m));
    });
    // single characters and whole sequences
    for (char32_t c : letters) { PdfCharCode cc; bool has = false; for (auto& p : m) has |= p.second == u32string(1, c); if (!has && identity) continue; bool ok = em.TryGetCharCode(c, cc); string g; cc.AppendTo(g); C->check(ok == has && (!ok || m.count(g)) && (!ok || m.at(g) == u32string(1, c)), "char-code", vf::fmt("U+%04X gives ", (unsigned)c) + (ok ? hex(g) : "nothing") + " with " + showMap(m)); }
    for (auto& p : m) { PdfCharCode cc; if (p.second.size() > 1) { bool ok = em.TryGetCharCode(unicodeview(p.second.data(), p.second.size()), cc); string g; cc.AppendTo(g); C->check(ok && m.count(g) && m.at(g) == p.second, "sequence-code", "'" + vf::esc(u8(p.second)) + "' gives " + (ok ? hex(g) : "nothing") + " with " + showMap(m)); u32string pre = p.second.substr(0, p.second.size() - 1); bool has = false; for (auto& q : m) has |= q.second == pre; if (pre.size() > 1 || !identity) { ok = em.TryGetCharCode(unicodeview(pre.data(), pre.size()), cc); C->check(ok == has, "prefix-code", "'" + vf::esc(u8(pre)) + "', the start of another text, " + (ok ? "has" : "does not have") + " a code with " + showMap(m)); } } }
}

// --- character maps as text ----------------------------------------------------
struct Ent { string kind, text; Map map; };
static vector<Ent> pool()
{
    vector<Ent> p;
    auto chr = [&](const string& c, const string& dst, const u32string& t) { p.push_back({ "bfchar", hex(c) + dst, { { c, t } } }); };
    auto rng = [&](const string& lo, const string& hi, const string& dst, vector<u32string> t) { Map m; string c = lo; for (auto& x : t) { m[c] = x; c.back()++; } p.push_back({ "bfrange", hex(lo) + hex(hi) + dst, m }); };
    chr("A", "<0061>", U"a"); chr("A", "<0041>", U"A"); chr("B", "<00610062>", U"ab"); chr("B", "<0062>", U"b"); chr("C", "<006100620063>", U"abc"); chr("C", "<D83DDE00>", U"\U0001F600"); chr("D", "<00660066>", U"ff"); chr("E", "<0061D83DDE00>", U"a\U0001F600");
    chr(string("\0A", 2), "<0041>", U"A"); chr(string("\0A", 2), "<0062>", U"b"); chr("\x81\x40", "<0061>", U"a"); chr("\x81\x41", "<00610063>", U"ac"); chr("\x8f\xa1\xb2", "<4E00>", U"\u4e00"); chr(string("\0\0\0A", 4), "<0078>", U"x"); chr(string("\xff", 1), "<00E9>", U"\u00e9"); chr(string("\0", 1), "<0020>", U" ");
    rng("A", "C", "<0061>", { U"a", U"b", U"c" }); rng("D", "E", "<00660066>", { U"ff", U"fg" }); rng("F", "H", "[<0061><00620063><0064>]", { U"a", U"bc", U"d" }); rng("P", "P", "<0070>", { U"p" }); rng("P", "Q", "[<D83DDE00><0071>]", { U"\U0001F600", U"q" });
    rng("\x81\x40", "\x81\x42", "<4E00>", { U"\u4e00", U"\u4e01", U"\u4e02" }); rng(string("\0A", 2), string("\0C", 2), "<0041>", { U"A", U"B", U"C" }); rng("\x81\xfe", "\x81\xff", "<0061>", { U"a", U"b" }); rng("R", "S", "<D83DDE00>", { U"\U0001F600", U"\U0001F601" }); rng("A", "C", "<0041>", { U"A", U"B", U"C" }); rng("T", "V", "<006100620078>", { U"abx", U"aby", U"abz" });
    return p;
}
// codes of different lengths must not be ambiguous
static bool compatible(const Map& a, const Map& b) { for (auto& x : a) for (auto& y : b) { size_t n = std::min(x.first.size(), y.first.size()); if (x.first.compare(0, n, y.first, 0, n) == 0) return false; } return true; }
static string codespaces(const Map& m) { std::map<size_t, std::pair<string, string>> r; for (auto& p : m) { auto& x = r[p.first.size()]; if (x.first.empty()) { x.first = x.second = p.first; } x.first = std::min(x.first, p.first); x.second = std::max(x.second, p.first); } string s = std::to_string(r.size()) + " begincodespacerange\n"; for (auto& x : r) s += hex(x.second.first) + " " + hex(x.second.second) + "\n"; return s + "endcodespacerange\n"; }
static string cmap(const vector<const Ent*>& es, const Map& m, int style)
{
    string s; if (style) s = "/CIDInit /ProcSet findresource begin\n12 dict begin begincmap % a comment\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def /CMapName /X def /CMapType 2 def\n";
    s += codespaces(m);
    for (size_t i = 0; i < es.size();)
    {
        size_t j = i + 1; if (style) while (j < es.size() && es[j]->kind == es[i]->kind) j++;
        s += (style == 2 ? "100" : std::to_string(j - i)) + " begin" + es[i]->kind + "\n"; for (; i < j; i++) s += es[i]->text + (style ? "\n" : " "); s += "end" + es[j - 1]->kind + "\n";
    }
    if (style) s += "endcmap CMapName currentdict /CMap defineresource pop end end";
    return s;
}
static std::unique_ptr<PdfEncodingMap> parse(PdfMemDocument& d, const string& text) { auto& o = d.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream().SetData(charbuff(text)); return PdfCMapEncoding::CreateFromObject(o); }
static void decodeString(const PdfEncodingMapConstPtr& ptr, const Map& m)
{
    // the whole through an encoding, with codes that are not mapped in between
    PdfEncoding enc(PdfEncodingMapFactory::WinAnsiEncodingInstance(), ptr); std::set<size_t> sizes; for (auto& p : m) sizes.insert(p.first.size());
    string a = m.begin()->first, b = m.rbegin()->first; string ta = u8(m.begin()->second), tb = u8(m.rbegin()->second), got;
    bool ok = enc.TryConvertToUtf8(PdfString::FromRaw(a + b + a), got); C->check(ok && got == ta + tb + ta, "convert", hex(a + b + a) + " is converted to '" + vf::esc(got) + "' with " + showMap(m));
    if (sizes.size() == 1) { string un(a.size(), '\x7e'); if (!m.count(un)) { enc.TryConvertToUtf8(PdfString::FromRaw(a + un + b), got); C->check(got.size() >= ta.size() + tb.size() && got.compare(0, ta.size(), ta) == 0 && got.compare(got.size() - tb.size(), tb.size(), tb) == 0, "unmapped", hex(a + un + b) + " is converted to '" + vf::esc(got) + "' with " + showMap(m)); } }
    for (auto& p : m) { char32_t c = enc.GetCodePoint(unit(p.first)); C->check(c == (p.second.size() == 1 ? p.second[0] : U'\0'), "code-point", hex(p.first) + vf::fmt(" has code point %04X with ", (unsigned)c) + showMap(m)); }
}
static void textMaps(vf::Ctx& c)
{
    auto P = pool(); unsigned n = (unsigned)P.size();
    for (unsigned k = 1; k <= (c.thorough ? 4u : 3u); k++) vf::sequences(n, k, [&](const vector<unsigned>& q) {
        for (size_t i = 0; i < q.size(); i++) for (size_t j = i + 1; j < q.size(); j++) if (q[i] == q[j] || (k > 2 && q[i] > q[j])) return;
        for (size_t i = 0; i < q.size(); i++) for (size_t j = i + 1; j < q.size(); j++) if (!compatible(P[q[i]].map, P[q[j]].map)) return;
        for (int style = 0; style < 3; style++)
        {
            if (style == 2 && k != 1) continue;
            if (!c.mine()) { c.skip(); continue; }
            Map m; vector<const Ent*> es; for (auto i : q) { es.push_back(&P[i]); for (auto& e : P[i].map) m[e.first] = e.second; }
            c.run("map", [&] { return vf::fmt("style %d: ", style) + cmap(es, m, style); }, [&] {
                C->state(cmap(es, m, style)); C->trace();
                PdfMemDocument d; PdfEncodingMapConstPtr em = parse(d, cmap(es, m, style)); bool ident = dynamic_cast<const PdfIdentityEncoding*>(em.get()) != nullptr; if (ident) C->count("identity");
                checkMap(*em, m, ident, k < 3 || c.thorough); decodeString(em, m);
            });
        }
    });
}
// maps of codes to CIDs
static void cidMaps(vf::Ctx& c)
{
    struct E { string kind, text; std::map<string, unsigned> m; };
    vector<E> P;
    auto chr = [&](const string& code, unsigned cid) { P.push_back({ "cidchar", hex(code) + " " + std::to_string(cid), { { code, cid } } }); };
    auto rng = [&](const string& lo, int n, unsigned cid) { std::map<string, unsigned> m; string code = lo, hi = lo; for (int i = 0; i < n; i++) { m[code] = cid + i; hi = code; code.back()++; } P.push_back({ "cidrange", hex(lo) + hex(hi) + " " + std::to_string(cid), m }); };
    chr("A", 1); chr("A", 65); chr("B", 700); chr("\x81\x40", 633); chr("\x81\x40", 0x8140); chr(string("\0A", 2), 65); chr(string("\0A", 2), 9); chr("\x8f\xa1\xb2", 65535); chr("C", 0);
    rng("A", 3, 1); rng("A", 3, 65); rng(" ", 95, 1); rng("\x81\x40", 3, 633); rng("\x81\xf0", 16, 800); rng(string("\0A", 2), 3, 65); rng(string("\0\0", 2), 256, 0); rng("\xf0", 16, 7);
    unsigned n = (unsigned)P.size();
    for (unsigned k = 1; k <= 3; k++) vf::sequences(n, k, [&](const vector<unsigned>& q) {
        std::map<string, unsigned> m; vector<Ent> es; Map tm; for (size_t i = 0; i < q.size(); i++) { Map x; for (auto& e : P[q[i]].m) x[e.first] = U"x"; if (!compatible(x, tm)) return; for (auto& e : P[q[i]].m) { m[e.first] = e.second; tm[e.first] = U"x"; } es.push_back({ P[q[i]].kind, P[q[i]].text, {} }); }
        if (!c.mine()) { c.skip(); return; }
        vector<const Ent*> ep; for (auto& e : es) ep.push_back(&e);
        c.run("cids", [&] { return cmap(ep, tm, 1); }, [&] {
            C->state(cmap(ep, tm, 1)); C->trace(); PdfMemDocument d; PdfEncodingMapConstPtr em = parse(d, cmap(ep, tm, 1)); PdfEncoding enc(em);
            vector<string> sel; for (auto& p : m) sel.push_back(p.first); if (sel.size() > 5) sel = { sel[0], sel[1], sel[sel.size() / 2], sel[sel.size() - 2], sel.back() };
            vf::words(sel, 1, 3, [&](const string& s) {
                string want, got; for (size_t p = 0; p < s.size();) for (size_t l = 1; l <= 4; l++) { auto it = m.find(s.substr(p, l)); if (it != m.end()) { want += vf::fmt("%u=%u/%zu ", it->second, unit(it->first).Code, l); p += l; break; } }
                vector<PdfCID> v; bool ok = enc.TryConvertToCIDs(PdfString::FromRaw(s), v); for (auto& x : v) got += vf::fmt("%u=%u/%d ", x.Id, x.Unit.Code, x.Unit.CodeSpaceSize); C->transition();
                C->check(ok && got == want, "cids", hex(s) + " gives " + got + "not " + want);
            });
            for (auto& p : m) { PdfCharCode cc; bool ok = em->TryGetCharCode(p.second, cc); string g; cc.AppendTo(g); C->check(ok && m.count(g) && m[g] == p.second, "code-of-cid", vf::fmt("CID %u gives ", p.second) + (ok ? hex(g) : "nothing")); }
        });
    });
}
// histories on a map
static void mapHistories(vf::Ctx& c)
{
    static const vector<std::pair<string, u32string>> OPS = { { "A", U"a" }, { "A", U"b" }, { "A", U"ab" }, { "B", U"a" }, { "B", U"abc" }, { "C", U"abd" }, { string("\0A", 2), U"a" }, { "\x81\x40", U"b" }, { string("\0B", 2), U"abc" } };
    static const char* MORE[] = { "look up", "move construct", "move assign" };
    unsigned n = (unsigned)OPS.size() + 3;
    for (unsigned k = 1; k <= (c.thorough ? 5u : 4u); k++) vf::sequences(n, k, [&](const vector<unsigned>& q) {
        if (!c.mine()) { c.skip(); return; }
        c.run("history", [&] { string s; for (auto i : q) s += i < OPS.size() ? hex(OPS[i].first) + "=" + u8(OPS[i].second) + " " : string(MORE[i - OPS.size()]) + " "; return s; }, [&] {
            auto cur = std::make_unique<PdfCharCodeMap>(); Map m; C->trace();
            auto verify = [&](const char* when) {
                C->check(cur->GetSize() == m.size(), "size", string(when) + ": size " + std::to_string(cur->GetSize()) + " not " + std::to_string(m.size()));
                size_t cnt = 0; for (auto& p : *cur) { string g; p.first.AppendTo(g); cnt++; C->check(m.count(g) && m[g] == u32string(p.second.begin(), p.second.end()), "iteration", string(when) + ": " + hex(g)); } C->check(cnt == m.size(), "iteration", string(when));
                for (auto& o : OPS) { vector<codepoint> cp; bool ok = cur->TryGetCodePoints(unit(o.first), cp); auto it = m.find(o.first); C->check(ok == (it != m.end()) && (!ok || it->second == u32string(cp.begin(), cp.end())), "lookup", string(when) + ": " + hex(o.first) + " in " + showMap(m)); }
                for (auto t : { U"a", U"b", U"ab", U"abc", U"abd", U"c", U"aba", U"abb", U"abca" })
                {
                    u32string w = t; PdfCharCode cc; bool has = false; for (auto& p : m) has |= p.second == w; string g;
                    bool ok = cur->TryGetCharCode(codepointview(w.data(), w.size()), cc); cc.AppendTo(g); C->check(ok == has && (!ok || (m.count(g) && m[g] == w)), "text-lookup", string(when) + ": '" + u8(w) + "' gives " + (ok ? hex(g) : "nothing") + " in " + showMap(m));
                    if (w.size() == 1) { PdfCharCode c1; bool ok1 = cur->TryGetCharCode(w[0], c1); string g1; c1.AppendTo(g1); C->check(ok1 == has && (!ok1 || (m.count(g1) && m[g1] == w)), "character-lookup", string(when) + ": '" + u8(w) + "' gives " + (ok1 ? hex(g1) : "nothing") + " in " + showMap(m)); }
                    string s = u8(w); std::string_view v(s); auto it = v.begin(); size_t want = longest(m, w, 0); string g2; PdfCharCode c2; bool ok2 = cur->TryGetNextCharCode(it, v.end(), c2); c2.AppendTo(g2);
                    C->check(ok2 == (want > 0) && (!ok2 || ((size_t)(it - v.begin()) == want && m.count(g2) && m[g2] == w.substr(0, want))) && (ok2 || it == v.begin()), "next", string(when) + ": '" + u8(w) + "' gives " + (ok2 ? hex(g2) : "nothing") + vf::fmt(" after %zu in ", (size_t)(it - v.begin())) + showMap(m));
                }
                if (m.size()) { auto& l = cur->GetLimits(); size_t mn = 9, mx = 0; unsigned lo = ~0u, hi = 0; for (auto& p : m) { mn = std::min(mn, p.first.size()); mx = std::max(mx, p.first.size()); lo = std::min(lo, unit(p.first).Code); hi = std::max(hi, unit(p.first).Code); } C->check(l.MinCodeSize == mn && l.MaxCodeSize == mx && l.FirstChar.Code == lo && l.LastChar.Code == hi, "limits", string(when) + vf::fmt(": %d %d %u %u", l.MinCodeSize, l.MaxCodeSize, l.FirstChar.Code, l.LastChar.Code) + " of " + showMap(m)); }
            };
            for (auto i : q)
            {
                if (i < OPS.size()) { auto& t = OPS[i].second; cur->PushMapping(unit(OPS[i].first), codepointview(t.data(), t.size())); m[OPS[i].first] = t; }
                else if (i == OPS.size()) verify("looked up");
                else if (i == OPS.size() + 1) { auto x = std::make_unique<PdfCharCodeMap>(std::move(*cur)); cur = std::move(x); }
                else { auto x = std::make_unique<PdfCharCodeMap>(); x->PushMapping(PdfCharCode(7, 1), U'q'); PdfCharCode dummy; x->TryGetCharCode(U'q', dummy); *x = std::move(*cur); cur = std::move(x); }
                C->transition();
            }
            verify("at the end"); C->state(showMap(m));
        });
    });
}

// --- simple encodings -----------------------------------------------------------
static const vector<std::pair<int, int>> STDHIGH = { { 0xA1, 0xA1 }, { 0xA2, 0xA2 }, { 0xA3, 0xA3 }, { 0xA4, 0x2044 }, { 0xA5, 0xA5 }, { 0xA6, 0x192 }, { 0xA7, 0xA7 }, { 0xA8, 0xA4 }, { 0xA9, 0x27 }, { 0xAA, 0x201C }, { 0xAB, 0xAB }, { 0xAC, 0x2039 }, { 0xAD, 0x203A }, { 0xAE, 0xFB01 }, { 0xAF, 0xFB02 }, { 0xB1, 0x2013 }, { 0xB2, 0x2020 }, { 0xB3, 0x2021 }, { 0xB4, 0xB7 }, { 0xB6, 0xB6 }, { 0xB7, 0x2022 }, { 0xB8, 0x201A }, { 0xB9, 0x201E }, { 0xBA, 0x201D }, { 0xBB, 0xBB }, { 0xBC, 0x2026 }, { 0xBD, 0x2030 }, { 0xBF, 0xBF }, { 0xC1, 0x60 }, { 0xC2, 0xB4 }, { 0xC3, 0x2C6 }, { 0xC4, 0x2DC }, { 0xC6, 0x2D8 }, { 0xC7, 0x2D9 }, { 0xC8, 0xA8 }, { 0xCA, 0x2DA }, { 0xCB, 0xB8 }, { 0xCD, 0x2DD }, { 0xCE, 0x2DB }, { 0xCF, 0x2C7 }, { 0xD0, 0x2014 }, { 0xE1, 0xC6 }, { 0xE3, 0xAA }, { 0xE8, 0x141 }, { 0xE9, 0xD8 }, { 0xEA, 0x152 }, { 0xEB, 0xBA }, { 0xF1, 0xE6 }, { 0xF5, 0x131 }, { 0xF8, 0x142 }, { 0xF9, 0xF8 }, { 0xFA, 0x153 }, { 0xFB, 0xDF } };
static std::map<int, char32_t> table(int base)
{
    std::map<int, char32_t> t;
    if (base == 1) for (auto& p : WINANSI) t[p.first] = p.second;
    else if (base == 2) for (auto& p : MACROMAN) t[p.first] = p.second;
    else { for (int i = 0x20; i < 0x7F; i++) t[i] = i; t[0x27] = 0x2019; t.erase(0x60); for (auto& p : STDHIGH) t[p.first] = p.second; }
    return t;
}
static const char* BASENAME[] = { "", "WinAnsiEncoding", "MacRomanEncoding" };
// decode every code and encode every character of the reference; codes not in it are not judged
static void checkSimple(const PdfEncodingMap& em, const std::map<int, char32_t>& ref, const std::set<int>& unjudged, const string& what)
{
    for (auto& p : ref) { vector<char32_t> cps; bool ok = em.TryGetCodePoints(PdfCharCode(p.first, 1), cps); C->check(ok && cps.size() == 1 && cps[0] == p.second, "simple-decode", what + vf::fmt(": code %02X gives U+%04X not U+%04X", p.first, ok && cps.size() ? (unsigned)cps[0] : 0u, (unsigned)p.second)); C->transition(); }
    std::set<char32_t> chars; for (auto& p : ref) chars.insert(p.second);
    for (char32_t c : chars) { PdfCharCode cc; bool ok = em.TryGetCharCode(c, cc); bool good = ok && cc.CodeSpaceSize == 1 && cc.Code < 256; if (good) { auto it = ref.find((int)cc.Code); good = it == ref.end() ? !unjudged.count((int)cc.Code) : it->second == c; if (good && it == ref.end()) { vector<char32_t> cps; good = em.TryGetCodePoints(cc, cps) && cps.size() == 1 && cps[0] == c; } } C->check(good, "simple-encode", what + vf::fmt(": U+%04X gives ", (unsigned)c) + (ok ? vf::fmt("code %02X/%d", cc.Code, cc.CodeSpaceSize) : "nothing")); C->transition(); }
}
// characters that have no code any more
static void checkGone(const PdfEncodingMap& em, const std::set<char32_t>& gone, const string& what)
{
    for (char32_t c : gone) { PdfCharCode cc; bool ok = em.TryGetCharCode(c, cc); if (!ok) continue; vector<char32_t> cps; bool good = em.TryGetCodePoints(cc, cps) && cps.size() == 1 && cps[0] == c; C->check(good, "simple-encode", what + vf::fmt(": U+%04X has no code but is encoded as %02X", (unsigned)c, cc.Code)); }
}
static PdfFont* loadFont(PdfMemDocument& d, Val enc)
{
    auto& f = d.GetObjects().CreateDictionaryObject("Font"); f.GetDictionary().AddKey("Subtype", PdfName("Type1")); f.GetDictionary().AddKey("BaseFont", PdfName("Foo"));
    auto& fd = d.GetObjects().CreateDictionaryObject("FontDescriptor"); fd.GetDictionary().AddKey("FontName", PdfName("Foo")); fd.GetDictionary().AddKey("Flags", (int64_t)32); f.GetDictionary().AddKeyIndirect("FontDescriptor", fd);
    f.GetDictionary().AddKey("FirstChar", (int64_t)0); f.GetDictionary().AddKey("LastChar", (int64_t)255); PdfArray w; for (int i = 0; i < 256; i++) w.Add((int64_t)(500 + i)); f.GetDictionary().AddKey("Widths", w);
    f.GetDictionary().AddKey("Encoding", toObject(enc)); return d.GetFonts().GetLoadedFont(f);
}
struct Nm { const char* name; u32string text; bool judged; };
static const vector<Nm> NAMES = { { "A", U"A", true }, { "B", U"B", true }, { "adieresis", U"\u00e4", true }, { "Euro", U"\u20ac", true }, { "space", U" ", true }, { "uni0416", U"\u0416", true }, { "uni20AC", U"\u20ac", true }, { "u1F600", U"\U0001F600", true }, { "u0416", U"\u0416", true }, { "union", U"\u222a", true }, { "universal", U"\u2200", true }, { ".notdef", U"", false }, { "g12", U"", false }, { "unicorn", U"", false }, { "uni", U"", false }, { "u", U"u", true }, { "unit", U"", false }, { "uniGHIJ", U"", false }, { "afii10017", U"\u0410", true }, { "fi", U"\ufb01", true } };
static void differences(vf::Ctx& c)
{
    static const int CODE[] = { 0, 0x20, 0x41, 0x42, 0x80, 0xFF };
    for (int base = 0; base < 3; base++) for (int form = 0; form < 2; form++) for (int c1 : CODE) for (size_t n1 = 0; n1 < NAMES.size(); n1++) for (int c2 : CODE) for (size_t n2 = 0; n2 < NAMES.size(); n2++)
    {
        // form 0: read from a dictionary, form 1: made with the API, exported and read
        if (form == 1 && (!NAMES[n1].judged || !NAMES[n2].judged) && !c.thorough) continue;
        if (c1 == c2 && n1 > n2) continue;
        if (form && base == 0) continue;
        if (!c.mine()) { c.skip(); continue; }
        c.run("differences", [&] { return vf::fmt("base %s, %s, %02X /%s %02X /%s", BASENAME[base], form ? "exported" : "read", c1, NAMES[n1].name, c2, NAMES[n2].name); }, [&] {
            C->trace(); auto ref = table(base); std::set<int> unjudged; std::set<char32_t> before, gone; for (auto& p : ref) before.insert(p.second);
            auto set = [&](int code, const Nm& n) { unjudged.erase(code); if (n.judged) ref[code] = n.text[0]; else { ref.erase(code); unjudged.insert(code); } };
            set(c1, NAMES[n1]); set(c2, NAMES[n2]); for (auto& p : ref) before.erase(p.second); gone = before;
            PdfMemDocument d; string what = "differences";
            if (form == 0)
            {
                Val arr = Val::A({ Val::I(c1), Val::N(NAMES[n1].name) }); if (c2 != c1 + 1) arr.a.push_back(Val::I(c2)); arr.a.push_back(Val::N(NAMES[n2].name));
                Val e = Val::D({ { "Type", Val::N("Encoding") }, { "Differences", arr } }); if (base) e.m["BaseEncoding"] = Val::N(BASENAME[base]);
                auto f = loadFont(d, e); if (!f) { C->fail("font", "the font is not loaded"); return; }
                checkSimple(f->GetEncoding().GetEncodingMap(), ref, unjudged, what); checkGone(f->GetEncoding().GetEncodingMap(), gone, what);
                string s; for (auto& p : ref) s += (char)p.first; string want, got; for (auto& p : ref) want += u8(u32string(1, p.second)); f->GetEncoding().TryConvertToUtf8(PdfString::FromRaw(s), got); C->check(got == want, "simple-convert", vf::esc(got));
                if (!f->GetEncoding().TryConvertToCIDs(PdfString::FromRaw(s), *std::make_unique<vector<PdfCID>>())) C->fail("simple-cids", "codes of a simple font have no CID");
            }
            else
            {
                PdfDifferenceList l; l.AddDifference((unsigned char)c1, NAMES[n1].name); if (NAMES[n2].judged && NAMES[n2].text[0] > 255) l.AddDifference((unsigned char)c2, NAMES[n2].text[0]); else l.AddDifference((unsigned char)c2, NAMES[n2].name);
                auto em = std::make_shared<PdfDifferenceEncoding>(l, base == 1 ? PdfEncodingMapFactory::WinAnsiEncodingInstance() : PdfEncodingMapFactory::MacRomanEncodingInstance());
                checkSimple(*em, ref, unjudged, "made"); checkGone(*em, gone, "made");
                PdfName nm; PdfObject* o = nullptr; bool ok = em->TryGetExportObject(d.GetObjects(), nm, o); if (!ok || !o) { C->fail("export", "no object"); return; }
                auto f = loadFont(d, fromObject(*o)); if (!f) { C->fail("font", "the font is not loaded"); return; }
                checkSimple(f->GetEncoding().GetEncodingMap(), ref, unjudged, "exported"); checkGone(f->GetEncoding().GetEncodingMap(), gone, "exported");
            }
            C->state(vf::fmt("%d %d %d %zu %d %zu", base, form, c1, n1, c2, n2));
        });
    }
    for (int base = 0; base < 3; base++) c.run("table", [&] { return vf::fmt("table %d", base); }, [&] {
        PdfMemDocument d; auto f = loadFont(d, base ? Val::N(BASENAME[base]) : Val::D({ { "Type", Val::N("Encoding") } })); if (!f) { C->fail("font", "the font is not loaded"); return; } checkSimple(f->GetEncoding().GetEncodingMap(), table(base), {}, "table"); C->trace(); });
    // the form with names and codes for every code
    c.run("names", [&] { return "every code point below 65536 and some above to a name and back"; }, [&] { static const std::set<char32_t> twoNames = { 0xA0, 0xAD, 0x2C9, 0x3BC, 0x394, 0x3A9, 0x2215, 0x2219, 0x21A, 0x21B }; /* share the name of another in the Adobe Glyph List */ for (char32_t u = 0x20; u < 0x11000; u++) { if ((u >= 0xD800 && u < 0xE000) || (u >= 0xE000 && u < 0xF900) || twoNames.count(u)) continue; auto n = PdfDifferenceEncoding::CodePointToName(u); char32_t b = 0; int e = vf::errorOf([&] { b = PdfDifferenceEncoding::NameToCodePoint(n); }); C->check(e == -1 && b == u, vf::fmt("name-%X", (unsigned)u), vf::fmt("U+%04X is named %s which is U+%04X", (unsigned)u, n.GetString().c_str(), (unsigned)b)); C->transition(); } });
}

// --- fonts: text drawn is text read ------------------------------------------------
static FT_Library gLib; static FT_Face gFace;
static const char* ENCNAME[] = { "default", "WinAnsi", "MacRoman", "differences", "Identity-H", "CMap" };
static PdfEncoding makeEncoding(int e, PdfMemDocument& d)
{
    switch (e)
    {
        case 1: return PdfEncodingFactory::CreateWinAnsiEncoding();
        case 2: return PdfEncodingFactory::CreateMacRomanEncoding();
        case 3: { PdfDifferenceList l; l.AddDifference(0x41, "B"); l.AddDifference(0x42, "A"); l.AddDifference(0x7F, "Euro"); return PdfEncoding(std::make_shared<PdfDifferenceEncoding>(l, PdfEncodingMapFactory::WinAnsiEncodingInstance())); }
        case 4: { string m; for (char32_t x : U"AB\u00e9\u20ac") if (x) m += vf::fmt("<%04X><%04X>", FT_Get_Char_Index(gFace, x), (unsigned)x); PdfEncodingMapConstPtr t(parse(d, "1 begincodespacerange<0000><ffff>endcodespacerange 4 beginbfchar" + m + "endbfchar")); return PdfEncoding(PdfEncodingMapFactory::TwoBytesHorizontalIdentityEncodingInstance(), t); }
        case 5: { string m; unsigned code = 0x41; for (char32_t x : U"AB\u00e9\u20ac") if (x) m += vf::fmt("<%02X>%u ", code++, FT_Get_Char_Index(gFace, x)); PdfEncodingMapConstPtr mm(parse(d, "1 begincodespacerange<00><ff>endcodespacerange 4 begincidchar" + m + "endcidchar")), t(parse(d, "1 begincodespacerange<00><ff>endcodespacerange 3 beginbfchar<41><0041><42><0042><43><00e9>endbfchar 1 beginbfrange<44><44><20ac>endbfrange")); return PdfEncoding(mm, t); }
        default: return PdfEncoding();
    }
}
// Every code mapped by a written CMap must be in one of its code space ranges,
// or other readers take the codes of the string differently
static void checkCodeSpaces(PdfMemDocument& d)
{
    static const char* SECT[] = { "codespacerange", "bfchar", "cidchar", "bfrange", "cidrange" };
    for (auto* o : d.GetObjects())
    {
        if (!o->HasStream()) continue;
        charbuff b; if (vf::errorOf([&] { b = o->GetStream()->GetCopy(); }) != -1) continue;
        string t(b.data(), b.size()); if (t.find("begincodespacerange") == string::npos) continue;
        vector<std::pair<string, string>> spaces, used;
        for (int k = 0; k < 5; k++)
            for (size_t at = 0; (at = t.find(string("begin") + SECT[k], at)) != string::npos;)
            {
                size_t end = t.find(string("end") + SECT[k], at); if (end == string::npos) { C->fail("cmap", string("no end of ") + SECT[k]); return; }
                at += strlen(SECT[k]) + 5; vector<string> toks; int depth = 0;
                while (at < end)
                {
                    if (t[at] == '[') { depth++; if (depth == 1) toks.push_back("["); at++; }
                    else if (t[at] == ']') { depth--; at++; }
                    else if (t[at] == '<') { size_t e = t.find('>', at); if (!depth) toks.push_back(t.substr(at + 1, e - at - 1)); at = e + 1; }
                    else if (isdigit((unsigned char)t[at])) { while (at < end && isdigit((unsigned char)t[at])) at++; if (!depth) toks.push_back("#"); }
                    else at++;
                }
                size_t step = k == 0 ? 2 : k < 3 ? 2 : 3;
                for (size_t i = 0; i + step <= toks.size(); i += step)
                {
                    string lo = toks[i], hi = k == 1 || k == 2 ? toks[i] : toks[i + 1]; for (auto& ch : lo) ch = (char)tolower(ch); for (auto& ch : hi) ch = (char)tolower(ch);
                    (k == 0 ? spaces : used).push_back({ lo, hi });
                }
            }
        for (auto& u : used)
            for (auto& code : { u.first, u.second })
            {
                bool in = false; for (auto& sp : spaces) in |= sp.first.size() == code.size() && sp.first <= code && code <= sp.second;
                C->transition(); if (!in) { C->fail("codespace", "the code <" + code + "> of a written CMap is in none of its code space ranges"); return; }
            }
        C->count("written cmaps");
    }
}
// To unicode maps of every set of characters, written with a font
static void toUnicode(vf::Ctx& c)
{
    static const u32string CH = U"ABC\u00e9\u20acyz";
    for (unsigned set = 1; set < 128; set++)
    {
        if (!c.mine()) { c.skip(); continue; }
        u32string t; for (unsigned i = 0; i < 7; i++) if (set >> i & 1) t += CH[i];
        c.run("tounicode", [&] { return "characters '" + u8(t) + "'"; }, [&] {
            C->trace(); PdfMemDocument d; PdfFontCreateParams p; string m; std::map<string, u32string> want;
            for (char32_t x : t) { unsigned g = FT_Get_Char_Index(gFace, x); m += vf::fmt("<%04X><%04X>", g, (unsigned)x); want[string({ (char)(g >> 8), (char)g })] = u32string(1, x); }
            PdfEncodingMapConstPtr tm(parse(d, "1 begincodespacerange<0000><ffff>endcodespacerange " + std::to_string(t.size()) + " beginbfchar" + m + "endbfchar"));
            p.Encoding = PdfEncoding(PdfEncodingMapFactory::TwoBytesHorizontalIdentityEncodingInstance(), tm);
            auto f = d.GetFonts().GetFont(gFace, p); if (!f) { C->fail("tounicode-font", "no font"); return; }
            auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 200, 200)); { PdfPainter pt; pt.SetCanvas(page); pt.GetTextState().SetFont(*f, 10); pt.DrawText(u8(t), 10, 100); pt.FinishDrawing(); }
            charbuff b; { StringStreamDevice o(b); d.Save(o); } PdfMemDocument g; g.LoadFromBuffer(b); checkCodeSpaces(g);
            auto& pg = g.GetPages().GetPageAt(0); auto res = pg.GetResources(); auto fo = res ? res->GetDictionary().FindKey("Font") : nullptr; if (!fo) { C->fail("resources", "no font in the page's resources"); return; }
            auto first = res->GetResource("Font", fo->GetDictionary().begin()->first.GetString()); auto lf = first ? g.GetFonts().GetLoadedFont(*first) : nullptr; if (!lf) { C->fail("tounicode-loaded", "the font is not loaded"); return; }
            for (auto& w : want) { string s; bool ok = lf->GetEncoding().TryConvertToUtf8(PdfString::FromRaw(w.first), s); C->transition(); C->check(ok && s == u8(w.second), "tounicode", hex(w.first) + " is read back as '" + vf::esc(s) + "', not '" + u8(w.second) + "'"); }
            C->state("tounicode " + u8(t)); C->outcome("written");
        });
    }
}
static void fonts(vf::Ctx& c)
{
    static const vector<u32string> AL = { U"A", U"B", U"\u00e9", U"\u20ac", U"y" };
    for (int kind = 0; kind < 2; kind++) for (int e = 0; e < 6; e++) for (int flags = 0; flags < 8; flags++) for (unsigned len = 1; len <= (c.thorough ? 4u : 3u); len++) vf::sequences((unsigned)AL.size(), len, [&](const vector<unsigned>& q) {
        if (kind == 0 && e >= 4) return;
        if (!c.mine()) { c.skip(); return; }
        u32string t; for (auto i : q) t += AL[i];
        c.run("font", [&] { return string(kind ? "TrueType" : "Helvetica") + vf::fmt(", encoding %s, flags %d, text '", ENCNAME[e], flags) + u8(t) + "'"; }, [&] {
            C->trace(); PdfMemDocument d; PdfFontCreateParams p; p.Flags = (PdfFontCreateFlags)flags; p.Encoding = makeEncoding(e, d);
            PdfFont* f = nullptr; string what; int err = vf::errorOf([&] { f = kind ? d.GetFonts().GetFont(gFace, p) : d.GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica, p); }, &what);
            if (err != -1 || !f) { C->outcome("no font"); C->count(vf::fmt("no font: kind %d enc %d flags %d", kind, e, flags)); return; }
            auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 200, 200)); u32string drawn; PdfTextState st; st.Font = f; st.FontSize = 10; double width = 0;
            {
                PdfPainter pt; pt.SetCanvas(page); pt.GetTextState().SetFont(*f, 10);
                // in one piece, then character by character below
                err = vf::errorOf([&] { pt.DrawText(u8(t), 10, 100); }, &what); if (err == -1) { drawn = t; f->TryGetStringLength(u8(t), st, width); }
                if (err != -1) { C->count(vf::fmt("not drawn: kind %d enc %d flags %d", kind, e, flags) + (getenv("VERIF_DUMP") ? what : string())); bool any = false; for (char32_t x : t) any |= (x == U'y' && e >= 4) || (x == U'\u20ac' && (e == 2 || (e == 0 && kind == 0))) || (e >= 4); C->check(any, "not-drawn", "a text the encoding has is not drawn"); }
                pt.FinishDrawing();
            }
            if (drawn.empty()) { C->outcome("not drawn"); return; }
            charbuff b; { StringStreamDevice o(b); string sw; int se = vf::errorOf([&] { d.Save(o, PdfSaveOptions::None); }, &sw); if (se != -1) { C->fail("save", "saving fails: " + sw); return; } }
            if (getenv("VERIF_DUMP")) { FILE* df = fopen(getenv("VERIF_DUMP"), "w"); fwrite(b.data(), 1, b.size(), df); fclose(df); } PdfMemDocument g; g.LoadFromBuffer(b); auto& pg = g.GetPages().GetPageAt(0); vector<PdfTextEntry> es; int xe = vf::errorOf([&] { pg.ExtractTextTo(es); }, &what);
            string got; for (auto& x : es) got += x.Text; C->transition(); C->check(xe == -1 && got == u8(drawn), vf::fmt("extracted-%d-%d-%d", kind, e, flags), "'" + u8(drawn) + "' is read back as '" + vf::esc(got) + "' " + (xe == -1 ? "" : what));
            checkCodeSpaces(g);
            // widths
            auto res = pg.GetResources(); auto fo = res ? res->GetDictionary().FindKey("Font") : nullptr; if (!fo) { C->fail("resources", "no font in the page's resources"); return; }
            auto first = res->GetResource("Font", fo->GetDictionary().begin()->first.GetString()); auto lf = first ? g.GetFonts().GetLoadedFont(*first) : nullptr; if (!lf) { C->fail(vf::fmt("loaded-font-%d-%d-%d", kind, e, flags), "the font is not loaded"); return; }
            string codes; { PdfContentsReader r(pg); PdfContent cn; while (r.TryReadNext(cn)) if (cn.Type == PdfContentType::Operator && cn.Operator == PdfOperator::Tj) codes += string(cn.Stack[0].GetString().GetRawData()); }
            PdfTextState st2; st2.FontSize = 10; double w2 = 0; bool ok = lf->TryGetStringLength(PdfString::FromRaw(codes), st2, w2); C->check(ok && fabs(w2 - width) < 0.02 * (double)t.size(), vf::fmt("width-%d-%d-%d", kind, e, flags), vf::fmt("the text is %.3f wide, read back %.3f", width, w2));
            C->state(vf::fmt("%d %d %d ", kind, e, flags) + u8(t)); C->outcome("drawn");
        });
    });
}
// --- widths of loaded fonts -----------------------------------------------------------
static void checkWidth(PdfFont& f, const string& codes, double want, const string& what)
{
    PdfTextState st; st.FontSize = 10; double got = -1; f.TryGetStringLength(PdfString::FromRaw(codes), st, got);
    C->transition(); C->check(fabs(got - want / 100) < 1e-6, what, vf::fmt("<%s> is %.4f wide, not %.4f", [&] { string h; for (unsigned char x : codes) h += vf::fmt("%02x", x); return h; }().c_str(), got, want / 100));
}
static void widths(vf::Ctx& c)
{
    // simple fonts: first code, number of widths, default width
    for (int std14 = 0; std14 < 2; std14++) for (int first : { 32, 65, 250 }) for (int n = 1; n <= (c.thorough ? 6 : 4) && first + n <= 256; n++) for (int enc = std14 ? 0 : 1; enc < 3; enc++) for (int missing = 0; missing < 2; missing++)
        c.run("widths", [&] { return vf::fmt("%s, FirstChar %d, %d widths, encoding %d, MissingWidth %d", std14 ? "Helvetica" : "Foo", first, n, enc, missing); }, [&] {
            C->trace(); PdfMemDocument d; auto& f = d.GetObjects().CreateDictionaryObject("Font"); f.GetDictionary().AddKey("Subtype", PdfName("Type1")); f.GetDictionary().AddKey("BaseFont", PdfName(std14 ? "Helvetica" : "Foo"));
            if (!std14) { auto& fd = d.GetObjects().CreateDictionaryObject("FontDescriptor"); fd.GetDictionary().AddKey("FontName", PdfName("Foo")); fd.GetDictionary().AddKey("Flags", (int64_t)32); if (missing) fd.GetDictionary().AddKey("MissingWidth", (int64_t)333); f.GetDictionary().AddKeyIndirect("FontDescriptor", fd); }
            f.GetDictionary().AddKey("FirstChar", (int64_t)first); f.GetDictionary().AddKey("LastChar", (int64_t)(first + n - 1)); PdfArray w; for (int i = 0; i < n; i++) w.Add((int64_t)(500 + 7 * i)); f.GetDictionary().AddKey("Widths", w);
            if (enc) f.GetDictionary().AddKey("Encoding", PdfName(enc == 1 ? "WinAnsiEncoding" : "MacRomanEncoding"));
            auto lf = d.GetFonts().GetLoadedFont(f); if (!lf) { C->fail("widths-font", "the font is not loaded"); return; }
            double all = 0; string s; for (int i = 0; i < n; i++) { checkWidth(*lf, string(1, (char)(first + i)), 500 + 7 * i, "width-simple"); all += 500 + 7 * i; s += (char)(first + i); }
            checkWidth(*lf, s, all, "width-simple-text");
            if (!std14) for (int o : { first - 1, first + n, (int)'0', (int)'z' }) if (o >= 32 && o < 256 && (o < first || o >= first + n)) checkWidth(*lf, string(1, (char)o), missing ? 333 : 0, "width-missing");
            C->state(vf::fmt("simple %d %d %d %d %d", std14, first, n, enc, missing));
        });
    // standard fonts without widths: those of Adobe's metrics
    struct M { PdfStandard14FontType t; const char* name; int w[9]; };
    static const M FONT[] = { { PdfStandard14FontType::Helvetica, "Helvetica", { 278, 667, 667, 722, 556, 222, 944, 556, 556 } }, { PdfStandard14FontType::HelveticaBold, "Helvetica-Bold", { 278, 722, 722, 722, 556, 278, 944, 556, 611 } }, { PdfStandard14FontType::TimesRoman, "Times-Roman", { 250, 722, 667, 667, 444, 278, 944, 444, 500 } }, { PdfStandard14FontType::Courier, "Courier", { 600, 600, 600, 600, 600, 600, 600, 600, 600 } } };
    static const char32_t CH[] = { ' ', 'A', 'B', 'C', 'a', 'i', 'W', 0xE9, 'p' };
    for (auto& m : FONT) for (int enc = 0; enc < 4; enc++) for (unsigned len = 1; len <= (c.thorough ? 3u : 2u); len++) vf::sequences(9, len, [&](const vector<unsigned>& q) {
        c.run("std14", [&] { string s; for (auto i : q) s += vf::fmt(" %X", (unsigned)CH[i]); return vf::fmt("%s, encoding %d, text%s", m.name, enc, s.c_str()); }, [&] {
            C->trace(); PdfMemDocument d; auto& f = d.GetObjects().CreateDictionaryObject("Font"); f.GetDictionary().AddKey("Subtype", PdfName("Type1")); f.GetDictionary().AddKey("BaseFont", PdfName(m.name));
            if (enc == 1) f.GetDictionary().AddKey("Encoding", PdfName("WinAnsiEncoding")); if (enc == 2) f.GetDictionary().AddKey("Encoding", PdfName("MacRomanEncoding"));
            if (enc == 3) { auto& e = d.GetObjects().CreateDictionaryObject("Encoding"); PdfArray a; a.Add((int64_t)1); for (const char* nm : { "space", "A", "B", "C", "a", "i", "W", "eacute", "p" }) a.Add(PdfName(nm)); e.GetDictionary().AddKey("Differences", a); f.GetDictionary().AddKeyIndirect("Encoding", e); }
            auto lf = d.GetFonts().GetLoadedFont(f); if (!lf) { C->fail("std14-font", "the font is not loaded"); return; }
            string s; double all = 0; u32string t; bool has = true; for (auto i : q) { char code = (char)CH[i]; if (CH[i] == 0xE9) { if (enc == 0) has = false; if (enc == 2) code = (char)0x8E; } if (enc == 3) code = (char)(i + 1); s += code; all += m.w[i]; t += CH[i]; }
            if (has) checkWidth(*lf, s, all, "width-std14");
            auto cf = d.GetFonts().GetStandard14Font(m.t, [&] { PdfFontCreateParams p; p.Flags = PdfFontCreateFlags::DontEmbed; p.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding(); return p; }()); PdfTextState st; st.FontSize = 10; double got = 0; bool ok = cf && cf->TryGetStringLength(u8(t), st, got); C->check(ok && fabs(got - all / 100) < 1e-6, "width-created", vf::fmt("%.4f, not %.4f", got, all / 100));
            C->state(vf::fmt("%s %d ", m.name, enc) + s);
        });
    });
    // CID fonts: sequences of segments of the W array
    static const vector<std::function<void(PdfArray&, std::map<int, double>&)>> SEG = {
        [](PdfArray& a, std::map<int, double>& r) { a.Add((int64_t)1); PdfArray w; w.Add((int64_t)100); a.Add(w); r[1] = 100; },
        [](PdfArray& a, std::map<int, double>& r) { a.Add((int64_t)2); PdfArray w; w.Add((int64_t)200); w.Add(211.5); w.Add((int64_t)222); a.Add(w); r[2] = 200; r[3] = 211.5; r[4] = 222; },
        [](PdfArray& a, std::map<int, double>& r) { a.Add((int64_t)0); a.Add((int64_t)2); a.Add((int64_t)300); r[0] = r[1] = r[2] = 300; },
        [](PdfArray& a, std::map<int, double>& r) { a.Add((int64_t)4); a.Add((int64_t)4); a.Add((int64_t)444); r[4] = 444; },
        [](PdfArray& a, std::map<int, double>& r) { a.Add((int64_t)6); a.Add((int64_t)8); a.Add((int64_t)555); r[6] = r[7] = r[8] = 555; },
        [](PdfArray& a, std::map<int, double>&) { a.Add((int64_t)3); a.Add(PdfArray()); },
        [](PdfArray& a, std::map<int, double>& r) { a.Add((int64_t)65535); a.Add((int64_t)65535); a.Add((int64_t)777); r[65535] = 777; } };
    for (int dw = 0; dw < 2; dw++) for (unsigned len = 0; len <= (c.thorough ? 4u : 3u); len++) vf::sequences((unsigned)SEG.size(), len, [&](const vector<unsigned>& q) {
        for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < i; j++) if (q[i] == q[j]) return;
        c.run("W", [&] { string s; for (auto i : q) s += vf::fmt(" %u", i); return vf::fmt("DW %d, segments", dw) + s; }, [&] {
            C->trace(); PdfMemDocument d; PdfArray w; std::map<int, double> ref; for (auto i : q) SEG[i](w, ref);
            auto& f = d.GetObjects().CreateDictionaryObject("Font"); f.GetDictionary().AddKey("Subtype", PdfName("Type0")); f.GetDictionary().AddKey("BaseFont", PdfName("Foo")); f.GetDictionary().AddKey("Encoding", PdfName("Identity-H"));
            auto& df = d.GetObjects().CreateDictionaryObject("Font"); df.GetDictionary().AddKey("Subtype", PdfName("CIDFontType2")); df.GetDictionary().AddKey("BaseFont", PdfName("Foo")); if (dw) df.GetDictionary().AddKey("DW", (int64_t)999); if (!q.empty()) df.GetDictionary().AddKey("W", w); df.GetDictionary().AddKey("CIDToGIDMap", PdfName("Identity"));
            auto& fd = d.GetObjects().CreateDictionaryObject("FontDescriptor"); fd.GetDictionary().AddKey("FontName", PdfName("Foo")); fd.GetDictionary().AddKey("Flags", (int64_t)4); df.GetDictionary().AddKeyIndirect("FontDescriptor", fd); PdfArray da; da.Add(df.GetIndirectReference()); f.GetDictionary().AddKey("DescendantFonts", da);
            auto lf = d.GetFonts().GetLoadedFont(f); if (!lf) { C->fail("W-font", "the font is not loaded"); return; }
            for (int cid : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 256, 65534, 65535 }) { double want = ref.count(cid) ? ref[cid] : dw ? 999 : 1000; checkWidth(*lf, string(1, (char)(cid >> 8)) + (char)cid, want, "width-cid"); checkWidth(*lf, string("\0\1", 2) + (char)(cid >> 8) + (char)cid, want + (ref.count(1) ? ref[1] : dw ? 999 : 1000), "width-cid"); }
            string key = vf::fmt("W %d", dw); for (auto i : q) key += vf::fmt(" %u", i); C->state(key);
        });
    });
}
static void explore(vf::Ctx& c)
{
    C = &c;
    FT_Init_FreeType(&gLib); string path = string(getenv("VERIF_HOME") ? getenv("VERIF_HOME") : "/verif") + "/data/Go-Regular.ttf"; if (FT_New_Face(gLib, path.c_str(), 0, &gFace)) { fprintf(stderr, "no font %s\n", path.c_str()); exit(2); }
    textMaps(c); cidMaps(c); mapHistories(c); differences(c); widths(c); fonts(c); toUnicode(c);
}
int main(int argc, char** argv)
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    vf::Config cfg; cfg.prop = "P26";
    cfg.rule = "all sets of up to three mappings from a pool over codes of one to four bytes, ranges and multi-character targets, in three styles of map files; all histories of pushes, lookups and moves to depth 4; all pairs of differences over three base encodings; all short texts drawn with every kind of font, encoding and flags; decoding of all short code strings and encoding of all short texts compared with the mappings; states are maps";
    cfg.assumptions = { "codes not in a map are only judged for maps with codes of one length, and then only that they do not disturb their neighbours", "codes that PDF leaves undefined in predefined encodings are not judged" };
    return vf::main(argc, argv, cfg, explore);
}
