// P27: content streams are read as their operators and operands. Contents are
// generated together with the events they spell; the reader has to give exactly
// those, however the bytes are split over streams.
#include "ref.h"
#include <memory>
#include <algorithm>
#include <pdfmm/base/PdfContentsReader.h>
#include <pdfmm/base/PdfCanvasInputDevice.h>
#include <pdfmm/base/PdfOperatorUtils.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm; using namespace ref; using std::string; using std::vector;
static vf::Ctx* C;

// name and number of operands, from ISO 32000-1 Annex A; -1: varies
static const vector<std::pair<string, int>> OPS = {
    { "b", 0 }, { "B", 0 }, { "b*", 0 }, { "B*", 0 }, { "BDC", 2 }, { "BMC", 1 }, { "BT", 0 }, { "BX", 0 }, { "c", 6 }, { "cm", 6 }, { "CS", 1 }, { "cs", 1 }, { "d", 2 }, { "d0", 2 }, { "d1", 6 }, { "DP", 2 },
    { "EMC", 0 }, { "ET", 0 }, { "EX", 0 }, { "f", 0 }, { "F", 0 }, { "f*", 0 }, { "G", 1 }, { "g", 1 }, { "gs", 1 }, { "h", 0 }, { "i", 1 }, { "j", 1 }, { "J", 1 }, { "K", 4 }, { "k", 4 }, { "l", 2 }, { "m", 2 }, { "M", 1 }, { "MP", 1 }, { "n", 0 },
    { "q", 0 }, { "Q", 0 }, { "re", 4 }, { "RG", 3 }, { "rg", 3 }, { "ri", 1 }, { "s", 0 }, { "S", 0 }, { "SC", -1 }, { "sc", -1 }, { "SCN", -1 }, { "scn", -1 }, { "sh", 1 }, { "T*", 0 }, { "Tc", 1 }, { "Td", 2 }, { "TD", 2 }, { "Tf", 2 }, { "Tj", 1 }, { "TJ", 1 }, { "TL", 1 }, { "Tm", 6 },
    { "Tr", 1 }, { "Ts", 1 }, { "Tw", 1 }, { "Tz", 1 }, { "v", 4 }, { "w", 1 }, { "W", 0 }, { "W*", 0 }, { "y", 4 }, { "'", 1 }, { "\"", 3 } };
struct Opd { string text; Val v; };
static const vector<Opd> OPDS = {
    { "1", Val::I(1) }, { "/N", Val::N("N") }, { "(s)", Val::S("s") }, { "-1.5", Val::R(-1.5) }, { "[1(a)-2]", Val::A({ Val::I(1), Val::S("a"), Val::I(-2) }) }, { "<</MCID 0>>", Val::D({ { "MCID", Val::I(0) } }) }, { "<4142>", Val::S("AB") }, { "true", Val::B(true) },
    { "null", Val() }, { ".5", Val::R(.5) }, { "5.", Val::R(5) }, { "+7", Val::I(7) }, { "-.25", Val::R(-.25) }, { "(a(b)\\)c)", Val::S("a(b))c") }, { "()", Val::S("") }, { "<>", Val::S("") }, { "[]", Val::A() }, { "<<>>", Val::D() }, { "/A#20B", Val::N("A B") }, { "false", Val::B(false) },
    { "[[/a](b)<</K[/v null]>>]", Val::A({ Val::A({ Val::N("a") }), Val::S("b"), Val::D({ { "K", Val::A({ Val::N("v"), Val() }) } }) }) }, { "(EI Q\n%x)", Val::S("EI Q\n%x") }, { "0", Val::I(0) }, { "-0", Val::I(0) }, { "/BI", Val::N("BI") }, { "/ID", Val::N("ID") }, { "<4>", Val::S("@") } };

static string vals(const vector<Val>& v) { string s = "["; for (auto& x : v) s += " " + show(x); return s + " ]"; }
static string opEv(const string& name, const vector<Val>& v, const char* w = "") { return "op " + name + " " + vals(v) + w; }
static const char *FEW = " few", *MANY = " many";
static string warn(PdfContentWarnings w)
{
    string s;
    if ((w & PdfContentWarnings::InvalidOperator) != PdfContentWarnings::None) s += FEW;
    if ((w & PdfContentWarnings::SpuriousStackContent) != PdfContentWarnings::None) s += MANY;
    if ((w & PdfContentWarnings::InvalidXObject) != PdfContentWarnings::None) s += " invalid-xobject";
    if ((w & PdfContentWarnings::RecursiveXObject) != PdfContentWarnings::None) s += " recursive";
    if ((w & PdfContentWarnings::InvalidImageDictionaryContent) != PdfContentWarnings::None) s += " bad-dictionary";
    if ((w & PdfContentWarnings::MissingEndImage) != PdfContentWarnings::None) s += " no-EI";
    return s;
}
static string hexOf(const charbuff& b) { return vf::hexs({ b.data(), b.size() }); }
// all that the reader gives
static vector<string> readAll(PdfContentsReader& r, bool fresh)
{
    vector<string> out; PdfContent kept;
    for (;;)
    {
        PdfContent mine; PdfContent& c = fresh ? mine : kept;
        if (!r.TryReadNext(c)) break;
        vector<Val> st; for (auto it = c.Stack.rbegin(); it != c.Stack.rend(); ++it) st.push_back(fromVariant(*it));
        for (size_t i = 0; i < st.size(); i++) if (show(fromVariant(c.Stack[i])) != show(st[st.size() - 1 - i])) out.push_back("operand order is not that of a stack");
        string w = warn(c.Warnings);
        switch (c.Type)
        {
            case PdfContentType::Operator: out.push_back("op " + string(c.Keyword) + " " + vals(st) + w); if (GetPdfOperatorName(c.Operator) != c.Keyword) out.push_back("operator code names " + string(GetPdfOperatorName(c.Operator))); break;
            case PdfContentType::ImageDictionary: out.push_back("image " + show(fromVariant(PdfVariant(c.InlineImageDictionary))) + w); break;
            case PdfContentType::ImageData: out.push_back("data " + hexOf(c.InlineImageData) + w); break;
            case PdfContentType::DoXObject: out.push_back("do " + (c.Name ? string(c.Name->GetString()) : string("?")) + " " + (c.XObject ? c.XObject->GetType() == PdfXObjectType::Form ? "form" : c.XObject->GetType() == PdfXObjectType::Image ? "image" : "other" : "null") + w); break;
            case PdfContentType::EndXObjectForm: out.push_back("end " + vals(st) + w); break;
            case PdfContentType::UnexpectedKeyword: out.push_back("keyword " + string(c.Keyword) + " " + vals(st) + w); break;
            default: out.push_back("unknown content"); break;
        }
        if (out.size() > 5000) { out.push_back("endless"); break; }
    }
    return out;
}
static string join(const vector<string>& v) { string s; for (auto& x : v) s += x + "\n"; return s; }
// the data of an inline image may include the white space before EI
static bool sameEvent(const string& want, const string& got) { if (want == got) return true; if (want.compare(0, 5, "data ")) return false; for (auto w : { "20", "0a", "0A", "0d", "0D", "00" }) if (want + w == got) return true; return false; }
static bool compare(const vector<string>& want, const vector<string>& got, const char* sig, const string& content)
{
    size_t i = 0; while (i < want.size() && i < got.size() && sameEvent(want[i], got[i])) i++;
    C->transition(got.size());
    if (i == want.size() && i == got.size()) { C->outcome(join(got)); return true; }
    C->fail(sig, vf::fmt("event %zu is '%s', not '%s' in ", i, i < got.size() ? vf::esc(got[i], 120).c_str() : "(end)", i < want.size() ? vf::esc(want[i], 120).c_str() : "(end)") + vf::esc(content, 300));
    return false;
}
static vector<string> readSpan(const string& s, bool fresh = false, PdfContentReaderArgs* args = nullptr)
{
    auto dev = std::make_shared<SpanStreamDevice>(s);
    if (args) { PdfContentsReader r(dev, *args); return readAll(r, fresh); }
    PdfContentsReader r(dev); return readAll(r, fresh);
}
struct PageDoc
{
    PdfMemDocument doc; PdfPage* page;
    PageDoc() { page = &doc.GetPages().CreatePage(PdfRect(0, 0, 10, 10)); page->GetDictionary().RemoveKey("Contents"); }
    PdfObject& stream(const string& s, bool compress = false) { auto& o = doc.GetObjects().CreateDictionaryObject(); if (compress) o.GetOrCreateStream().SetData(s); else o.GetOrCreateStream().SetData(s, true); return o; }
    PdfReference st(const string& s, bool compress = false) { return stream(s, compress).GetIndirectReference(); }
};
static vector<string> readPage(PdfPage& p, bool fresh = false, PdfContentReaderArgs* args = nullptr) { if (args) { PdfContentsReader r(p, *args); return readAll(r, fresh); } PdfContentsReader r(p); return readAll(r, fresh); }
static PdfPage& onePage(PageDoc& d, const string& s, bool compress = false) { auto& st = d.page->GetOrCreateContents().GetStreamForAppending(PdfStreamAppendFlags::NoSaveRestorePrior); if (compress) st.SetData(s); else st.SetData(s, true); return *d.page; }
// pages keep their contents object from when they are made, so changed documents are saved and loaded again
static string saved(PdfMemDocument& d) { charbuff b; StringStreamDevice dev(b); d.Save(dev, PdfSaveOptions::NoFlateCompress); return string(b.data(), b.size()); }

static bool reg(char c) { return !isWs((unsigned char)c) && !isDelim((unsigned char)c); }
// append a token with as little white space as possible, or a given separator
static void put(string& s, const string& tok, const string& sep) { if (sep.size()) s += s.empty() ? "" : sep; else if (s.size() && reg(s.back()) && reg(tok[0])) s += ' '; s += tok; }

static void operators(vf::Ctx& c)
{
    static const string SEP[] = { "", " ", "\n", "\r\n", "%c EI (\n", string(1, '\0') };
    // each operator with too few, right and too many operands
    for (auto& op : OPS) for (size_t first = 0; first < OPDS.size(); first++) for (int n = 0; n <= 8; n++)
        c.run("operator", [&] { return vf::fmt("operator %s with %d operands from %zu", op.first.c_str(), n, first); }, [&] {
            C->trace();
            for (auto& sep : SEP)
            {
                string s; vector<Val> v; for (int i = 0; i < n; i++) { auto& o = OPDS[(first + i) % OPDS.size()]; put(s, o.text, sep); v.push_back(o.v); }
                put(s, op.first, sep);
                const char* w = op.second >= 0 && n < op.second ? FEW : op.second >= 0 && n > op.second ? MANY : "";
                C->state(s);
                if (!compare({ opEv(op.first, v, w) }, readSpan(s), "operator", s)) return;
                PdfContentReaderArgs a; a.Flags = PdfContentReaderFlags::ThrowOnWarnings; vector<string> got;
                int err = vf::errorOf([&] { got = readSpan(s, true, &a); });
                if ((err != -1) != (*w != 0)) { C->fail("throw-on-warnings", vf::fmt("error %d with warnings '%s' in ", err, w) + s); return; }
                if (err == -1 && !compare({ opEv(op.first, v, w) }, got, "throwing-reader", s)) return;
            }
        });
    for (auto& a : OPS) for (auto& b : OPS)
        c.run("pair", [&] { return "operators " + a.first + " " + b.first; }, [&] {
            C->trace();
            for (auto& sep : SEP) for (int k = 0; k < 3; k++)
            {
                string s; vector<string> want;
                for (int j = 0; j < 3; j++) { auto& o = j == 1 ? b : a; vector<Val> v; for (int i = 0; i < (o.second < 0 ? k : o.second); i++) { auto& x = OPDS[(i + k + j * 5) % OPDS.size()]; put(s, x.text, sep); v.push_back(x.v); } put(s, o.first, sep); want.push_back(opEv(o.first, v)); }
                C->state(s);
                if (!compare(want, readSpan(s, k == 1), "operators", s)) return;
            }
        });
    // operands next to each other
    size_t N = OPDS.size();
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < (c.thorough ? N : 5); k++)
        c.run("operands", [&] { return "operands " + OPDS[i].text + OPDS[j].text + OPDS[k].text; }, [&] {
            C->trace();
            for (auto& sep : SEP)
            {
                string s; put(s, OPDS[i].text, sep); put(s, OPDS[j].text, sep); put(s, OPDS[k].text, sep); put(s, "scn", sep); put(s, OPDS[j].text, sep); put(s, "1", sep); put(s, "0", sep); put(s, "R", sep); put(s, "Foo", sep); put(s, "q", sep);
                C->state(s);
                if (!compare({ opEv("scn", { OPDS[i].v, OPDS[j].v, OPDS[k].v }), "keyword R " + vals({ OPDS[j].v, Val::I(1), Val::I(0) }), "keyword Foo [ ]", opEv("q", {}) }, readSpan(s), "operands", s)) return;
            }
        });
    // names of operators are whole words in the right case
    vector<string> near; for (auto& o : OPS) { near.push_back(o.first + "x"); near.push_back("x" + o.first); near.push_back(o.first + o.first); string u; for (char ch : o.first) u += isupper(ch) ? tolower(ch) : toupper(ch); near.push_back(u); }
    for (auto& n : near) { bool known = std::any_of(OPS.begin(), OPS.end(), [&](auto& o) { return o.first == n; }) || n == "Do" || n == "BI" || n == "ID" || n == "EI"; if (!known) c.run("near", [&] { return "keyword " + n; }, [&] { C->trace(); for (string s : { n, "1 " + n + " q" }) { vector<string> want = { "keyword " + n + (s == n ? " [ ]" : " [ 1 ]") }; if (s != n) want.push_back(opEv("q", {})); if (isdigit((unsigned char)n[0])) continue; compare(want, readSpan(s), "unknown-keyword", s); } }); }
}
struct Sample { const char* name; vector<string> toks; vector<string> want; };
static vector<Sample> samples()
{
    return {
        { "text", { "BT", "/F1", "12", "Tf", "(a)", "Tj", "[", "(b)", "-1", "]", "TJ", "ET" }, { opEv("BT", {}), opEv("Tf", { Val::N("F1"), Val::I(12) }), opEv("Tj", { Val::S("a") }), opEv("TJ", { Val::A({ Val::S("b"), Val::I(-1) }) }), opEv("ET", {}) } },
        { "image", { "q", "BI", "/W", "1", "/D", "[", "0", "1", "]", "ID x\xff" "EI\nEI\n", "Q" }, {} },
        { "marked", { "/P", "<<", "/MCID", "0", "/A", "[", "1", "]", ">>", "BDC", "1.5", "w", "EMC" }, { opEv("BDC", { Val::N("P"), Val::D({ { "MCID", Val::I(0) }, { "A", Val::A({ Val::I(1) }) } }) }), opEv("w", { Val::R(1.5) }), opEv("EMC", {}) } },
        { "numbers", { "1", "2", "3", "4", "re", "f", "0", "0", "m", "1", "g", "S" }, { opEv("re", { Val::I(1), Val::I(2), Val::I(3), Val::I(4) }), opEv("f", {}), opEv("m", { Val::I(0), Val::I(0) }), opEv("g", { Val::I(1) }), opEv("S", {}) } },
    };
}
static void splits(vf::Ctx& c)
{
    auto S = samples();
    S[1].toks = { "q", "BI", "/W", "1", "/D", "[", "0", "1", "]", "ID x\xff" "E\nEI\n", "Q" };
    S[1].want = { opEv("q", {}), "image " + show(Val::D({ { "W", Val::I(1) }, { "D", Val::A({ Val::I(0), Val::I(1) }) } })), "data " + vf::hexs("x\xff" "E"), opEv("Q", {}) };
    // what stands between the parts: nothing, an empty stream, null, a dangling reference, a stream of white space, a dictionary without stream, a number
    for (auto& s : S) for (int between = 0; between < 7; between++) for (int ws = 0; ws < 3; ws++) for (unsigned mask = 0; mask < 1u << (s.toks.size() - 1); mask++)
    {
        if (!c.thorough && between && __builtin_popcount(mask) > 4) continue;
        if (!c.mine()) { c.skip(); continue; }
        c.run("split", [&] { return vf::fmt("%s split at %x, between %d, white space %d", s.name, mask, between, ws); }, [&] {
            C->trace();
            // one document per case; how the entry is made alternates with the case
            vector<string> parts(1);
            for (size_t i = 0; i < s.toks.size(); i++) { put(parts.back(), s.toks[i], ws == 2 ? "\n" : ""); if (i + 1 < s.toks.size() && mask >> i & 1) { if (ws == 1) parts.back() += "\n"; parts.push_back(""); } }
            string shown; for (auto& p : parts) shown += p + " | ";
            PageDoc d; PdfArray arr;
            auto odd = [&](int k) { switch (k) { case 1: arr.Add(d.st("")); break; case 2: arr.Add(PdfVariant()); break; case 3: arr.Add(PdfReference(9999, 0)); break; case 4: arr.Add(d.st(" \n")); break; case 5: arr.Add(d.doc.GetObjects().CreateDictionaryObject().GetIndirectReference()); break; case 6: arr.Add((int64_t)7); break; default: break; } };
            odd(between);
            for (auto& p : parts) { arr.Add(d.st(p, mask & 1)); odd(between); }
            auto& page = *d.page; auto& dict = page.GetDictionary();
            if (parts.size() == 1 && !between) dict.AddKey("Contents", d.st(parts[0]));
            else if (mask & 2) dict.AddKey("Contents", arr);
            else dict.AddKey("Contents", d.doc.GetObjects().CreateObject(PdfVariant(arr)).GetIndirectReference());
            string file = saved(d.doc); PdfMemDocument re; re.LoadFromBuffer(file);
            auto& p2 = re.GetPages().GetPageAt(0);
            C->state(shown);
            if (!compare(s.want, readPage(p2), "split", shown)) return;
            if (!compare(s.want, readPage(p2, true), "split-second", shown)) return;
            auto copy = p2.GetContents() ? p2.GetContents()->GetCopy() : charbuff();
            if (p2.GetContents() && !compare(s.want, readSpan(string(copy.data(), copy.size())), "contents-copy", vf::esc({ copy.data(), copy.size() }) + " from " + shown)) return;
        });
    }
}
static void lengths(vf::Ctx& c)
{
    auto S = samples();
    vector<size_t> ns; size_t hi = 8400;
    for (size_t n = 0; n < hi; n++) if (c.thorough || n < 20 || (n > 4060 && n < 4110) || (n > 8160 && n < 8210)) ns.push_back(n);
    static const char* KIND[] = { "spaces", "comment", "string", "hex", "name", "array", "image", "real", "operators", "keyword" };
    for (size_t n : ns) for (int kind = 0; kind < 10; kind++) for (int where = 0; where < 3; where++)
        c.run("length", [&] { return vf::fmt("%s of length %zu, %s", KIND[kind], n, where == 0 ? "device" : where == 1 ? "page" : "page with two streams"); }, [&] {
            C->trace();
            string a, b; vector<string> want;
            auto pad = [&](char ch) { return string(n, ch); };
            switch (kind)
            {
                case 0: a = pad(' '); break;
                case 1: a = "%" + pad('c') + "\n"; break;
                case 2: { string t = pad('s'); for (size_t i = 0; i < n; i++) t[i] = "ab()"[i % 4]; if (n % 4 == 3) t[n - 1] = 'x'; a = "(" + t + ")Tj "; want.push_back(opEv("Tj", { Val::S(t) })); break; }
                case 3: a = "<" + pad('4') + ">Tj "; want.push_back(opEv("Tj", { Val::S(string(n / 2, 'D') + (n & 1 ? "@" : "")) })); break;
                case 4: if (n > 4000) return; /* beyond all limits of names */ a = "/N" + pad('n') + " gs "; want.push_back(opEv("gs", { Val::N("N" + pad('n')) })); break;
                case 5: { a = "["; vector<Val> v; for (size_t i = 0; i < n / 2; i++) { a += "1 "; v.push_back(Val::I(1)); } a += n & 1 ? " ]TJ " : "]TJ "; want.push_back(opEv("TJ", { Val::A(v) })); break; }
                case 6: { string t = pad('d'); for (size_t i = 0; i < n; i++) t[i] = "EId\xff"[i % 4]; if (n % 4 == 2) t[n - 1] = 'x'; a = "BI /W 1 ID " + t + "\nEI\n"; want.push_back("image " + show(Val::D({ { "W", Val::I(1) } }))); want.push_back("data " + vf::hexs(t)); break; }
                case 7: if (n > 4000) return; a = "1." + pad('0') + " w "; want.push_back(opEv("w", { Val::R(1) })); break;
                case 8: a = pad('q'); for (size_t i = 1; i < n; i += 2) a[i] = ' '; for (size_t i = 0; i < n; i += 2) want.push_back(opEv("q", {})); a += " "; break;
                case 9: if (n > 4000) return; a = "x" + pad('k') + " "; want.push_back("keyword x" + pad('k') + " [ ]"); break;
            }
            string rest; for (auto& t : S[0].toks) put(rest, t, "");
            for (auto& w : S[0].want) want.push_back(w);
            C->state(vf::fmt("%zu %d %d", n, kind, where));
            if (where == 0) { compare(want, readSpan(a + rest), "length", KIND[kind]); return; }
            PageDoc d; PdfArray arr; if (where == 1) arr.Add(d.st(a + rest, n & 1)); else { arr.Add(d.st(a, n & 1)); arr.Add(d.st(rest)); }
            d.page->GetDictionary().AddKey("Contents", arr);
            string file = saved(d.doc); PdfMemDocument re; re.LoadFromBuffer(file);
            compare(want, readPage(re.GetPages().GetPageAt(0)), "length", KIND[kind]);
        });
}
static bool ambiguous(const string& all, size_t realEI)
{
    // another EI followed by white space before the real one, or the data of the real one reaching into it
    for (size_t p = 0; p < realEI; p++) if (all.compare(p, 2, "EI") == 0 && p + 2 < all.size() && isWs((unsigned char)all[p + 2])) return true;
    return false;
}
static void images(vf::Ctx& c)
{
    static const string ENDS[] = { "\nEI\nQ", " EI Q", "EI\nQ", "\nEI", "EI", "\r\nEI\rQ" };
    string alpha("EI \nx", 5); alpha += '\0';
    vf::strings(alpha, 0, c.thorough ? 7 : 6, [&](const string& data) {
        if (!c.mine()) { c.skip(); return; }
        c.run("image", [&] { return "inline image data " + vf::esc(data); }, [&] {
            C->trace();
            for (int e = 0; e < 6; e++) for (int via = 0; via < 2; via++)
            {
                const string& end = ENDS[e]; string all = data + end; size_t ei = data.size() + end.find("EI");
                if (ambiguous(all, ei)) continue;
                {
                    string s = "BI/W 1 ID " + all; vector<string> want = { "image " + show(Val::D({ { "W", Val::I(1) } })), "data " + vf::hexs(data) };
                    if (e == 2 || e == 4) ; else if (e == 5) want[1] = "data " + vf::hexs(data + "\r");
                    if (end.back() == 'Q') want.push_back(opEv("Q", {}));
                    C->state(s);
                    vector<string> got;
                    if (via == 0) got = readSpan(s, data.size() & 1); else { PageDoc d; got = readPage(onePage(d, s, false)); }
                    if (e == 5 && got.size() > 1 && got[1] == "data " + vf::hexs(data)) got[1] = want[1];
                    if (!compare(want, got, "image-data", s)) return;
                    // with a handler that reads exactly the data
                    string seen; PdfContentReaderArgs a; a.InlineImageHandler = [&](const PdfDictionary& dict, InputStreamDevice& dev) { if (!dict.HasKey("W")) C->fail("handler-dictionary", s); char ch; if (!dev.Read(ch)) return false; for (size_t i = 0; i < data.size(); i++) { if (!dev.Read(ch)) return false; seen += ch; } return true; };
                    auto w2 = want; w2.erase(w2.begin() + 1);
                    if (via == 0) got = readSpan(s, false, &a); else { PageDoc d; got = readPage(onePage(d, s, false), false, &a); }
                    if (seen != data) { C->fail("handler-data", "handler saw " + vf::esc(seen) + " in " + vf::esc(s)); return; }
                    if (!compare(w2, got, "after-handler", s)) return;
                }
            }
        });
    });
    // images one after the other, with and without operators between
    {
        static const vector<std::pair<string, Val>> D = { { "", Val::D() }, { "/W 1", Val::D({ { "W", Val::I(1) } }) }, { "/W 2/H 3", Val::D({ { "W", Val::I(2) }, { "H", Val::I(3) } }) }, { "/F/A85", Val::D({ { "F", Val::N("A85") } }) } };
        static const char* DATA[] = { "", "a", "bcd" };
        for (unsigned n = 1; n <= 3; n++) vf::sequences(D.size() * 3 * 2, n, [&](const vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            c.run("image-row", [&] { string s; for (auto x : v) s += vf::fmt("%u ", x); return "images " + s; }, [&] {
                C->trace();
                string s; vector<string> want, w2;
                for (auto x : v)
                {
                    auto& d = D[x % 4]; string data = DATA[x / 4 % 3];
                    s += "BI " + d.first + " ID " + data + "\nEI\n"; want.push_back("image " + show(d.second)); w2.push_back(want.back()); want.push_back("data " + vf::hexs(data));
                    if (x / 12) { s += "q "; want.push_back(opEv("q", {})); w2.push_back(want.back()); }
                }
                C->state(s);
                if (!compare(want, readSpan(s), "image-row", s)) return;
                PdfContentReaderArgs a; size_t k = 0; string seen; a.InlineImageHandler = [&](const PdfDictionary& dict, InputStreamDevice& dev) { seen += dict.HasKey("W") == (D[v[k] % 4].second.get("W") != nullptr) && dict.GetSize() == D[v[k] % 4].second.m.size() ? "" : "wrong dictionary "; char ch; size_t len = strlen(DATA[v[k] / 4 % 3]) + 1; for (size_t i = 0; i < len; i++) if (!dev.Read(ch)) return false; k++; return true; };
                auto got = readSpan(s, false, &a);
                if (!compare(w2, got, "image-row-handler", s)) return;
                if (seen.size() || k != v.size()) C->fail("image-row-handler", vf::fmt("%zu images of %zu, %s", k, v.size(), seen.c_str()) + s);
            });
        });
    }
    // image dictionaries
    static const vector<Opd> VALUES = { { "1", Val::I(1) }, { "/DCT", Val::N("DCT") }, { "[0 1]", Val::A({ Val::I(0), Val::I(1) }) }, { "true", Val::B(true) }, { "<</K(ID)>>", Val::D({ { "K", Val::S("ID") } }) }, { "[/A85/Fl]", Val::A({ Val::N("A85"), Val::N("Fl") }) }, { "(ID )", Val::S("ID ") }, { "null", Val() }, { "/ID", Val::N("ID") } };
    static const char* KEYS[] = { "W", "BPC", "F", "ID", "EI", "Width" };
    for (int n = 0; n <= 3; n++) vf::sequences(6 * VALUES.size(), n > 2 && !c.thorough ? 0 : n, [&](const vector<unsigned>& v) {
        if (!c.mine()) { c.skip(); return; }
        c.run("image-dictionary", [&] { string s; for (auto x : v) s += string("/") + KEYS[x % 6] + VALUES[x / 6].text; return s; }, [&] {
            C->trace();
            for (auto sep : { "", "\n" })
            {
                string s; Val d = Val::D(); put(s, "BI", sep);
                for (auto x : v) { put(s, string("/") + KEYS[x % 6], sep); put(s, VALUES[x / 6].text, sep); if (VALUES[x / 6].v.k == Null) d.m.erase(KEYS[x % 6]); else d.m[KEYS[x % 6]] = VALUES[x / 6].v; }
                put(s, "ID", sep); s += " data\nEI q"; C->state(s);
                auto got = readSpan(s);
                // a null value may be kept
                if (got.size() && got[0].find("null") != string::npos) { size_t p; while ((p = got[0].find("null")) != string::npos) { size_t q = got[0].rfind('/', p); got[0].erase(q, p + 4 - q); if (got[0][q] == ' ') got[0].erase(q, 1); } Lex l(got[0]); l.p = 6; got[0] = "image " + show(l.value()); }
                if (!compare({ "image " + show(d), "data " + vf::hexs("data"), opEv("q", {}) }, got, "image-dictionary", s)) return;
            }
        });
    });
}
// Form XObjects A, B and C, an image, a missing name; contents are sequences of uses
static const char* USE[] = { "/A Do", "/B Do", "/C Do", "/Im Do", "/No Do", "q" };
static void expand(const vector<vector<unsigned>>& bodies, const vector<unsigned>& body, vector<int>& stack, bool follow, vector<string>& out)
{
    for (unsigned u : body)
    {
        if (u == 5) out.push_back(opEv("q", {}));
        else if (u == 4) out.push_back(opEv("Do", { Val::N("No") }, " invalid-xobject"));
        else if (u == 3) out.push_back("do Im image");
        else if (std::find(stack.begin(), stack.end(), (int)u) != stack.end()) out.push_back(string("do ") + char('A' + u) + " form recursive");
        else { out.push_back(string("do ") + char('A' + u) + " form"); if (follow) { stack.push_back(u); expand(bodies, bodies[u], stack, follow, out); stack.pop_back(); out.push_back("end [ 7 ] many"); } }
    }
}
static void forms(vf::Ctx& c)
{
    vector<vector<unsigned>> B; for (unsigned n = 0; n <= 2; n++) vf::sequences(6, n, [&](const vector<unsigned>& v) { B.push_back(v); });
    size_t N = B.size();
    for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++)
    {
        if (!c.mine()) { c.skip(); continue; }
        c.run("forms", [&] { auto sh = [](const vector<unsigned>& v) { string s; for (auto u : v) s += string(USE[u]) + " "; return s; }; return "forms A: " + sh(B[a]) + "; B: " + sh(B[b]) + "; every C"; }, [&] {
            // every form ends with a number on the stack, which the end of the form reports
            // names of resources in forms lead to the same forms; how they are given alternates
            PageDoc d; std::map<int, PdfObject*> f; auto& im = d.doc.GetObjects().CreateDictionaryObject("XObject"); im.GetDictionary().AddKey("Subtype", PdfName("Image")); im.GetDictionary().AddKey("Width", (int64_t)1); im.GetDictionary().AddKey("Height", (int64_t)1); im.GetOrCreateStream().SetData(string("x"), true);
            for (int i = 0; i < 3; i++) f[i] = &d.doc.GetObjects().CreateDictionaryObject();
            auto res = [&] { PdfDictionary x, r; for (int i = 0; i < 3; i++) x.AddKey(string(1, char('A' + i)), f[i]->GetIndirectReference()); x.AddKey("Im", im.GetIndirectReference()); r.AddKey("XObject", x); return r; };
            for (int i = 0; i < 3; i++) { auto& dict = f[i]->GetDictionary(); if (i != 1) dict.AddKey("Type", PdfName("XObject")); dict.AddKey("Subtype", PdfName("Form")); PdfArray box; for (int k = 0; k < 4; k++) box.Add((int64_t)k); dict.AddKey("BBox", box); if (i == 2) dict.AddKey("Resources", d.doc.GetObjects().CreateObject(PdfVariant(res())).GetIndirectReference()); else dict.AddKey("Resources", res()); }
            d.page->GetDictionary().AddKey("Resources", res());
            auto& cont = d.stream(""); d.page->GetDictionary().AddKey("Contents", cont.GetIndirectReference());
            string file = saved(d.doc); PdfMemDocument re; re.LoadFromBuffer(file);
            auto& page = re.GetPages().GetPageAt(0); auto& objs = re.GetObjects();
            auto text = [&](const vector<unsigned>& v) { string s; for (auto u : v) s += string(USE[u]) + "\n"; return s; };
            auto set = [&](PdfReference r, const string& s) { objs.MustGetObject(r).GetOrCreateStream().SetData(s, true); };
            set(f[0]->GetIndirectReference(), text(B[a]) + "7"); set(f[1]->GetIndirectReference(), text(B[b]) + "7 ");
            for (size_t x = 0; x < N; x++)
            {
                set(f[2]->GetIndirectReference(), text(B[x]) + "7");
                for (auto& pg : { vector<unsigned>{ 0, 5 }, vector<unsigned>{ 1, 0, 2 }, vector<unsigned>{ 2, 2 } })
                {
                    C->trace(); set(cont.GetIndirectReference(), text(pg)); C->state(text(B[a]) + ";" + text(B[b]) + ";" + text(B[x]) + ";" + text(pg));
                    vector<vector<unsigned>> bodies = { B[a], B[b], B[x] };
                    for (int mode = 0; mode < 2; mode++)
                    {
                        vector<string> want; vector<int> st; expand(bodies, pg, st, mode == 0, want);
                        PdfContentReaderArgs args; if (mode) args.Flags = PdfContentReaderFlags::DontFollowXObjectForms;
                        if (!compare(want, readPage(page, x & 1, &args), "forms", text(pg) + "A: " + text(B[a]) + "B: " + text(B[b]) + "C: " + text(B[x]))) return;
                    }
                }
            }
        });
    }
    // inline images, partial operators and whole operators at the end of a form
    static const char* END[] = { "", " ", "q", "q ", "BI /W 1 ID xx\nEI", "BI /W 1 ID xx\nEI ", "1 0", "(a)", "%c" };
    for (auto e1 : END) for (auto e2 : END) c.run("form-end", [&] { return string("form ends ") + e1 + ", page ends " + e2; }, [&] {
        C->trace(); PageDoc d; auto& f = d.stream(e1); f.GetDictionary().AddKey("Type", PdfName("XObject")); f.GetDictionary().AddKey("Subtype", PdfName("Form")); PdfArray box; for (int k = 0; k < 4; k++) box.Add((int64_t)k); f.GetDictionary().AddKey("BBox", box);
        PdfDictionary x, r; x.AddKey("A", f.GetIndirectReference()); r.AddKey("XObject", x); d.page->GetDictionary().AddKey("Resources", r); d.page->GetDictionary().AddKey("Contents", d.st(string("/A Do Q /A Do ") + e2));
        string file = saved(d.doc); PdfMemDocument re; re.LoadFromBuffer(file);
        auto ev = [&](const string& s, bool form) { vector<string> v; if (s[0] == 'q') v.push_back(opEv("q", {})); if (s[0] == 'B') { v.push_back("image " + show(Val::D({ { "W", Val::I(1) } }))); v.push_back("data " + vf::hexs("xx")); } if (form) v.push_back(s[0] == '1' ? "end [ 1 0 ] many" : s[0] == '(' ? "end " + vals({ Val::S("a") }) + " many" : "end [ ]"); return v; };
        vector<string> want; auto add = [&](const vector<string>& v) { for (auto& q : v) want.push_back(q); };
        add({ "do A form" }); add(ev(e1, true)); add({ opEv("Q", {}) }); add({ "do A form" }); add(ev(e1, true)); add(ev(e2, false));
        compare(want, readPage(re.GetPages().GetPageAt(0)), "form-end", e1);
    });
}
// The device that presents a page's contents: their bytes, with a newline between streams
static void device(vf::Ctx& c)
{
    vector<string> L; for (int a = -1; a < 4; a++) for (int b = -1; b < 4; b++) for (int d = -1; d < 3; d++) { string s; for (int n : { a, b, d }) s += n < 0 ? "-" : string(1, char('0' + n)); L.push_back(s); }
    unsigned depth = c.thorough ? 7 : 6;
    for (auto& lay : L) for (unsigned k = depth; k <= depth; k++)
    {
        if (!c.mine()) { c.skip(); continue; }
        c.run("device", [&] { return "contents of lengths " + lay; }, [&] {
            PageDoc d; PdfArray arr; string all; char next = 'a';
            for (char ch : lay) if (ch != '-') { string s; for (int i = 0; i < ch - '0'; i++) s += next++; arr.Add(d.st(s, next & 1)); if (s.size()) { if (all.size()) all += '\n'; all += s; } }
            d.page->GetDictionary().AddKey("Contents", arr);
            string file = saved(d.doc); PdfMemDocument re; re.LoadFromBuffer(file); auto& page = re.GetPages().GetPageAt(0);
            // read one, read two, read three, read twenty, peek
            vf::sequences(5, k, [&](const vector<unsigned>& ops) {
                if (C->failed()) return;
                C->trace(); PdfCanvasInputDevice dev(page); size_t p = 0; string did;
                for (auto o : ops)
                {
                    C->transition(); did += "123x?"[o]; char ch = 0; string got, want;
                    if (o == 4) { bool ok = dev.Peek(ch); if (ok != (p < all.size()) || (ok && ch != all[p])) { C->fail("peek", vf::fmt("%s after %s gives %d %d", lay.c_str(), did.c_str(), ok, ch)); return; } continue; }
                    if (o == 0) { bool ok = dev.Read(ch); if (ok) got += ch; want = all.substr(p, 1); }
                    else { char buf[21]; bool eof = false; size_t n = o == 3 ? 20 : o + 1, r = dev.Read(buf, n, eof); if (r > n) r = n; got.assign(buf, r); want = all.substr(p, n); if (got.size() < n && !eof) { C->fail("device-eof", "short read without end of input in " + lay + " after " + did); return; } }
                    if (got != want) { C->fail("device", "contents " + vf::esc(all) + " after " + did + " gives " + vf::esc(got) + " not " + vf::esc(want)); return; }
                    p += want.size(); C->state(lay + vf::fmt(" %zu %u", p, o));
                }
            });
        });
    }
    // odd contents entries
    for (int k = 0; k < 8; k++) c.run("odd-contents", [&] { return vf::fmt("contents entry %d", k); }, [&] {
        C->trace(); PageDoc d; auto& dict = d.page->GetDictionary();
        switch (k) { case 0: break; case 1: dict.AddKey("Contents", PdfReference(999, 0)); break; case 2: dict.AddKey("Contents", PdfArray()); break; case 3: dict.AddKey("Contents", d.st("")); break; case 4: { PdfArray a; a.Add(PdfReference(999, 0)); dict.AddKey("Contents", a); break; } case 5: dict.AddKey("Contents", PdfDictionary()); break; case 6: dict.AddKey("Contents", d.doc.GetObjects().CreateArrayObject().GetIndirectReference()); break; case 7: dict.AddKey("Contents", d.doc.GetObjects().CreateDictionaryObject().GetIndirectReference()); break; }
        string file = saved(d.doc); PdfMemDocument re; re.LoadFromBuffer(file); string what;
        int err = vf::errorOf([&] { compare({}, readPage(re.GetPages().GetPageAt(0)), "odd-contents", ""); }, &what); if (err != -1) C->fail("odd-contents-error", what);
    });
}
static void explore(vf::Ctx& c) { C = &c; device(c); forms(c); operators(c); images(c); splits(c); lengths(c); }
int main(int argc, char** argv)
{
    vf::Config cfg; cfg.prop = "P27";
    cfg.rule = "every operator with every number of operands and every pair of operators under every separator; every assignment of a content's tokens to streams with every kind of entry between them; every inline image of short data over the bytes of EI and white space with every ending; every graph of three form XObjects with two uses each; every sequence of reads from the device of a page's contents; lengths around buffer sizes; states are contents, transitions are events read";
    cfg.assumptions = { "the white space before EI may be part of the image data", "image data containing EI followed by white space is ambiguous and left out", "resources of a form are its own" };
    return vf::main(argc, argv, cfg, explore);
}
