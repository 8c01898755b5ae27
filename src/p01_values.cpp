// P01: values written in any mode parse back equal; enumerates values to depth 2
// (3 in places) over boundary scalars, all bytes in names and strings, all modes.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string; using std::string_view;

static const PdfWriteFlags Modes[] = { PdfWriteFlags::None, PdfWriteFlags::Clean, PdfWriteFlags::Clean | PdfWriteFlags::NoInlineLiteral, PdfWriteFlags::NoInlineLiteral };

static string writeLib(const PdfVariant& v, PdfWriteFlags f)
{
    string s; charbuff buf;
    StringStreamDevice dev(s);
    v.Write(dev, f, PdfStatefulEncrypt(), buf);
    return s;
}
static vf::Ctx* C;
static PdfTokenizer* Tok;

static void oneCase(const Val& v)
{
    PdfVariant lv = toVariant(v);
    bool container = v.k == Arr || v.k == Dict;
    for (int mi = 0; mi < 4; mi++)
    {
        if (mi == 3 && container) continue;      // that flag alone is for scalars only
        string t = writeLib(lv, Modes[mi]);
        // the reference reader of PDF syntax must agree on the text
        Lex l(t);
        try
        {
            Val r = l.value();
            if (!equal(v, r, true, true)) C->fail("written-text-wrong", "mode " + std::to_string(mi) + " wrote '" + vf::esc(t) + "', which spells " + show(r));
            if (!l.eof()) C->fail("written-text-trailing", "mode " + std::to_string(mi) + " wrote '" + vf::esc(t) + "' with trailing bytes");
        }
        catch (const Bad& e) { C->fail("written-text-invalid", "mode " + std::to_string(mi) + " wrote '" + vf::esc(t) + "': " + e.what()); }
        // contexts: what precedes and follows the text in real files
        static const char* after[] = { "", "\nendobj", " 7 8", "/K", "]", " (x)", " 1 0 R", "%c\n<<>>" };
        bool delim = container || v.k == Str;
        for (auto a : after)
        {
            string full = t + ((a[0] == '%' || a[0] == ']') && !delim ? " " : "") + a;
            Tok->~PdfTokenizer(); new (Tok) PdfTokenizer();
            SpanStreamDevice dev(full);
            PdfVariant got;
            string what;
            int rc = vf::errorOf([&] { Tok->ReadNextVariant(dev, got); }, &what);
            if (rc != -1) { C->fail("does-not-parse", "mode " + std::to_string(mi) + " text '" + vf::esc(full) + "' gives error " + std::to_string(rc) + " " + what); continue; }
            Val g = fromVariant(got);
            if (!equal(v, g, true, true)) { C->fail("value-changed", "mode " + std::to_string(mi) + " text '" + vf::esc(full) + "' parses as " + show(g) + " instead of " + show(v)); continue; }
            // the rest must still be there
            string_view tk; string_view want = a;
            string expect = string(a) == "" ? "" : string(a) == "\nendobj" ? "endobj" : string(a) == " 7 8" ? "7" : string(a) == "/K" ? "/" : string(a) == "]" ? "]" : string(a) == " (x)" ? "(" : string(a) == " 1 0 R" ? "1" : "<<";
            bool more = Tok->TryReadNextToken(dev, tk);
            if (more != !expect.empty() || (more && tk != expect)) C->fail("consumed-beyond", "mode " + std::to_string(mi) + " text '" + vf::esc(full) + "': next token '" + vf::esc(more ? tk : "<eof>") + "' expected '" + expect + "'");
        }
        C->transition();
        C->outcome(vf::hash(t));
        // writing is deterministic and does not change the value
        if (writeLib(lv, Modes[mi]) != t) C->fail("write-not-repeatable", "second write differs for " + show(v));
    }
    C->state(show(v)); C->trace();
}

static std::vector<Val> scalars(bool big)
{
    std::vector<Val> s = { Val(), Val::B(true), Val::B(false), Val::I(0), Val::I(-1), Val::I(10), Val::R(0.5), Val::R(-1.25), Val::R(3.0), Val::N("A"), Val::N(""), Val::N("a b#"), Val::S("x"), Val::S(""), Val::S("a(b)\\\r\n"), Val::S("\xFE\xFF", true), Val::S("", true), Val::Rf(1, 0), Val::Rf(12, 65535) };
    if (big)
        for (Val v : { Val::I(INT64_MAX), Val::I(INT64_MIN), Val::I(65536), Val::R(1e-6), Val::R(-0.0), Val::R(123456789.123456), Val::N("Type"), Val::N("Contents"), Val::N("1"), Val::N("null"), Val::S("\\"), Val::S("((("), Val::S("\\("), Val::S("\0001", true), Val::Rf(0, 0), Val::Rf(8388607, 1) }) s.push_back(v);
    return s;
}

static void explore(vf::Ctx& c)
{
    C = &c;
    alignas(PdfTokenizer) static char mem[sizeof(PdfTokenizer)];
    Tok = new (mem) PdfTokenizer();
    auto go = [&](const char* tag, const Val& v) { c.run(tag, [&] { return show(v); }, [&] { oneCase(v); }); };

    for (auto& v : scalars(true)) go("scalar", v);
    // integers around digit and width boundaries
    for (int b = 0; b < 63; b++) for (int64_t d = -1; d <= 1; d++) for (int sg : { 1, -1 }) go("int", Val::I(sg * ((int64_t)1 << b) + d));
    for (int64_t p = 1; p < 1000000000000000000LL; p *= 10) for (int64_t d : { -1, 0, 1 }) { go("int", Val::I(p + d)); go("int", Val::I(-p + d)); }
    // reals: all m*10^e with two digit mantissas, plus rounding borders
    for (int e = -8; e <= 22; e++) for (int m = -99; m <= 99; m++) go("real", Val::R(m * std::pow(10.0, e)));
    for (int i = -2200; i <= 2200; i++) { go("real", Val::R(i * 0.0000005)); go("real", Val::R(i + 0.9999995)); go("real", Val::R(i / 7.0)); go("real", Val::R(i * 1000.0 + 1.0 / 3)); }
    // every byte, and every pair of bytes, in names and both string forms
    for (int b = 0; b < 256; b++) { if (b) go("name1", Val::N(string(1, (char)b))); for (bool h : { false, true }) go("str1", Val::S(string(1, (char)b), h)); }
    string special = string("\0\t\n\f\r ()<>[]{}/%#\\019aAfF~}|\x7F\x80\xFE\xFF", 31);
    for (int a = 0; a < 256; a++)
        for (int b = 0; b < 256; b++)
        {
            string s{ (char)a, (char)b };
            if (!c.thorough && special.find((char)a) == string::npos && special.find((char)b) == string::npos) continue;
            if (a && b) go("name2", Val::N(s));
            go("str2", Val::S(s));
            if (b % 16 == 0 || c.thorough) go("hex2", Val::S(s, true));
        }
    vf::strings("()\\\r\n01", 3, c.thorough ? 6 : 5, [&](const string& s) { go("str-n", Val::S(s)); });
    vf::strings("#2A/ a\xFF", 3, c.thorough ? 5 : 4, [&](const string& s) { go("name-n", Val::N(s)); });
    // long ones around the tokenizer's buffer
    for (size_t n : { 126u, 127u, 128u, 4090u, 4094u, 4095u, 4096u, 4097u, 8191u, 8192u, 8193u, 70000u })
    {
        go("long-str", Val::S(string(n, 'x'))); go("long-str", Val::S(string(n, '('))); go("long-str", Val::S(string(n, '\xE9'), true)); go("long-str", Val::S(string(n, '\\')));
        if (n <= 128) { go("long-name", Val::N(string(n, 'n'))); go("long-name", Val::N(string(n, ' '))); }
        std::vector<Val> many; for (size_t i = 0; i < std::min<size_t>(n, 4096); i++) many.push_back(i % 3 ? Val::I(i) : Val::Rf(i + 1, 0));
        go("long-arr", Val::A(many));
    }
    // nesting
    auto S = scalars(false), SB = scalars(true);
    std::vector<Val> one;
    for (auto& v : SB) { one.push_back(Val::A({ v })); one.push_back(Val::D({ { "K", v } })); }
    one.push_back(Val::A()); one.push_back(Val::D());
    for (auto& v : one) go("depth1", v);
    std::vector<Val> pool = SB; pool.insert(pool.end(), one.begin(), one.end());
    for (auto& x : pool) for (auto& y : pool)
    {
        go("pair", Val::A({ x, y }));
        go("pair", Val::D({ { "A", x }, { "B", y } }));
    }
    for (auto& x : pool) for (const char* k : { "", "Type", "Contents", "1", "a b", "\xE9", "Length", "null" })
    {
        go("key", Val::D({ { k, x }, { "Z", Val::I(1) } }));
        go("key", Val::D({ { k, x }, { "Type", Val::N("Sig") } }));
    }
    for (auto& x : S) for (auto& y : S) for (auto& z : S) { go("triple", Val::A({ x, y, z })); if (c.thorough) go("triple", Val::D({ { "", x }, { "B", y }, { "C", z } })); }
    if (c.thorough) for (auto& x : S) for (auto& y : S) for (auto& z : S) for (auto& w : S) go("quad", Val::A({ x, y, z, w }));
    // arrays of n integers across the line-break interval of pretty printing
    for (int n = 0; n <= 45; n++) { Val a = Val::A(); for (int i = 0; i < n; i++) a.a.push_back(Val::I(i)); go("wide", a); Val d = Val::D(); for (int i = 0; i < n; i++) d.m[vf::fmt("K%d", i)] = a; go("wide", d); }
    // deep nesting
    for (int n : { 5, 20, 100 }) { Val a = Val::I(7); for (int i = 0; i < n; i++) a = i % 2 ? Val::A({ a }) : Val::D({ { "D", a } }); go("deep", a); }
}

int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P01"; cfg.level = "model_checking";
    cfg.rule = "a state is a distinct value written; a transition is one write in one mode parsed back in every following context; all values of the stated shapes are enumerated";
    return vf::main(argc, argv, cfg, explore);
}
