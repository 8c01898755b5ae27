// P02: the tokenizer against an independent reader of PDF syntax on all short inputs.
#include "ref.h"
using namespace ref;
using namespace mm;
using std::string; using std::string_view;
static vf::Ctx* C;

static void oneCase(const string& in)
{
    // what the specification says
    std::vector<Val> want; bool good = true;
    try { Lex l(in); while (!l.eof()) want.push_back(l.value()); } catch (const Bad&) { good = false; }
    std::vector<Val> got; int rc; string what;
    PdfTokenizer tok;
    SpanStreamDevice dev(in);
    rc = vf::errorOf([&] {
        PdfVariant v;
        while (tok.TryReadNextVariant(dev, v)) { got.push_back(fromVariant(v)); if (got.size() > in.size() + 2) throw std::runtime_error("more values than bytes"); }
        string_view tk;
        if (good && tok.TryReadNextToken(dev, tk)) throw std::runtime_error("stopped before '" + string(tk) + "'");
    }, &what);
    C->count(good ? "valid" : "invalid");
    if (rc == -2 && !good) { C->fail("foreign-error", "malformed input '" + vf::esc(in) + "': " + what); return; }
    if (!good) { C->outcome(vf::hash("bad" + std::to_string(rc))); return; }
    string w; for (auto& v : want) w += show(v) + " ";
    C->state(w); C->trace(); C->transition(want.size());
    if (rc != -1) { C->fail("valid-rejected", "'" + vf::esc(in) + "' should read as " + w + "but gives error " + std::to_string(rc) + " " + what); return; }
    bool eq = got.size() == want.size();
    for (size_t i = 0; eq && i < got.size(); i++) eq = equal(want[i], got[i], true, true) && (want[i].k == got[i].k);
    if (!eq) { string g; for (auto& v : got) g += show(v) + " "; C->fail("wrong-values", "'" + vf::esc(in) + "' should read as " + w + "but reads as " + g); }
}

static void explore(vf::Ctx& c)
{
    C = &c;
    // One explored case is one input; cases are grouped in blocks to keep bookkeeping cheap
    auto go = [&](const char* tag, const string& s) { c.run(tag, [&] { return vf::esc(s); }, [&] { oneCase(s); }); };
    bool T = c.thorough;
    vf::strings(string("()\\0178nr\n\rx"), 0, T ? 6 : 5, [&](const string& s) { go("string", "(" + s + ")"); });
    vf::strings(string("#20FAa(/ %\n\xFF"), 0, T ? 6 : 5, [&](const string& s) { go("name", "/" + s); });
    vf::strings(string("09aFfA \n\t"), 0, T ? 7 : 5, [&](const string& s) { go("hex", "<" + s + ">"); });
    vf::strings(string("01-+.R 9\n"), 0, T ? 7 : 6, [&](const string& s) { go("number", s); });
    vf::words({ "1", "-2", "R", "[", "]", "<<", ">>", "/A", "(x)", "<41>", " ", "%c\n", "null", "true", "1.5", "/" }, 0, T ? 6 : 5, [&](const string& s) { go("mixed", s); });
    vf::strings(string("%\r\n1 /(c]"), 0, T ? 7 : 6, [&](const string& s) { go("comment", "[1" + s); });
    vf::strings(string("%\r\n\0\t\f1/a", 9), 0, T ? 6 : 5, [&](const string& s) { go("comment2", s); });
    vf::words({ "1 ", "0 ", "R ", "[", "]", "<</K ", ">>", "/B", "(y)", "2 0 R", "65535 " }, 1, T ? 7 : 6, [&](const string& s) { go("refs", s); });
    for (int a = 0; a < 256; a++)
    {
        string b(1, (char)a);
        for (auto ctx : { std::make_pair("(", ")"), { "/", "" }, { "/a", "b" }, { "1", "2" }, { "1 ", " 2" }, { "/A", "/B" }, { "%", "\n1" }, { "(\\", ")" }, { "[", "]" }, { "(a)", "(b)" }, { "<41>", "<42>" }, { "1", "0 R" }, { "true", "false" }, { "(\\1", ")" }, { "(\\12", ")" }, { "((", "))" }, { "[1 2", "3]" } })
            go("byte", ctx.first + b + ctx.second);
        for (int d = 0; d < 256; d++) { go("byte2", string("(") + b + (char)d + ")"); if (T) { go("byte2", string("/") + b + (char)d); go("byte2", string("(\\") + b + (char)d + ")"); go("byte2", string("[/A") + b + (char)d + "1]"); } }
        for (const char* h = "0123456789abcdefABCDEF"; *h; h++) { go("namehex", string("/x#") + *h + b + "y"); go("hexbyte", string("<") + *h + b + ">"); }
        // all octal escapes
        go("octal", vf::fmt("(\\%03o)", a)); go("octal", vf::fmt("(\\%03o7)", a)); if (a < 64) go("octal", vf::fmt("(\\%oz)", a));
        go("octal", vf::fmt("(a\\%o(b)c)", a)); go("octal", vf::fmt("((\\%o))", a)); go("octal", vf::fmt("(\\%o\\%o)", a, 255 - a));
    }
    for (int a = 256; a < 512; a++) go("octal", vf::fmt("(\\%03o)", a));
    // names decoding every escape
    for (int a = 1; a < 256; a++) { go("nameesc", vf::fmt("/#%02X", a)); go("nameesc", vf::fmt("/A#%02xB", a)); }
    // signature Contents, the one key the reader treats specially
    for (auto t : { "", "/Type/Sig", "/Type/DocTimeStamp", "/Type/X", "/Type 5" })
        for (auto v : { "<41>", "<4 1 4>", "(A)", "<>", "[<41>]", "5 0 R", "<</X<41>>>" })
            for (int o = 0; o < 3; o++)
                go("contents", o == 0 ? string("<<") + t + "/Contents" + v + "/Z 1>>" : o == 1 ? string("<</Contents ") + v + t + ">>" : string("[<</A/Contents/Contents") + v + t + ">>(y)]");
    // tokens around the internal buffer size
    for (int n : { 4093, 4094, 4095, 4096, 4097, 8190, 8192 })
    {
        go("long", "(" + string(n, 'a') + ")/B"); go("long", "<" + string(n, '4') + "> 7"); go("long", "%" + string(n, 'c') + "\n7"); go("long", string(n, ' ') + "7"); go("long", "[" + string(n, ' ') + "7]");
        go("long", "1 " + string(n, ' ') + "0" + string(n, '\n') + "R"); go("long", "1" + string("%") + string(n, 'c') + "\n0 R");
    }
    for (int n : { 126, 127, 200, 1000, 4000 }) go("long", "/" + string(n, 'n') + " 7");
    // big numbers
    for (auto s : { "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "-99999999999999999999", "0000000000000000000000001", "+17", "+0", "-0", "+1.5", "-.002", "4.", ".5", "+.5", "34.5", "-3.62", "123.6e", "0.0", "00012", "-00012", "+00.5" }) { go("num", s); go("num", string("[") + s + " " + s + "]"); go("num", string("<</A ") + s + "/B " + s + ">>"); }
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P02";
    cfg.rule = "every input over the stated alphabets up to the stated length is read; a state is a distinct value list, a transition a value read; inputs the specification calls malformed are only required not to fail in a foreign way";
    cfg.assumptions = { "A raw carriage return inside a literal string is kept as it is (the library's documented reading), not normalised to a line feed", "Duplicate dictionary keys, names with #00 and references with signs are outside the syntax" };
    return vf::main(argc, argv, cfg, explore);
}
