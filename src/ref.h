// Independent reference side: a plain value type, a PDF syntax reader and writer
// written from the PDF specification, and a strict PDF file reader. Nothing here
// uses the library, except toVariant/fromVariant, which cross the border.
#pragma once
#include "vf.h"
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
enum Kind { Null, Bool, Int, Real, Name, Str, Arr, Dict, Ref };
struct Val
{
    Kind k = Null;
    bool b = false;
    int64_t i = 0;          // Int; object number of Ref
    int g = 0;              // generation of Ref
    double d = 0;
    std::string s;          // Name, Str bytes
    bool hex = false;
    std::vector<Val> a;
    std::map<std::string, Val> m;

    Val() {}
    static Val B(bool v) { Val x; x.k = Bool; x.b = v; return x; }
    static Val I(int64_t v) { Val x; x.k = Int; x.i = v; return x; }
    static Val R(double v) { Val x; x.k = Real; x.d = v; return x; }
    static Val N(const std::string& v) { Val x; x.k = Name; x.s = v; return x; }
    static Val S(const std::string& v, bool hex = false) { Val x; x.k = Str; x.s = v; x.hex = hex; return x; }
    static Val A(std::vector<Val> v = {}) { Val x; x.k = Arr; x.a = std::move(v); return x; }
    static Val D(std::map<std::string, Val> v = {}) { Val x; x.k = Dict; x.m = std::move(v); return x; }
    static Val Rf(int64_t n, int g = 0) { Val x; x.k = Ref; x.i = n; x.g = g; return x; }
    const Val* get(const std::string& key) const { if (k != Dict) return nullptr; auto it = m.find(key); return it == m.end() ? nullptr : &it->second; }
    int64_t num(const std::string& key, int64_t def) const { auto v = get(key); return v && v->k == Int ? v->i : def; }
};
std::string show(const Val& v);                    // canonical text (hex flag not shown)
// Equal; reals within eps, an integer may stand for a real of the same value
// when lenient is set (that is how a real without fraction is written).
bool equal(const Val& a, const Val& b, bool lenient = true, bool cmpHex = false);

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

bool isWs(int c);
bool isDelim(int c);
struct Lex
{
    const std::string& d; size_t p; bool refs;
    bool strictKeys = true;
    Lex(const std::string& data, size_t pos = 0, bool r = true) : d(data), p(pos), refs(r) {}
    void ws();
    bool eof() { ws(); return p >= d.size(); }
    Val value();                  // throws Bad
    std::string keyword();        // regular characters, after whitespace
    bool tryKeyword(const char* k);
private:
    Val number(const std::string& tok);
    std::string literal();
};

std::string write(const Val& v);  // plain syntax, "1 0 R" style, spaces between tokens

// A strict reader of whole files; errors are appended to problems.
struct Obj { Val v; bool stream = false; std::string raw; int g = 0; size_t off = 0; bool compressed = false; int64_t container = 0; };
struct XEnt { char t; uint64_t off; int g; };      // t: 'n' in use, 'f' free, 'c' compressed (off=container, g=index)
struct File
{
    std::string bytes, header;
    std::map<int64_t, XEnt> xref;                  // merged, newest first
    std::map<int64_t, Obj> objs;                   // in-use objects
    Val trailer;
    std::vector<size_t> sections;                  // newest first
    std::vector<std::string> problems;
    bool xrefStream = false;
    bool encrypted = false;
    void problem(const std::string& s) { if (problems.size() < 20) problems.push_back(s); }
    const Val* resolve(const Val* v) const;
    std::string decoded(const Obj& o);             // Flate/none with predictors
};
struct Options { bool checkFreeList = true; bool checkSizes = true; };
File readFile(const std::string& bytes, Options o = {});
std::string inflate(const std::string& s, bool* ok = nullptr);
std::string deflate(const std::string& s, int level = 6);

// Writer of complete test files with exact offsets.
struct Builder
{
    std::string out;
    std::map<int64_t, std::pair<size_t, int>> offs;
    explicit Builder(const std::string& header = "%PDF-1.7\n%\xE2\xE3\xCF\xD3\n") : out(header) {}
    void obj(int64_t n, const Val& v, int g = 0);
    void stream(int64_t n, Val dict, const std::string& data, int g = 0, bool setLength = true);
    void rawObj(int64_t n, const std::string& body, int g = 0);
    size_t xrefTable(const Val& trailer, const std::map<int64_t, XEnt>& ents);         // "xref".. "trailer" dict; returns offset
    size_t xrefTableAuto(Val trailer, bool full = true);                                // all offs so far, entry 0 free
    size_t xrefStream(int64_t n, Val trailer, const std::map<int64_t, XEnt>& ents);     // W [1 4 2]
    void startxref(size_t off) { out += vf::fmt("startxref\n%zu\n%%%%EOF\n", off); }
};
// A document with catalog 1, pages 2 and n pages from number 3 on.
std::string simpleDoc(int pages = 1);

// Border to the library
mm::PdfObject toObject(const Val& v);
mm::PdfVariant toVariant(const Val& v);
Val fromVariant(const mm::PdfVariant& v);
inline Val fromObject(const mm::PdfObject& o) { return fromVariant(o.GetVariant()); }
// Text string of s must not have been evaluated, or the canonical "text" is used
std::string strBytes(const mm::PdfString& s);
}
namespace ref {
// Document structures walked strictly (lib_tree.cpp). Violations throw Bad.
std::vector<int64_t> pageNumbers(const File& f);               // object numbers of the pages in order
Val inherited(const File& f, int64_t page, const char* key);   // the value at the page or its nearest ancestor; Null if none
std::string outlineTree(const File& f);                        // "title(child child) title", all links checked; "" if there are none
}
