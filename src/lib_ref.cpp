#include "ref.h"
#include <cmath>
#include <cstring>
#include <set>
#include <zlib.h>
using namespace ref;
using std::string;

string ref::show(const Val& v)
{
    switch (v.k)
    {
        case Null: return "null";
        case Bool: return v.b ? "true" : "false";
        case Int: return std::to_string(v.i);
        case Real: return vf::fmt("%.9gf", v.d);
        case Name: return "/" + vf::esc(v.s);
        case Str: return "(" + vf::esc(v.s) + ")";
        case Ref: return vf::fmt("%lld_%d_R", (long long)v.i, v.g);
        case Arr: { string r = "["; for (auto& x : v.a) r += show(x) + " "; return r + "]"; }
        case Dict: { string r = "<<"; for (auto& x : v.m) r += "/" + vf::esc(x.first) + " " + show(x.second) + " "; return r + ">>"; }
    }
    return "?";
}
bool ref::equal(const Val& a, const Val& b, bool lenient, bool cmpHex)
{
    if (a.k != b.k)
    {
        if (lenient && a.k == Real && b.k == Int)
        {
            double x = a.k == Real ? a.d : (double)a.i, y = b.k == Real ? b.d : (double)b.i;
            return std::fabs(x - y) <= 0.50001e-6 + 1e-15 * std::fabs(x);
        }
        return false;
    }
    switch (a.k)
    {
        case Null: return true;
        case Bool: return a.b == b.b;
        case Int: return a.i == b.i;
        case Real: return a.d == b.d || std::fabs(a.d - b.d) <= 0.50001e-6 + 1e-15 * std::fabs(a.d);
        case Name: return a.s == b.s;
        case Str: return a.s == b.s && (!cmpHex || a.hex == b.hex);
        case Ref: return a.i == b.i && a.g == b.g;
        case Arr:
            if (a.a.size() != b.a.size()) return false;
            for (size_t i = 0; i < a.a.size(); i++) if (!equal(a.a[i], b.a[i], lenient, cmpHex)) return false;
            return true;
        case Dict:
        {
            if (a.m.size() != b.m.size()) return false;
            auto i = a.m.begin(), j = b.m.begin();
            for (; i != a.m.end(); ++i, ++j) if (i->first != j->first || !equal(i->second, j->second, lenient, cmpHex)) return false;
            return true;
        }
    }
    return false;
}

bool ref::isWs(int c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
bool ref::isDelim(int c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '{' || c == '}' || c == '/' || c == '%'; }
static bool isReg(int c) { return !isWs(c) && !isDelim(c); }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

void Lex::ws()
{
    while (p < d.size())
    {
        if (isWs((unsigned char)d[p])) p++;
        else if (d[p] == '%') { while (p < d.size() && d[p] != '\n' && d[p] != '\r') p++; }
        else break;
    }
}
string Lex::keyword()
{
    ws();
    size_t q = p;
    while (p < d.size() && isReg((unsigned char)d[p])) p++;
    return d.substr(q, p - q);
}
bool Lex::tryKeyword(const char* k)
{
    size_t q = p;
    if (keyword() == k) return true;
    p = q;
    return false;
}
Val Lex::number(const string& t)
{
    size_t i = 0; bool neg = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
    size_t digits = 0; bool dot = false; long double v = 0, sc = 1;
    bool over = false; int64_t iv = 0;
    for (; i < t.size(); i++)
    {
        if (t[i] == '.') { if (dot) throw Bad("two dots"); dot = true; continue; }
        if (t[i] < '0' || t[i] > '9') throw Bad("not a number: " + t);
        digits++;
        if (dot) { sc /= 10; v += (t[i] - '0') * sc; }
        else { v = v * 10 + (t[i] - '0'); if (__builtin_mul_overflow(iv, (int64_t)10, &iv) || __builtin_add_overflow(iv, neg ? -(int64_t)(t[i] - '0') : (int64_t)(t[i] - '0'), &iv)) over = true; }
    }
    if (digits == 0) throw Bad("no digits: " + t);
    if (dot || over) return Val::R((double)(neg ? -v : v));
    return Val::I(iv);
}
string Lex::literal()
{
    string r; int depth = 0;
    while (true)
    {
        if (p >= d.size()) throw Bad("unterminated string");
        unsigned char c = d[p++];
        if (c == '(') { depth++; r += '('; }
        else if (c == ')') { if (depth == 0) return r; depth--; r += ')'; }
        else if (c == '\\')
        {
            if (p >= d.size()) throw Bad("unterminated string");
            c = d[p++];
            switch (c)
            {
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case '\r': if (p < d.size() && d[p] == '\n') p++; break;
                case '\n': break;
                default:
                    if (c >= '0' && c <= '7')
                    {
                        int v = c - '0';
                        for (int k = 0; k < 2 && p < d.size() && d[p] >= '0' && d[p] <= '7'; k++) v = v * 8 + (d[p++] - '0');
                        r += (char)(v & 0xFF);
                    }
                    else r += (char)c;
            }
        }
        else r += (char)c;
    }
}
Val Lex::value()
{
    ws();
    if (p >= d.size()) throw Bad("end of input");
    unsigned char c = d[p];
    if (c == '/')
    {
        p++;
        string r;
        while (p < d.size() && isReg((unsigned char)d[p]))
        {
            if (d[p] == '#')
            {
                if (p + 2 >= d.size() + 0 && p + 2 > d.size() - 1) throw Bad("bad name escape");
                int h = hexv((unsigned char)d[p + 1]), l = hexv((unsigned char)d[p + 2]);
                if (h < 0 || l < 0 || (h == 0 && l == 0)) throw Bad("bad name escape");
                r += (char)(h * 16 + l); p += 3;
            }
            else r += d[p++];
        }
        return Val::N(r);
    }
    if (c == '(') { p++; return Val::S(literal()); }
    if (c == '[')
    {
        p++;
        Val v = Val::A();
        while (true)
        {
            ws();
            if (p >= d.size()) throw Bad("unterminated array");
            if (d[p] == ']') { p++; return v; }
            v.a.push_back(value());
        }
    }
    if (c == '<')
    {
        if (p + 1 < d.size() && d[p + 1] == '<')
        {
            p += 2;
            Val v = Val::D();
            while (true)
            {
                ws();
                if (p + 1 < d.size() && d[p] == '>' && d[p + 1] == '>') { p += 2; return v; }
                Val k = value();
                if (k.k != Name) throw Bad("key is not a name");
                Val x = value();
                if (v.m.count(k.s) && strictKeys) throw Bad("duplicate key");
                v.m[k.s] = x;
            }
        }
        p++;
        string r; int hi = -1;
        while (true)
        {
            if (p >= d.size()) throw Bad("unterminated hex string");
            c = d[p++];
            if (c == '>') break;
            if (isWs(c)) continue;
            int h = hexv(c);
            if (h < 0) throw Bad("bad hex digit");
            if (hi < 0) hi = h; else { r += (char)(hi * 16 + h); hi = -1; }
        }
        if (hi >= 0) r += (char)(hi * 16);
        return Val::S(r, true);
    }
    string t = keyword();
    if (t.empty()) throw Bad(vf::fmt("unexpected character %02X", c));
    if (t == "true") return Val::B(true);
    if (t == "false") return Val::B(false);
    if (t == "null") return Val();
    Val v = number(t);
    if (refs && v.k == Int)
    {
        // a reference is two unsigned integers and R
        size_t save = p;
        string t2 = keyword();
        bool dig = !t2.empty();
        for (char x : t2) if (x < '0' || x > '9') dig = false;
        if (dig)
        {
            string t3 = keyword();
            if (t3 == "R")
            {
                if (t[0] == '+' || t[0] == '-' || t.size() > 9 || t2.size() > 5 || std::stol(t2) > 65535) throw Bad("odd reference");
                return Val::Rf(v.i, std::stoi(t2));
            }
        }
        p = save;
    }
    return v;
}

static void writeTo(string& o, const Val& v)
{
    switch (v.k)
    {
        case Null: o += "null"; break;
        case Bool: o += v.b ? "true" : "false"; break;
        case Int: o += std::to_string(v.i); break;
        case Real: o += vf::fmt("%.6f", v.d); break;
        case Name:
            o += '/';
            for (unsigned char c : v.s) if (isReg(c) && c > 32 && c < 127 && c != '#') o += (char)c; else o += vf::fmt("#%02X", c);
            break;
        case Str:
            if (v.hex) { o += '<' + vf::hexs(v.s) + '>'; break; }
            o += '(';
            for (unsigned char c : v.s)
                if (c == '(' || c == ')' || c == '\\') { o += '\\'; o += (char)c; }
                else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else o += (char)c;
            o += ')';
            break;
        case Ref: o += vf::fmt("%lld %d R", (long long)v.i, v.g); break;
        case Arr: { o += '['; bool f = true; for (auto& x : v.a) { if (!f) o += ' '; f = false; writeTo(o, x); } o += ']'; break; }
        case Dict: o += "<<"; for (auto& x : v.m) { writeTo(o, Val::N(x.first)); o += ' '; writeTo(o, x.second); o += ' '; } o += ">>"; break;
    }
}
string ref::write(const Val& v) { string s; writeTo(s, v); return s; }

string ref::inflate(const string& s, bool* ok)
{
    z_stream z; memset(&z, 0, sizeof z);
    inflateInit(&z);
    z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
    string r; char buf[65536]; int rc = Z_OK;
    while (rc == Z_OK) { z.next_out = (Bytef*)buf; z.avail_out = sizeof buf; rc = ::inflate(&z, Z_NO_FLUSH); r.append(buf, sizeof buf - z.avail_out); if (rc == Z_BUF_ERROR) break; }
    inflateEnd(&z);
    if (ok) *ok = rc == Z_STREAM_END;
    return r;
}
string ref::deflate(const string& s, int level)
{
    uLongf n = compressBound(s.size());
    string r(n, 0);
    compress2((Bytef*)r.data(), &n, (const Bytef*)s.data(), s.size(), level);
    r.resize(n);
    return r;
}

const Val* File::resolve(const Val* v) const
{
    for (int i = 0; v && v->k == Ref && i < 32; i++) { auto it = objs.find(v->i); if (it == objs.end() || it->second.g != v->g) return nullptr; v = &it->second.v; }
    return v;
}
static string unpredict(const string& in, const Val* parms)
{
    int64_t pr = parms ? parms->num("Predictor", 1) : 1;
    if (pr < 2) return in;
    int64_t cols = parms->num("Columns", 1), colors = parms->num("Colors", 1), bpc = parms->num("BitsPerComponent", 8);
    if (pr == 2) throw Bad("TIFF predictor unsupported here");
    size_t row = (cols * colors * bpc + 7) / 8, bpp = std::max<int64_t>(1, colors * bpc / 8);
    string out; std::vector<unsigned char> prev(row, 0), cur(row);
    for (size_t p = 0; p < in.size(); p += row + 1)
    {
        unsigned char t = in[p];
        for (size_t i = 0; i < row && p + 1 + i < in.size(); i++)
        {
            int x = (unsigned char)in[p + 1 + i], a = i >= bpp ? cur[i - bpp] : 0, b = prev[i], c = i >= bpp ? prev[i - bpp] : 0;
            int q = a + b - c, pa = abs(q - a), pb = abs(q - b), pc = abs(q - c);
            int add = t == 0 ? 0 : t == 1 ? a : t == 2 ? b : t == 3 ? (a + b) / 2 : (pa <= pb && pa <= pc ? a : pb <= pc ? b : c);
            cur[i] = x + add;
        }
        out.append((char*)cur.data(), row);
        prev = cur;
    }
    return out;
}
string File::decoded(const Obj& o)
{
    const Val* f = resolve(o.v.get("Filter"));
    const Val* dp = resolve(o.v.get("DecodeParms"));
    if (!f || f->k == Null) return o.raw;
    std::vector<Val> fs, ps;
    if (f->k == Arr) fs = f->a; else fs = { *f };
    if (dp) { if (dp->k == Arr) ps = dp->a; else ps = { *dp }; }
    string r = o.raw;
    for (size_t i = 0; i < fs.size(); i++)
    {
        if (fs[i].s != "FlateDecode") throw Bad("filter " + fs[i].s);
        bool ok; r = ref::inflate(r, &ok);
        if (!ok) throw Bad("bad flate data");
        r = unpredict(r, i < ps.size() ? resolve(&ps[i]) : nullptr);
    }
    return r;
}

// Object "n g obj ... endobj" at off. lengthOf resolves an indirect Length.
static bool parseObj(File& f, size_t off, int64_t& n, int& g, Obj& o, size_t* end, const std::function<int64_t(const Val&)>& lengthOf, string& err)
{
    try
    {
        Lex l(f.bytes, off);
        if (off >= f.bytes.size()) throw Bad("offset past the end");
        if (!isdigit((unsigned char)f.bytes[off])) throw Bad("no object number at the offset");
        Lex ln(f.bytes, off, false);
        Val a = ln.value(), b = ln.value();
        if (a.k != Int || b.k != Int || !ln.tryKeyword("obj")) throw Bad("no 'n g obj' at the offset");
        n = a.i; g = (int)b.i;
        l.p = ln.p;
        l.ws();
        size_t q = l.p;
        if (l.tryKeyword("endobj")) { o.v = Val(); if (end) *end = l.p; return true; }
        l.p = q;
        o.v = l.value();
        o.g = g; o.off = off;
        q = l.p;
        string k = l.keyword();
        if (k == "stream")
        {
            if (o.v.k != Dict) throw Bad("stream without dictionary");
            size_t p = l.p;
            if (f.bytes.compare(p, 2, "\r\n") == 0) p += 2; else if (f.bytes.compare(p, 1, "\n") == 0) p++; else throw Bad("no line end after stream keyword");
            const Val* L = o.v.get("Length");
            if (!L) throw Bad("no Length");
            int64_t len = L->k == Int ? L->i : L->k == Ref ? lengthOf(*L) : -1;
            if (len < 0 || p + len > f.bytes.size()) throw Bad(vf::fmt("bad Length %lld", (long long)len));
            o.stream = true;
            o.raw = f.bytes.substr(p, len);
            p += len;
            if (f.bytes.compare(p, 2, "\r\n") == 0) p += 2; else if (f.bytes.compare(p, 1, "\n") == 0 || f.bytes.compare(p, 1, "\r") == 0) p++;
            if (f.bytes.compare(p, 9, "endstream") != 0) throw Bad("stream Length does not end at endstream");
            l.p = p + 9;
            k = l.keyword();
        }
        if (k != "endobj") throw Bad("no endobj but '" + k + "'");
        if (end) *end = l.p;
        return true;
    }
    catch (const Bad& e) { err = e.what(); return false; }
}

File ref::readFile(const string& bytes, Options opt)
{
    File f; f.bytes = bytes;
    if (bytes.compare(0, 7, "%PDF-1.") != 0 && bytes.compare(0, 7, "%PDF-2.") != 0) f.problem("no %PDF header at offset 0");
    else f.header = bytes.substr(5, 3);
    size_t sx = bytes.rfind("startxref");
    if (sx == string::npos) { f.problem("no startxref"); return f; }
    size_t e = bytes.rfind("%%EOF");
    if (e == string::npos || e < sx) f.problem("no %%EOF after startxref");
    else { string tail = bytes.substr(e + 5); for (char c : tail) if (!isWs((unsigned char)c)) f.problem("bytes after %%EOF"); }
    size_t off;
    try { Lex l(bytes, sx + 9, false); Val v = l.value(); if (v.k != Int) throw Bad("startxref is no integer"); off = v.i; }
    catch (const Bad& x) { f.problem(string("startxref: ") + x.what()); return f; }
    std::set<size_t> seen;
    bool first = true;
    int64_t topSize = -1;
    std::vector<std::map<int64_t, XEnt>> sections;
    auto noLen = [](const Val&) { return (int64_t)-1; };
    while (true)
    {
        if (!seen.insert(off).second) { f.problem("cyclic Prev"); break; }
        f.sections.push_back(off);
        std::map<int64_t, XEnt> ents; Val tr; bool ok = true;
        if (bytes.compare(off, 4, "xref") == 0)
        {
            try
            {
                Lex l(bytes, off + 4, false);
                while (true)
                {
                    l.ws();
                    size_t q = l.p;
                    if (l.tryKeyword("trailer")) break;
                    l.p = q;
                    Val s = l.value(), c = l.value();
                    if (s.k != Int || c.k != Int || s.i < 0 || c.i < 0) throw Bad("bad subsection header");
                    // entries: exactly 20 bytes each
                    while (l.p < bytes.size() && (bytes[l.p] == ' ')) l.p++;
                    if (bytes.compare(l.p, 2, "\r\n") == 0) l.p += 2; else if (bytes[l.p] == '\n' || bytes[l.p] == '\r') l.p++; else throw Bad("no line end after subsection header");
                    for (int64_t i = 0; i < c.i; i++)
                    {
                        string en = bytes.substr(l.p, 20);
                        if (en.size() != 20) throw Bad("short entry");
                        for (int k = 0; k < 10; k++) if (!isdigit((unsigned char)en[k])) throw Bad("bad entry '" + vf::esc(en) + "'");
                        for (int k = 11; k < 16; k++) if (!isdigit((unsigned char)en[k])) throw Bad("bad entry '" + vf::esc(en) + "'");
                        if (en[10] != ' ' || en[16] != ' ' || (en[17] != 'n' && en[17] != 'f')) throw Bad("bad entry '" + vf::esc(en) + "'");
                        string eol = en.substr(18);
                        if (eol != " \n" && eol != " \r" && eol != "\r\n") throw Bad("bad entry end");
                        XEnt x{ en[17], std::stoull(en.substr(0, 10)), std::stoi(en.substr(11, 5)) };
                        if (ents.count(s.i + i)) throw Bad("object listed twice in one section");
                        ents[s.i + i] = x;
                        l.p += 20;
                    }
                }
                l.refs = true;
                tr = l.value();
                if (tr.k != Dict) throw Bad("trailer is no dictionary");
            }
            catch (const Bad& x) { f.problem(vf::fmt("xref at %zu: ", off) + x.what()); ok = false; }
        }
        else
        {
            int64_t n; int g; Obj o; string err;
            if (!parseObj(f, off, n, g, o, nullptr, noLen, err)) { f.problem(vf::fmt("startxref/Prev %zu points at no cross-reference section: ", off) + err); ok = false; }
            else
            {
                if (first) f.xrefStream = true;
                try
                {
                    tr = o.v;
                    if (!o.stream || !tr.get("Type") || tr.get("Type")->s != "XRef") throw Bad("no XRef stream");
                    string data = f.decoded(o);
                    const Val* W = tr.get("W");
                    if (!W || W->k != Arr || W->a.size() != 3) throw Bad("bad W");
                    size_t w[3], tot = 0; for (int k = 0; k < 3; k++) { w[k] = W->a[k].i; tot += w[k]; }
                    std::vector<int64_t> idx;
                    if (auto I = tr.get("Index")) { for (auto& x : I->a) idx.push_back(x.i); } else idx = { 0, tr.num("Size", 0) };
                    size_t p = 0;
                    for (size_t k = 0; k + 1 < idx.size(); k += 2)
                        for (int64_t i = 0; i < idx[k + 1]; i++)
                        {
                            if (p + tot > data.size()) throw Bad("xref stream data too short");
                            uint64_t v[3] = { 1, 0, 0 };
                            for (int c = 0; c < 3; c++) { if (w[c]) v[c] = 0; for (size_t b = 0; b < w[c]; b++) v[c] = v[c] << 8 | (unsigned char)data[p++]; }
                            if (v[0] > 2) throw Bad("bad entry type");
                            if (ents.count(idx[k] + i)) throw Bad("object listed twice in one section");
                            ents[idx[k] + i] = XEnt{ "fnc"[v[0]], v[1], (int)v[2] };
                        }
                    if (p != data.size()) throw Bad("xref stream data too long");
                    auto self = ents.find(n);
                    if (self == ents.end() || self->second.t != 'n' || self->second.off != off) f.problem("xref stream is not listed with its own offset");
                }
                catch (const Bad& x) { f.problem(vf::fmt("xref stream at %zu: ", off) + x.what()); ok = false; }
            }
        }
        if (!ok) break;
        int64_t size = tr.num("Size", -1);
        if (first) { f.trailer = tr; topSize = size; }
        for (auto& en : ents) if (en.first >= size) f.problem(vf::fmt("entry %lld not below Size %lld", (long long)en.first, (long long)size));
        sections.push_back(ents);
        for (auto& en : ents) f.xref.insert(en);
        first = false;
        auto pv = tr.get("Prev");
        if (!pv) break;
        if (pv->k != Int) { f.problem("Prev is no integer"); break; }
        off = pv->i;
    }
    if (!f.xref.count(0)) f.problem("no entry 0");
    else if (f.xref[0].t != 'f' || f.xref[0].g != 65535) f.problem("entry 0 is not free with generation 65535");
    if (opt.checkSizes && !f.xref.empty() && topSize != f.xref.rbegin()->first + 1) f.problem(vf::fmt("Size %lld but highest object number %lld", (long long)topSize, (long long)f.xref.rbegin()->first));
    // entries not below the newest Size are ignored by readers
    for (auto& en : f.xref) if (en.second.t != 'f' && topSize >= 0 && en.first >= topSize) { f.problem(vf::fmt("the newest Size %lld hides object %lld", (long long)topSize, (long long)en.first)); break; }
    f.encrypted = f.trailer.get("Encrypt") != nullptr;
    // in-use objects
    std::function<int64_t(const Val&)> lengthOf = [&](const Val& r) -> int64_t {
        auto it = f.xref.find(r.i);
        if (it == f.xref.end() || it->second.t != 'n') return -1;
        int64_t n; int g; Obj o; string err;
        if (!parseObj(f, it->second.off, n, g, o, nullptr, noLen, err) || n != r.i || o.v.k != Int) return -1;
        return o.v.i;
    };
    for (auto& en : f.xref)
    {
        if (en.second.t != 'n') continue;
        int64_t n; int g; Obj o; string err;
        if (!parseObj(f, en.second.off, n, g, o, nullptr, lengthOf, err)) { f.problem(vf::fmt("object %lld at %llu: %s", (long long)en.first, (unsigned long long)en.second.off, err.c_str())); continue; }
        if (n != en.first || g != en.second.g) f.problem(vf::fmt("entry %lld %d points at object %lld %d", (long long)en.first, en.second.g, (long long)n, g));
        o.off = en.second.off;
        f.objs[n] = o;
    }
    for (auto& en : f.xref)
    {
        if (en.second.t != 'c' || f.encrypted) continue;
        auto it = f.objs.find(en.second.off);
        try
        {
            if (it == f.objs.end() || !it->second.stream) throw Bad("container missing");
            string data = f.decoded(it->second);
            int64_t N = it->second.v.num("N", -1), F = it->second.v.num("First", -1);
            if (en.second.g >= N) throw Bad("index past N");
            Lex l(data, 0, false);
            int64_t on = -1, oo = -1;
            for (int i = 0; i <= en.second.g; i++) { on = l.value().i; oo = l.value().i; }
            if (on != en.first) throw Bad("index points at another object");
            Lex lv(data, F + oo);
            Obj o; o.v = lv.value(); o.compressed = true; o.container = en.second.off;
            f.objs[en.first] = o;
        }
        catch (const Bad& x) { f.problem(vf::fmt("compressed object %lld: ", (long long)en.first) + x.what()); }
    }
    // free list
    if (opt.checkFreeList && f.xref.count(0))
    {
        std::set<int64_t> visited; int64_t cur = 0;
        do
        {
            if (!visited.insert(cur).second) { f.problem("free list loops without passing 0"); break; }
            auto it = f.xref.find(cur);
            if (it == f.xref.end() || it->second.t != 'f') { f.problem(vf::fmt("free list reaches %lld, which is not a free entry", (long long)cur)); break; }
            cur = (int64_t)it->second.off;
        } while (cur != 0);
        // A free entry may also be left out of the list when it refers to object 0 (ISO 32000-1, 7.5.4)
        for (auto& en : f.xref) if (en.second.t == 'f' && !visited.count(en.first) && en.second.off != 0) f.problem(vf::fmt("free entry %lld is not in the free list", (long long)en.first));
    }
    return f;
}

void Builder::rawObj(int64_t n, const string& body, int g) { offs[n] = { out.size(), g }; out += vf::fmt("%lld %d obj\n", (long long)n, g) + body + "\nendobj\n"; }
void Builder::obj(int64_t n, const Val& v, int g) { rawObj(n, write(v), g); }
void Builder::stream(int64_t n, Val d, const string& data, int g, bool setLength)
{
    if (setLength) d.m["Length"] = Val::I(data.size());
    rawObj(n, write(d) + "\nstream\n" + data + "\nendstream", g);
}
size_t Builder::xrefTable(const Val& trailer, const std::map<int64_t, XEnt>& ents)
{
    size_t at = out.size();
    out += "xref\n";
    for (auto it = ents.begin(); it != ents.end();)
    {
        auto j = it; int64_t c = 0;
        while (j != ents.end() && j->first == it->first + c) { ++j; ++c; }
        out += vf::fmt("%lld %lld\n", (long long)it->first, (long long)c);
        for (; it != j; ++it) out += vf::fmt("%010llu %05d %c \n", (unsigned long long)it->second.off, it->second.g, it->second.t);
    }
    out += "trailer\n" + write(trailer) + "\n";
    return at;
}
size_t Builder::xrefTableAuto(Val trailer, bool)
{
    std::map<int64_t, XEnt> e;
    e[0] = { 'f', 0, 65535 };
    for (auto& o : offs) e[o.first] = { 'n', o.second.first, o.second.second };
    if (!trailer.m.count("Size")) trailer.m["Size"] = Val::I(e.rbegin()->first + 1);
    return xrefTable(trailer, e);
}
size_t Builder::xrefStream(int64_t n, Val d, const std::map<int64_t, XEnt>& ents0)
{
    auto ents = ents0;
    size_t at = out.size();
    ents[n] = { 'n', at, 0 };
    string data; Val idx = Val::A();
    for (auto it = ents.begin(); it != ents.end();)
    {
        auto j = it; int64_t c = 0;
        while (j != ents.end() && j->first == it->first + c) { ++j; ++c; }
        idx.a.push_back(Val::I(it->first)); idx.a.push_back(Val::I(c));
        for (; it != j; ++it)
        {
            data += (char)(it->second.t == 'f' ? 0 : it->second.t == 'n' ? 1 : 2);
            for (int s = 24; s >= 0; s -= 8) data += (char)(it->second.off >> s);
            data += (char)(it->second.g >> 8); data += (char)it->second.g;
        }
    }
    d.m["Type"] = Val::N("XRef");
    d.m["W"] = Val::A({ Val::I(1), Val::I(4), Val::I(2) });
    d.m["Index"] = idx;
    if (!d.m.count("Size")) d.m["Size"] = Val::I(ents.rbegin()->first + 1);
    stream(n, d, data);
    return at;
}
string ref::simpleDoc(int pages)
{
    Builder b;
    b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } }));
    Val kids = Val::A();
    for (int i = 0; i < pages; i++) kids.a.push_back(Val::Rf(3 + i));
    b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(pages) }, { "Kids", kids } }));
    for (int i = 0; i < pages; i++)
        b.obj(3 + i, Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(2) }, { "Resources", Val::D() }, { "MediaBox", Val::A({ Val::I(0), Val::I(0), Val::I(100 + i), Val::I(200) }) } }));
    size_t x = b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } }));
    b.startxref(x);
    return b.out;
}

// --- border --------------------------------------------------------------
using namespace mm;
PdfVariant ref::toVariant(const Val& v)
{
    switch (v.k)
    {
        case Null: return PdfVariant();
        case Bool: return PdfVariant(v.b);
        case Int: return PdfVariant((int64_t)v.i);
        case Real: return PdfVariant(v.d);
        case Name: return PdfVariant(PdfName::FromRaw(v.s));
        case Str: return PdfVariant(PdfString::FromRaw(v.s, v.hex));
        case Ref: return PdfVariant(PdfReference((uint32_t)v.i, (uint16_t)v.g));
        case Arr: { PdfArray a; for (auto& x : v.a) a.Add(toObject(x)); return PdfVariant(std::move(a)); }
        case Dict: { PdfDictionary d; for (auto& x : v.m) d.AddKey(PdfName::FromRaw(x.first), toObject(x.second)); return PdfVariant(std::move(d)); }
    }
    return PdfVariant();
}
PdfObject ref::toObject(const Val& v) { return PdfObject(toVariant(v)); }
string ref::strBytes(const PdfString& s)
{
    if (s.GetState() == PdfStringState::RawBuffer) return s.GetRawData();
    return "T:" + s.GetString();
}
Val ref::fromVariant(const PdfVariant& v)
{
    switch (v.GetDataType())
    {
        case PdfDataType::Null: return Val();
        case PdfDataType::Bool: return Val::B(v.GetBool());
        case PdfDataType::Number: return Val::I(v.GetNumber());
        case PdfDataType::Real: return Val::R(v.GetRealStrict());
        case PdfDataType::Name: return Val::N(v.GetName().GetRawData());
        case PdfDataType::String: { auto& s = v.GetString(); return Val::S(strBytes(s), s.IsHex()); }
        case PdfDataType::Reference: { auto r = v.GetReference(); return Val::Rf(r.ObjectNumber(), r.GenerationNumber()); }
        case PdfDataType::Array: { Val x = Val::A(); for (auto& o : v.GetArray()) x.a.push_back(fromVariant(o.GetVariant())); return x; }
        case PdfDataType::Dictionary: { Val x = Val::D(); for (auto& p : v.GetDictionary()) x.m[p.first.GetRawData()] = fromVariant(p.second.GetVariant()); return x; }
        default: throw std::runtime_error("unexpected data type");
    }
}
