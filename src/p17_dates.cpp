// P17: dates. Every day of years 0..9999, every second of a day and every whole
// minute offset against an independent calendar; the date grammars against an
// independent recogniser over all short strings and all edits of valid ones.
#include "ref.h"
#include <pdfmm/base/PdfDate.h>
using namespace mm; using std::string; using std::string_view;
static vf::Ctx* C;
static const int64_t DAY0 = -719528;   // 0000-01-01 in days from 1970-01-01
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int monthLen(int y, int m) { static const int L[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : L[m - 1]; }
static int64_t dayOf(int y, int m, int d)
{
    static std::vector<int64_t> yearStart; if (yearStart.empty()) { int64_t x = DAY0; for (int i = 0; i <= 9999; i++) { yearStart.push_back(x); x += leap(i) ? 366 : 365; } }
    int64_t r = yearStart[y]; for (int i = 1; i < m; i++) r += monthLen(y, i); return r + d - 1;
}
struct Cal { int y = 0, m = 1, d = 1; void next() { if (++d > monthLen(y, m)) { d = 1; if (++m > 12) { m = 1; y++; } } } };
const int NONE = 99999;
static void put(char*& p, int v, int w) { for (int i = w - 1; i >= 0; i--) { p[i] = '0' + v % 10; v /= 10; } p += w; }
static string text(const Cal& c, int sec, int off, bool w3c)
{
    char b[64]; char* p = b; auto ch = [&](char x) { *p++ = x; };
    if (!w3c) { ch('D'); ch(':'); }
    put(p, c.y, 4); if (w3c) ch('-'); put(p, c.m, 2); if (w3c) ch('-'); put(p, c.d, 2); if (w3c) ch('T');
    put(p, sec / 3600, 2); if (w3c) ch(':'); put(p, sec / 60 % 60, 2); if (w3c) ch(':'); put(p, sec % 60, 2);
    if (off == 0) ch('Z');
    else if (off != NONE) { ch(off > 0 ? '+' : '-'); int a = abs(off); put(p, a / 60, 2); ch(w3c ? ':' : '\''); put(p, a % 60, 2); if (!w3c) ch('\''); }
    return string(b, p);
}
// the moment shown as this local time with this offset
static bool moment(const Cal& c, int64_t day, int sec, int off)
{
    int64_t t = day * 86400 + sec - (off == NONE ? 0 : off * 60);
    nullable<std::chrono::minutes> o; if (off != NONE) o = std::chrono::minutes(off);
    PdfDate d{ std::chrono::seconds(t), o };
    for (bool w : { false, true })
    {
        string got = w ? d.ToStringW3C().GetString() : d.ToString().GetString(), want = text(c, sec, off, w);
        bool same = got == want || (off == 0 && got == want.substr(0, want.size() - 1) + (w ? "+00:00" : "+00'00'")) || (!w && off != NONE && off != 0 && got + "'" == want);
        if (!same) { C->fail(w ? "w3c-text" : "text", got + " instead of " + want); return false; }
        PdfDate r;
        if (!(w ? PdfDate::TryParseW3C(got, r) : PdfDate::TryParse(got, r))) { C->fail(w ? "w3c-read" : "read", "cannot read " + got); return false; }
        if (!(r == d) || r != d || r.GetSecondsFromEpoch().count() != t || r.GetMinutesFromUtc().has_value() != (off != NONE) || (off != NONE && r.GetMinutesFromUtc()->count() != off))
        { C->fail(w ? "w3c-round" : "round", got + vf::fmt(" is read as second %lld, not %lld", (long long)r.GetSecondsFromEpoch().count(), (long long)t)); return false; }
    }
    C->transition(); return true;
}
// The grammars. -1 reject, 0 not judged, 1 accept
struct Rd { int v = -1; int64_t t = 0; bool zone = false; int off = 0; };
static bool zoneC(char c) { return c == '+' || c == '-' || c == 'Z'; }
static int num(string_view s, size_t& p, int w, int& v) { int n = 0; v = 0; while (n < w && p < s.size() && s[p] >= '0' && s[p] <= '9') { v = v * 10 + (s[p++] - '0'); n++; } return n; }
static void zone(string_view s, size_t p, char sep, bool w3c, Rd& r, bool& lenient, bool& bad)
{
    char c = s[p++]; r.zone = true; int hh = 0, mm = 0, n;
    auto done = [&] { if (c == 'Z' && (hh || mm)) bad = true; r.off = (c == '-' ? -1 : 1) * (hh * 60 + mm); };
    if (p == s.size()) { if (c != 'Z') lenient = true; done(); return; }
    if (w3c && c == 'Z') lenient = true;
    n = num(s, p, 2, hh); if (n == 0 || hh > 23) { bad = true; return; } if (n < 2) lenient = true;
    if (p == s.size()) { lenient = true; done(); return; }
    if (s[p++] != sep) { bad = true; return; }
    if (p == s.size()) { lenient = true; done(); return; }
    n = num(s, p, 2, mm); if (n == 0 || mm > 59) { bad = true; return; } if (n < 2) lenient = true;
    if (p < s.size() && !w3c && s[p] == '\'') p++;
    if (p != s.size()) { bad = true; return; }
    done();
}
static Rd recognise(string_view s, bool w3c)
{
    Rd r; size_t p = 0; bool lenient = false, bad = false;
    if (!w3c && s.size() && s[0] == 'D') { if (s.size() < 2 || s[1] != ':') return r; p = 2; }
    int f[6] = { 0, 1, 1, 0, 0, 0 }; static const int lo[] = { 0, 1, 1, 0, 0, 0 }, hi[] = { 9999, 12, 31, 23, 59, 59 }; static const char* sep = "--T::";
    int i = 0; bool hasZone = false;
    for (; i < 6; i++)
    {
        if (i > 0)
        {
            if (p == s.size()) break;
            if (!w3c) { if (zoneC(s[p])) { hasZone = true; break; } }
            else
            {
                if (i == 5 && zoneC(s[p])) { hasZone = true; break; }
                if (s[p] != sep[i - 1]) return r;
                p++;
            }
        }
        int v, w = i ? 2 : 4, n = num(s, p, w, v);
        if (n == 0) return r;
        if (n < w) lenient = true; else if (v < lo[i] || v > hi[i]) return r;
        f[i] = v;
    }
    if (w3c && i == 4) lenient = true;     // hour alone
    if (w3c && i == 6 && p < s.size() && s[p] == '.') { p++; size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == q) return r; }
    if (!hasZone && p < s.size()) { if (i == 6 && zoneC(s[p])) hasZone = true; else return r; }
    if (hasZone) zone(s, p, w3c ? ':' : '\'', w3c, r, lenient, bad);
    if (bad) return r;
    if (lenient) { r.v = 0; return r; }
    if (f[2] > monthLen(f[0], f[1])) return r;
    r.v = 1; r.t = dayOf(f[0], f[1], f[2]) * 86400 + f[3] * 3600 + f[4] * 60 + f[5] - r.off * 60;
    return r;
}
static bool judge(string_view s, bool w3c)
{
    Rd w = recognise(s, w3c);
    PdfDate d{ std::chrono::seconds(77), { } };
    bool ok = w3c ? PdfDate::TryParseW3C(s, d) : PdfDate::TryParse(s, d);
    C->transition();
    auto what = [&] { return string(w3c ? "W3C " : "") + "\"" + vf::esc(s) + "\""; };
    if (w.v == 0) return true;
    if (ok != (w.v == 1)) { C->fail(w3c ? "w3c-grammar" : "grammar", what() + (ok ? " is accepted" : " is rejected")); return false; }
    if (!ok) { if (!(d == PdfDate())) { C->fail("failed-value", what() + " leaves a date"); return false; } return true; }
    if (d.GetSecondsFromEpoch().count() != w.t || d.GetMinutesFromUtc().has_value() != w.zone || (w.zone && d.GetMinutesFromUtc()->count() != w.off))
    { C->fail(w3c ? "w3c-value" : "value", what() + vf::fmt(" is read as second %lld offset %d, not %lld offset %d", (long long)d.GetSecondsFromEpoch().count(), d.GetMinutesFromUtc().has_value() ? (int)d.GetMinutesFromUtc()->count() : -9999, (long long)w.t, w.zone ? w.off : -9999)); return false; }
    if (vf::errorOf([&] { if (!((w3c ? PdfDate::ParseW3C(s) : PdfDate::Parse(s)) == d)) C->fail("parse", what() + ": Parse and TryParse differ"); }) != -1) { C->fail("parse", what() + ": Parse fails"); return false; }
    return !C->failed();
}
static void explore(vf::Ctx& c)
{
    C = &c;
    const std::vector<int> offs{ NONE, 0, 1, -1, 30, -30, 59, -59, 60, -60, 61, -61, 330, -210, 599, 600, -599, -600, 840, -720, 1439, -1439 };
    // every day; a case is a year
    for (int y = 0; y <= 9999; y++)
        c.run("days", [&] { return vf::fmt("year %d", y); }, [&] {
            Cal k; k.y = y; int64_t day = dayOf(y, 1, 1); unsigned i = 0;
            for (int q = leap(y) ? 366 : 365; q; q--, k.next(), day++, i++)
            {
                C->state(vf::hash(string_view((const char*)&day, 8)));
                if (c.thorough) { for (int o : offs) for (int s : { 0, 43200, 86399 }) if (!moment(k, day, s, o)) return; }
                else { if (!moment(k, day, 0, NONE) || !moment(k, day, 86399, 0)) return; int o = offs[2 + i % (offs.size() - 2)]; if (!moment(k, day, i % 2 ? 0 : 86399, o)) return; }
            }
            c.trace();
        });
    // every second of some days, and every offset
    for (auto [y, m, d] : std::vector<std::tuple<int, int, int>>{ { 1970, 1, 1 }, { 2000, 2, 29 }, { 1999, 12, 31 }, { 1900, 3, 1 }, { 9999, 12, 31 }, { 0, 1, 1 } })
        for (int h = 0; h < 24; h++)
            c.run("seconds", [&] { return vf::fmt("%d-%d-%d hour %d", y, m, d, h); }, [&] {
                Cal k; k.y = y; k.m = m; k.d = d; int64_t day = dayOf(y, m, d);
                for (int s = h * 3600; s < h * 3600 + 3600; s++) for (int o : { NONE, 0, 90, -601 }) if (!moment(k, day, s, o)) return;
                for (int o = -1439; o <= 1439; o++) for (int s : { h * 3600, h * 3600 + 59, h * 3600 + 1800, h * 3600 + 3599 }) if (!moment(k, day, s, o)) return;
                c.trace();
            });
    // every value of every field
    const std::vector<string> zones{ "", "Z", "Z00'00'", "Z00'00", "+00'00'", "-00'00'", "+01'00'", "-08'30", "+23'59'", "+24'00'", "-00'60'", "Z01'00'", "Z00'01'", "+1", "+", "+01", "+01'", "+0100", "+01'0", "+01''", "x", " ", "+01'00'x", "+01'00''", "-99'00'", "ZZ", "+01:00", "--01'00'" };
    const string base = "20200229235958";
    for (int f = 0; f < 6; f++) for (int len = f + 1; len <= 6; len++)
        c.run("fields", [&] { return vf::fmt("field %d of %d", f, len); }, [&] {
            for (int v = 0; v < (f ? 100 : 10000); v++)
                for (size_t z = 0; z < (f ? zones.size() : 4); z++) for (bool D : { true, false }) for (const char* b : { base.c_str(), "19000228000000", "20231130120000" })
                {
                    string s(b, 2 + len * 2); string vv = vf::fmt(f ? "%02d" : "%04d", v); s.replace(f ? 2 + f * 2 : 0, vv.size(), vv);
                    if (!judge((D ? "D:" : "") + s + zones[z], false)) return;
                }
            c.trace();
        });
    const string wbase = "2020-02-29T23:59:58";
    const std::vector<string> wz{ "", "Z", "+00:00", "-00:00", "+01:00", "-08:30", "+23:59", "+24:00", "+00:60", "Z01:00", "Z00:00", ".5", ".25Z", ".123456789+02:00", ".", ".Z", "x", "+0100", "+01", "+01:", "+01:0", "+01:00x", " Z", "z", "ZZ" };
    for (int f = 0; f < 6; f++) for (int len = f + 1; len <= 6; len++)
        c.run("fields", [&] { return vf::fmt("W3C field %d of %d", f, len); }, [&] {
            for (int v = 0; v < (f ? 100 : 10000); v++) for (size_t z = 0; z < wz.size(); z++) for (const char* b : { wbase.c_str(), "1900-02-28T00:00:00" })
            {
                string s(b, len == 1 ? 4 : 4 + 3 * (len - 1)); string vv = vf::fmt(f ? "%02d" : "%04d", v); s.replace(f ? 2 + f * 3 : 0, vv.size(), vv);
                if (!judge(s + wz[z], true)) return;
            }
            c.trace();
        });
    // every zone
    for (int h = 0; h < 100; h++)
        c.run("zones", [&] { return vf::fmt("zone hour %d", h); }, [&] {
            for (int m = 0; m < 100; m++) for (char sg : { '+', '-', 'Z' }) for (int len : { 4, 6, 8, 10, 12, 14 })
            {
                string z = vf::fmt("%c%02d'%02d", sg, h, m), s = "D:" + base.substr(0, len) + z;
                if (!judge(s, false) || !judge(s + "'", false) || !judge(s + "''", false)) return;
                if (len >= 12) { string w = wbase.substr(0, len == 12 ? 16 : 19) + vf::fmt("%c%02d:%02d", sg, h, m); if (!judge(w, true) || !judge(w + ":", true)) return; }
            }
            c.trace();
        });
    // all edits of valid strings
    string alpha = "0129D:+-Z'T. "; alpha += '\0'; alpha += 'a';
    const std::vector<string> seeds{ "D:20200229235958+01'30'", "D:20200229235958Z", "19991231", "D:2012-08'00'", "D:201212312359" };
    const std::vector<string> wseeds{ "2020-02-29T23:59:58+01:30", "1999-12-31", "2020-02-29T23:59Z", "2020-02-29T23:59:58.25-08:00", "2012" };
    auto edits = [&](const string& s, const std::function<void(const string&)>& f) {
        for (size_t i = 0; i <= s.size(); i++)
        {
            f(s.substr(0, i));
            if (i < s.size()) { string t = s; t.erase(i, 1); f(t); }
            for (char ch : alpha) { string t = s; t.insert(i, 1, ch); f(t); if (i < s.size()) { t = s; t[i] = ch; f(t); } }
        }
    };
    for (bool w : { false, true }) for (auto& s : w ? wseeds : seeds) edits(s, [&](const string& t) {
        if (!c.mine()) { c.skip(); return; }
        c.run("edits", [&] { return vf::fmt("edits of %s%s", w ? "W3C " : "", vf::esc(t).c_str()); }, [&] {
            if (!judge(t, w)) return;
            bool ok = true;
            edits(t, [&](const string& u) { if (ok) ok = judge(u, w); });
            if (ok && c.thorough) edits(t, [&](const string& u) { if (ok && u.size() < 14) edits(u, [&](const string& x) { if (ok) ok = judge(x, w); }); });
            c.trace();
        });
    });
    // all short strings, given as views into a longer text too
    string a2 = "D:012379+-Z'T";
    for (int n = 0; n <= (c.thorough ? 7 : 6); n++) vf::strings(a2, std::min(n, 3), std::min(n, 3), [&](const string& t) {
        if (!c.mine()) { c.skip(); return; }
        c.run("short", [&] { return vf::fmt("strings of length %d from %s", n, vf::esc(t).c_str()); }, [&] {
            vf::strings(a2, n - (int)t.size(), n - (int)t.size(), [&](const string& u) {
                if (c.failed()) return;
                string s = t + u, l = s + "0101Z"; 
                if (!judge(s, false) || !judge(s, true)) return;
                judge(string_view(l.data(), s.size()), false) && judge(string_view(l.data(), s.size()), true);
            });
            c.trace();
        });
    });
    for (bool w : { false, true }) for (auto& s : w ? wseeds : seeds) for (size_t n = 0; n <= s.size(); n++)
        c.run("views", [&] { return vf::fmt("%zu bytes of %s", n, s.c_str()); }, [&] { for (char t : string("0Z'+-:9")) { string l = s.substr(0, n) + t + t; judge(string_view(l.data(), n), w); } judge(string_view(s.data(), n), w); });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P17";
    cfg.rule = "every day of the years 0 to 9999, every second of a day, every whole minute offset, written and read; every field and zone value, all strings up to a length and all one- and two-character edits of valid dates against an independent recogniser; a state is a day, a transition one conversion";
    cfg.assumptions = { "forms the library additionally tolerates (single digit fields, a sign without hours, missing minutes) are not judged" };
    return vf::main(argc, argv, cfg, explore);
}
