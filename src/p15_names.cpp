// P15: name trees against sorted maps, with splits forced by a small balance
// limit (the PDFMM_VERIF hook) and with the real one, in memory, in the file
// (walked independently) and after reloading.
#include "ref.h"
#include <algorithm>
#include <memory>
#include <pdfmm/base/PdfMemDocument.h>
#include <pdfmm/base/PdfNameTree.h>
#include <pdfmm/base/PdfDictionary.h>
#include <pdfmm/base/PdfDestination.h>
#include <pdfmm/base/PdfFileSpec.h>
#include <pdfmm/base/PdfMemoryObjectStream.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm; using namespace ref; using std::string;
namespace mm { extern unsigned VerifBalanceTreeMax; }
static vf::Ctx* C;
static const unsigned REALMAX = VerifBalanceTreeMax;

// A walk of the tree in the file: key bytes to value, all rules checked
static void walkNames(const File& f, const Val& node, bool root, std::vector<std::pair<string, Val>>& out, int depth)
{
    if (depth > 50) throw Bad("name tree too deep");
    auto kids = node.get("Kids"), names = node.get("Names"), lim = node.get("Limits");
    auto k = kids ? f.resolve(kids) : nullptr, n = names ? f.resolve(names) : nullptr, l = lim ? f.resolve(lim) : nullptr;
    if (k && n) throw Bad("node has both Kids and Names");
    if (root ? l != nullptr : !l) throw Bad(root ? "the root has limits" : "a node has no limits");
    size_t n0 = out.size();
    if (n)
    {
        if (n->k != Arr || n->a.size() % 2) throw Bad("Names is " + show(*n));
        for (size_t i = 0; i < n->a.size(); i += 2) { auto s = f.resolve(&n->a[i]); if (!s || s->k != Str) throw Bad("key is no string"); out.push_back({ s->s, n->a[i + 1] }); }
    }
    if (k)
    {
        if (k->k != Arr) throw Bad("Kids is no array");
        for (auto& kid : k->a) { if (kid.k != Ref) throw Bad("kid is no reference"); auto v = f.resolve(&kid); if (!v || v->k != Dict) throw Bad("kid is no dictionary"); walkNames(f, *v, false, out, depth + 1); }
    }
    if (l)
    {
        if (l->k != Arr || l->a.size() != 2) throw Bad("Limits is " + show(*l));
        if (out.size() == n0) throw Bad("empty node below the root");
        auto a = f.resolve(&l->a[0]), b = f.resolve(&l->a[1]);
        if (!a || !b || a->k != Str || b->k != Str || a->s != out[n0].first || b->s != out.back().first)
            throw Bad("Limits are " + show(*l) + " over (" + vf::esc(out[n0].first) + ") to (" + vf::esc(out.back().first) + ")");
    }
}
static std::vector<std::pair<string, Val>> nameTree(const File& f, const char* which)
{
    std::vector<std::pair<string, Val>> out;
    auto cat = f.resolve(f.trailer.get("Root")); auto names = cat && cat->get("Names") ? f.resolve(cat->get("Names")) : nullptr;
    auto root = names && names->get(which) ? f.resolve(names->get(which)) : nullptr;
    if (!root) return out;
    walkNames(f, *root, true, out, 0);
    for (size_t i = 1; i < out.size(); i++) if (out[i - 1].first >= out[i].first) throw Bad("keys are not sorted: (" + vf::esc(out[i - 1].first) + ") before (" + vf::esc(out[i].first) + ")");
    return out;
}
// keys: text given to the library and bytes expected in the file
struct Key { string text, bytes; };
static Key ascii(unsigned i) { auto s = vf::fmt("k%05u", i); return { s, s }; }
// Shapes: "3" a node with three names, "(3 2)" a node with two kids, "-" root without anything, "[]" empty Names
struct Doc { string bytes; std::map<string, int> vals; unsigned keys = 0; };
static Doc docWith(const string& spec, int how)
{
    Doc d; Builder b("%PDF-1.5\n"); int64_t next = 10; size_t p = 0; unsigned key = 0; std::map<int64_t, Val> o;
    std::function<Val(bool, string&, string&)> node = [&](bool root, string& lo, string& hi) {
        Val v = Val::D();
        auto arr = [&](Val a) { if (how == 0) return a; auto n = next++; o[n] = a; return Val::Rf(n); };
        if (spec[p] == '-') { p++; return v; }
        if (spec[p] == '(')
        {
            p++; std::vector<Val> kids; bool first = true;
            while (spec[p] != ')') { if (spec[p] == ' ') p++; string l, h; auto n = next++; Val kv = node(false, l, h); o[n] = kv; kids.push_back(Val::Rf(n)); if (first) lo = l; first = false; hi = h; }
            p++; v.m["Kids"] = arr(Val::A(kids));
        }
        else
        {
            int n = atoi(spec.c_str() + p); while (isdigit((unsigned char)spec[p])) p++;
            std::vector<Val> ns;
            for (int i = 0; i < n; i++) { key += 2; auto k = ascii(key); if (!i) lo = k.bytes; hi = k.bytes; if (how == 1) { auto kn = next++; o[kn] = Val::S(k.bytes); ns.push_back(Val::Rf(kn)); } else ns.push_back(Val::S(k.bytes)); ns.push_back(Val::I(1000 + key)); d.vals[k.bytes] = 1000 + key; }
            v.m["Names"] = arr(Val::A(ns));
        }
        if (!root) v.m["Limits"] = arr(Val::A({ Val::S(lo), Val::S(hi) }));
        return v;
    };
    string l, h; Val r = node(true, l, h); Val nm = Val::D();
    if (how == 2) nm.m["Dests"] = r; else { o[5] = r; nm.m["Dests"] = Val::Rf(5); }
    Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } });
    if (how == 2) cat.m["Names"] = nm; else { o[4] = nm; cat.m["Names"] = Val::Rf(4); }
    b.obj(1, cat); b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A({ Val::Rf(3) }) }, { "Count", Val::I(1) } }));
    b.obj(3, Val::D({ { "Type", Val::N("Page") }, { "Parent", Val::Rf(2) }, { "MediaBox", Val::A({ Val::I(0), Val::I(0), Val::I(9), Val::I(9) }) } }));
    for (auto& x : o) b.obj(x.first, x.second);
    b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } })));
    d.bytes = b.out; d.keys = key; return d;
}
struct Env
{
    std::unique_ptr<PdfMemDocument> doc; string bytes; std::vector<std::unique_ptr<string>> keep; std::map<string, int> want; std::map<string, string> text; int n = 1; bool canUpdate = false;
};
static void load(Env& e, const string& b) { e.bytes = b; e.keep.emplace_back(new string(b)); e.doc.reset(new PdfMemDocument()); e.doc->LoadFromBuffer(*e.keep.back()); e.canUpdate = true; }
static string saveDoc(PdfMemDocument& d) { charbuff out; BufferStreamDevice dev(out); d.Save(dev); return string(out); }
static string update(Env& e) { charbuff out(e.bytes); BufferStreamDevice dev(out); dev.Seek(out.size()); e.doc->SaveUpdate(dev); return string(out); }
static void add(Env& e, const Key& k)
{
    int v = e.n++; auto& t = e.doc->GetOrCreateNameTree();
    if (v % 2) t.AddValue("Dests", PdfString(k.text), PdfObject((int64_t)v));
    else { auto& o = e.doc->GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("V", PdfObject((int64_t)v)); t.AddValue("Dests", PdfString(k.text), o.GetIndirectReference()); }
    e.want[k.bytes] = v; e.text[k.bytes] = k.text;
}
static int valueOf(const PdfObject* o) { if (!o) return -1; if (o->IsDictionary()) { auto v = o->GetDictionary().FindKey("V"); return v && v->IsNumber() ? (int)v->GetNumber() : -2; } return o->IsNumber() ? (int)o->GetNumber() : -3; }
static bool lookups(Env& e, const std::vector<Key>& keys, const char* when)
{
    auto t = e.doc->GetNames();
    for (auto& k : keys)
    {
        auto it = e.want.find(k.bytes); int want = it == e.want.end() ? -1 : it->second;
        int got = t ? valueOf(t->GetValue("Dests", PdfString(k.text))) : -1;
        if (got != want) { C->fail("lookup", vf::fmt("%s: (%s) gives %d, not %d", when, vf::esc(k.text).c_str(), got, want)); return false; }
        if (t && t->HasValue("Dests", PdfString(k.text)) != (want != -1)) { C->fail("has", string(when) + ": HasValue of " + k.text); return false; }
    }
    return true;
}
static bool fileTree(Env& e, const string& b, const char* when)
{
    File f = readFile(b); if (f.problems.size()) { C->fail("file", string(when) + ": " + f.problems[0]); return false; }
    try
    {
        auto got = nameTree(f, "Dests");
        bool ok = got.size() == e.want.size(); size_t i = 0; string g, w;
        for (auto& x : e.want)
        {
            if (i >= got.size()) break;
            auto v = f.resolve(&got[i].second); int64_t n = v && v->k == Dict ? v->num("V", -2) : v && v->k == Int ? v->i : -3;
            if (got[i].first != x.first || n != x.second) { ok = false; g = vf::fmt("(%s) %lld", vf::esc(got[i].first).c_str(), (long long)n); w = vf::fmt("(%s) %d", vf::esc(x.first).c_str(), x.second); break; }
            i++;
        }
        if (!ok) { C->fail("file-tree", vf::fmt("%s: the tree in the file has %zu keys of %zu; entry %zu is %s, not %s", when, got.size(), e.want.size(), i, g.c_str(), w.c_str())); return false; }
    }
    catch (const Bad& x) { C->fail("file-rules", string(when) + ": " + x.what()); return false; }
    return true;
}
static bool dictView(Env& e, const char* when)
{
    PdfDictionary d; d.AddKey("Old", PdfObject((int64_t)1));
    if (!e.doc->GetNames()) return true;
    e.doc->GetNames()->ToDictionary("Dests", d);
    std::map<string, int> got;
    for (auto& p : d) { auto o = &p.second; if (o->IsReference()) o = e.doc->GetObjects().GetObject(o->GetReference()); got[p.first.GetString()] = valueOf(o); }
    std::map<string, int> want; for (auto& x : e.want) want[e.text.count(x.first) ? e.text[x.first] : x.first] = x.second;
    if (got != want) { C->fail("dictionary", vf::fmt("%s: ToDictionary gives %zu of %zu entries", when, got.size(), want.size())); return false; }
    return true;
}
enum { Reload = -1, Update = -2 };
static void history(unsigned M, const string& start, int how, const std::vector<int>& ops, const std::vector<Key>& keys, bool every, bool dict)
{
    VerifBalanceTreeMax = M;
    Env e;
    if (start == "new") e.doc.reset(new PdfMemDocument());
    else { auto d = docWith(start, how); e.want = d.vals; load(e, d.bytes); }
    std::vector<Key> all; for (unsigned i = 0; i < std::min<size_t>(keys.size(), 1500); i++) all.push_back(keys[i]); for (auto& x : e.want) if (x.first >= "k01500") all.push_back({ x.first, x.first });
    if (!lookups(e, all, "at the start")) return;
    e.n = 1;
    for (int o : ops)
    {
        if (o == Reload) load(e, saveDoc(*e.doc));
        else if (o == Update) { if (e.canUpdate) { string b = update(e); if (b.compare(0, e.bytes.size(), e.bytes)) { C->fail("append", "the update changed the original bytes"); return; } load(e, b); } }
        else add(e, keys[o]);
        C->transition();
        string st = vf::fmt("%u", M); for (auto& x : e.want) st += x.first + " "; C->state(st);
        if (every && !lookups(e, all, "in memory")) return;
    }
    if (!lookups(e, all, "in memory")) return;
    if (dict && !dictView(e, "in memory")) return;
    string b = saveDoc(*e.doc);
    if (!fileTree(e, b, "saved")) return;
    load(e, b);
    if (!lookups(e, all, "after reloading")) return;
    if (dict && !dictView(e, "after reloading")) return;
    C->trace();
}
static string showOps(const std::vector<int>& v) { string s; for (int i : v) s += i == Reload ? " reload" : i == Update ? " update" : vf::fmt(" %d", i); return s; }
static void explore(vf::Ctx& c)
{
    C = &c;
    std::vector<Key> ks; for (unsigned i = 0; i < 24; i++) ks.push_back(ascii(i));
    auto one = [&](const char* tag, unsigned M, const string& st, int how, const std::vector<int>& ops, const std::vector<Key>& keys, bool every = true, bool dict = true) {
        if (!c.mine()) { c.skip(); return; }
        c.run(tag, [&] { return vf::fmt("max %u, start %s how %d:%s", M, st.c_str(), how, showOps(ops).c_str()); }, [&] { history(M, st, how, ops, keys, every, dict); });
    };
    // all sequences of insertions from nothing, repetitions included
    for (unsigned M : { 1u, 3u }) for (unsigned d = 0; d <= (c.thorough ? 7u : 6u); d++) vf::sequences(6, d, [&](const std::vector<unsigned>& v) { one("sequences", M, "new", 0, std::vector<int>(v.begin(), v.end()), ks); });
    // all orders of n distinct keys
    for (unsigned M : { 1u, 3u, 5u })
    {
        std::vector<int> v; for (int i = 0; i < (c.thorough ? 9 : M == 5 ? 7 : 8); i++) v.push_back(i);
        do one("orders", M, "new", 0, v, ks, false, false); while (std::next_permutation(v.begin(), v.end()));
    }
    // trees of other shapes
    std::vector<string> shapes{ "-", "0", "1", "3", "(1)", "(3)", "(2 2)", "(1 1 1)", "((2) (1))", "((1 1) (1 1))", "(((1) (1)) ((1)))", "((2) 2)", "()" };
    auto opsFor = [&](unsigned n) { std::vector<int> o{ Reload, Update }; for (unsigned i = 0; i < n; i++) o.push_back(i); return o; };
    auto shapesTo = [&](unsigned depth, const std::vector<unsigned>& Ms) {
        for (auto& s : shapes) for (int how : { 0, 1, 2 }) for (unsigned M : Ms)
        {
            auto o = opsFor(docWith(s, 0).keys + 2);
            vf::sequences((unsigned)o.size(), depth, [&](const std::vector<unsigned>& v) { std::vector<int> h; for (auto i : v) h.push_back(o[i]); one("shapes", M, s, how, h, ks); });
        }
    };
    for (unsigned d = 0; d <= 2; d++) shapesTo(d, { 1, 3, 65 });
    shapesTo(3, { 1, 3 });
    if (c.thorough) shapesTo(4, { 1, 3 });
    // the real limit: shapes at the thresholds, and insertions anywhere
    {
        std::vector<Key> k4; for (unsigned i = 0; i < 20000; i++) k4.push_back(ascii(i));
        for (int n : { 64, 65, 66, 129, 130, 131 })
            for (const string& s : { vf::fmt("%d", n), vf::fmt("(%d)", n), vf::fmt("(2 %d 2)", n), vf::fmt("((%d %d) (%d))", n, n, n) })
            {
                unsigned K = docWith(s, 0).keys;
                std::vector<unsigned> at; for (unsigned i : { 0u, 1u, 2u, 3u, K / 2, K / 2 + 1, (unsigned)n, (unsigned)n + 1, (unsigned)n + 2, 2u * n - 1, 2u * n, 2u * n + 1, 2u * n + 2, 2u * n + 3, 2u * n + 4, 2u * n + 5, K - 1, K, K + 1 }) if (std::find(at.begin(), at.end(), i) == at.end()) at.push_back(i);
                std::vector<Key> kk(k4.begin(), k4.begin() + std::max(K, 2u * n + 6) + 2);
                for (unsigned i : at) one("real", REALMAX, s, 0, { (int)i }, kk, false, true);
                std::vector<unsigned> some{ 1u, K / 2 + 1, (unsigned)n + 1, 2u * n + 1, 2u * n + 3, 2u * n + 5, K + 1 };
                for (unsigned i : some) for (unsigned j : some) one("real", REALMAX, s, 0, { (int)i, (int)j }, kk, false, false);
            }
        for (int kids : { 64, 65, 66, 67 })
        {
            string s = "("; for (int i = 0; i < kids; i++) s += i ? " 130" : "130"; s += ")";
            unsigned K = docWith(s, 0).keys;
            for (unsigned i : { 1u, 261u, K / 2 + 1, K - 1, K + 1 }) for (unsigned j : { 3u, K / 2 + 5, K + 3 }) one("real", REALMAX, s, 0, { (int)i, (int)j }, k4, false, false);
        }
        for (int n : { 131, 132, 200, 1000, c.thorough ? 9973 : 4500 }) for (int stride : { 1, -1, 2, 7, 61 })
        {
            std::vector<int> v; if (stride < 0) for (int i = n - 1; i >= 0; i--) v.push_back(i); else for (int r = 0; r < stride; r++) for (int i = r; i < n; i += stride) v.push_back(i);
            c.run("growth", [&] { return vf::fmt("%d keys in steps of %d", n, stride); }, [&] { history(REALMAX, "new", 0, v, k4, false, true); });
            for (unsigned M : { 3u, 9u }) c.run("growth", [&] { return vf::fmt("%d keys in steps of %d, max %u", std::min(n, 1000), stride, M); }, [&] { auto w = v; w.erase(std::remove_if(w.begin(), w.end(), [](int i) { return i >= 1000; }), w.end()); history(M, "new", 0, w, k4, false, true); });
        }
    }
    // keys of all kinds: what sorts is the bytes in the file
    {
        std::vector<Key> odd{ { "", "" }, { "a", "a" }, { "B", "B" }, { "ab", "ab" }, { "\xC3\xA9", "\xE9" }, { "\xE2\x80\xA2", "\x80" }, { "a\xC3\xA9", "a\xE9" }, { "\xCE\xA9", "\xFE\xFF\x03\xA9" }, { "a\xCE\xA9", string("\xFE\xFF\0a\x03\xA9", 6) }, { "z", "z" }, { "\xC3\xBF", "\xFF" }, { "\xF0\x9F\x98\x80", "\xFE\xFF\xD8\x3D\xDE\x00" }, { "\xEF\xBC\xA1", "\xFE\xFF\xFF\x21" }, { "(x\\", "(x\\" } };
        odd[11].bytes = string("\xFE\xFF\xD8\x3D\xDE\0", 6);
        for (unsigned M : { 1u, 3u, 65u }) for (unsigned d = 1; d <= (c.thorough ? 4u : 3u); d++) vf::sequences((unsigned)odd.size(), d, [&](const std::vector<unsigned>& v) { one("keys", M, "new", 0, std::vector<int>(v.begin(), v.end()), odd, true, false); });
        for (unsigned M : { 1u, 3u }) for (unsigned a = 0; a < odd.size(); a++) for (unsigned b = 0; b < odd.size(); b++) { std::vector<int> v{ (int)a, Reload, (int)b }; for (unsigned i = 0; i < odd.size(); i++) v.push_back((i + a) % odd.size()); one("keys", M, "new", 0, v, odd, true, false); }
    }
    // named destinations and attachments use the same trees
    for (unsigned M : { 1u, 65u }) for (unsigned d = 1; d <= 4; d++) vf::sequences(4, d, [&](const std::vector<unsigned>& v) {
        if (!c.mine()) { c.skip(); return; }
        c.run("users", [&] { string s = vf::fmt("max %u", M); for (auto i : v) s += vf::fmt(" %u", i); return s; }, [&] {
            VerifBalanceTreeMax = M; PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 9, 9));
            std::map<string, double> dests; std::map<string, string> files;
            for (unsigned n = 0; n < v.size(); n++)
            {
                string name = vf::fmt("n%u", v[n] % 2);
                if (v[n] < 2) { PdfDestination ds(page, 1, 2, n + 10.0); doc.AddNamedDestination(ds, PdfString(name)); dests[name] = n + 10; }
                else { string data = vf::fmt("data %u", n); PdfFileSpec fs(doc, name, data.data(), data.size()); doc.AttachFile(fs); files[name] = data; }
            }
            auto judge = [&](PdfMemDocument& x, const char* when) {
                for (string name : { "n0", "n1" })
                {
                    auto o = x.GetNames() ? x.GetNames()->GetValue("Dests", PdfString(name)) : nullptr;
                    if (!o != !dests.count(name)) { c.fail("destination", string(when) + ": " + name); return; }
                    if (o) { PdfDestination ds(*o); if (ds.GetZoom() != dests[name]) { c.fail("destination", vf::fmt("%s: %s zooms to %g, not %g", when, name.c_str(), ds.GetZoom(), dests[name])); return; } }
                    std::unique_ptr<PdfFileSpec> fs(x.GetAttachment(PdfString(name)));
                    if (!fs != !files.count(name)) { c.fail("attachment", string(when) + ": " + name + (fs ? " is there" : " is missing")); return; }
                    if (fs)
                    {
                        auto ef = fs->GetObject().GetDictionary().FindKey("EF"); auto s = ef ? ef->GetDictionary().FindKey("F") : nullptr;
                        if (!s || !s->GetStream()) { c.fail("attachment", string(when) + ": no embedded file in " + name); return; }
                        auto got = string(s->GetStream()->GetCopy()); if (got != files[name]) { c.fail("attachment", string(when) + ": " + name + " holds " + vf::esc(got)); return; }
                    }
                }
            };
            judge(doc, "in memory"); if (c.failed()) return;
            string b = saveDoc(doc); PdfMemDocument d2; d2.LoadFromBuffer(b); judge(d2, "after reloading"); c.trace();
        });
    });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P15";
    cfg.rule = "all insertion histories up to a depth, from nothing and from all listed tree shapes, with balance limits 1, 3, 5 (hook) and the real one; a state is the set of keys with the limit, a transition one insertion, reload or update; lookups of all keys, the walked file and the reloaded document are compared with a map";
    cfg.assumptions = { "nodes of loaded trees have the limits the specification requires" };
    return vf::main(argc, argv, cfg, explore);
}
