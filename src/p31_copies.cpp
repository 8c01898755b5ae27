// P31: copies are equal and independent. All histories of copies, moves and changes
// over slots of every kind (free objects, indirect objects, array elements,
// dictionary values, objects read on demand, variants); equality over all pairs
// and triples of a family of values; histories of copies of strings and names.
#include "ref.h"
#include <memory>
#include <pdfmm/base/PdfObjectStream.h>
using namespace mm; using namespace ref; using std::string; using std::vector;
static vf::Ctx* C;

// --- equality -----------------------------------------------------------------------
struct Item { string name, key; std::function<PdfVariant()> make; bool judged = true; };
static vector<Item> family()
{
    vector<Item> f;
    auto add = [&](string name, string key, std::function<PdfVariant()> m) { f.push_back({ name, key, m }); };
    add("null", "null", [] { return PdfVariant(); });
    for (bool b : { false, true }) add(b ? "true" : "false", b ? "true" : "false", [b] { return PdfVariant(b); });
    for (int64_t i : { (int64_t)0, (int64_t)1, (int64_t)-1, INT64_MAX, INT64_MIN }) add(vf::fmt("int %lld", (long long)i), vf::fmt("i%lld", (long long)i), [i] { return PdfVariant(i); });
    for (double d : { 0.0, 1.0, -1.0, 0.5 }) add(vf::fmt("real %g", d), vf::fmt("r%g", d), [d] { return PdfVariant(d); });
    struct S { const char* name; string key; std::function<PdfString()> m; };
    static const vector<S> ss = { { "\"\"", "", [] { return PdfString(""); } }, { "\"a\"", "a", [] { return PdfString("a"); } }, { "raw a", "a", [] { return PdfString::FromRaw(string("a")); } }, { "hex a", "a", [] { return PdfString::FromRaw(string("a"), true); } }, { "raw empty", "", [] { return PdfString::FromRaw(string("")); } }, { "\"b\"", "b", [] { return PdfString("b"); } },
        { "e acute", "\xC3\xA9", [] { return PdfString("\xC3\xA9"); } }, { "raw PDFDoc e acute", "\xC3\xA9", [] { return PdfString::FromRaw(string("\xE9")); } }, { "raw UTF-16 e acute", "\xC3\xA9", [] { return PdfString::FromRaw(string("\xFE\xFF\x00\xE9", 4)); } }, { "raw UTF-8 e acute", "\xC3\xA9", [] { return PdfString::FromRaw(string("\xEF\xBB\xBF\xC3\xA9")); } }, { "CJK", "\xE4\xB8\xAD", [] { return PdfString("\xE4\xB8\xAD"); } }, { "raw UTF-16 CJK", "\xE4\xB8\xAD", [] { return PdfString::FromRaw(string("\xFE\xFF\x4E\x2D")); } }, { "raw A-tilde copyright", "\xC3\x83\xC2\xA9", [] { return PdfString::FromRaw(string("\xC3\xA9")); } }, { "raw a, read", "a", [] { auto s = PdfString::FromRaw(string("a")); s.GetString(); return s; } }, { "raw e acute, read", "\xC3\xA9", [] { auto s = PdfString::FromRaw(string("\xE9")); s.GetString(); return s; } } };
    for (auto& s : ss) { auto m = s.m; add(string("string ") + s.name, "s" + s.key, [m] { return PdfVariant(m()); }); }
    for (const char* n : { "", "a", "Type", "b" }) add(string("name ") + n, string("n") + n, [n] { return PdfVariant(PdfName(n)); });
    add("name raw e acute", "n\xE9", [] { return PdfVariant(PdfName::FromRaw(string("\xE9"))); }); add("name e acute", "n\xE9", [] { return PdfVariant(PdfName("\xC3\xA9")); }); add("name escaped a", "na", [] { return PdfVariant(PdfName::FromEscaped("#61")); });
    add("ref 1 0", "1 0 R", [] { return PdfVariant(PdfReference(1, 0)); }); add("ref 1 1", "1 1 R", [] { return PdfVariant(PdfReference(1, 1)); }); add("ref 2 0", "2 0 R", [] { return PdfVariant(PdfReference(2, 0)); });
    auto base = f; // containers of the former
    add("[]", "[]", [] { return PdfVariant(PdfArray()); }); add("<<>>", "<<>>", [] { return PdfVariant(PdfDictionary()); });
    for (auto& x : base)
    {
        auto m = x.make;
        add("[" + x.name + "]", "[" + x.key + "]", [m] { PdfArray a; a.Add(m()); return PdfVariant(a); });
        if (x.key != "null") add("<</A " + x.name + ">>", "<<A " + x.key + ">>", [m] { PdfDictionary d; d.AddKey("A", m()); return PdfVariant(d); });
    }
    add("[1 1]", "[i1 i1]", [] { PdfArray a; a.Add((int64_t)1); a.Add((int64_t)1); return PdfVariant(a); });
    add("[[1]]", "[[i1]]", [] { PdfArray a, b; b.Add((int64_t)1); a.Add(b); return PdfVariant(a); });
    add("<</B 1>>", "<<B i1>>", [] { PdfDictionary d; d.AddKey("B", (int64_t)1); return PdfVariant(d); });
    add("<</A 1/B 1>>", "<<A i1 B i1>>", [] { PdfDictionary d; d.AddKey("A", (int64_t)1); d.AddKey("B", (int64_t)1); return PdfVariant(d); });
    add("<</B 1/A 1>>", "<<A i1 B i1>>", [] { PdfDictionary d; d.AddKey("B", (int64_t)1); d.AddKey("A", (int64_t)1); return PdfVariant(d); });
    add("<</A[1]>>", "<<A [i1]>>", [] { PdfDictionary d; PdfArray a; a.Add((int64_t)1); d.AddKey("A", a); return PdfVariant(d); });
    return f;
}
static void equality(vf::Ctx& c)
{
    auto f = family();
    for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++)
        c.run("equal", [&] { return f[i].name + " == " + f[j].name; }, [&] {
            C->trace(); bool want = f[i].key == f[j].key; string rel = want ? "are equal" : "are different", sg = want ? "equal" : "different";
            auto both = [&](PdfVariant& a, PdfVariant& b, const char* when) {
                C->check((a == b) == want, sg + "-variant", string("variants ") + rel + when); C->check((a != b) == !want, sg + "-variant-ne", string("variants ") + rel + when);
                PdfObject x(a), y(b); C->check((x == y) == want, sg + "-object", string("objects ") + rel + when); C->check((x != y) == !want, sg + "-object-ne", string("objects ") + rel + when); C->check((x == b) == want && (x != b) == !want, sg + "-object-variant", string("object and variant ") + rel + when);
                PdfArray p, q; p.Add(a); q.Add(b); C->check((p == q) == want && (p != q) == !want, sg + "-array", string("arrays ") + rel + when);
                if (a.IsString() && b.IsString()) { auto &s = a.GetString(), &t = b.GetString(); C->check((s == t) == want && (s != t) == !want && (t == s) == want, sg + "-string", string("strings ") + rel + when); C->check((s == std::string_view(f[j].key).substr(1)) == want && (s != std::string_view(f[j].key).substr(1)) == !want, sg + "-string-text", string("string and text ") + rel + when); }
                if (a.IsName() && b.IsName()) { auto &s = a.GetName(), &t = b.GetName(); C->check((s == t) == want && (s != t) == !want, sg + "-name", string("names ") + rel + when); C->check(!(s < t) || !(t < s), "name-order", "the order of names is not one"); C->check(((s < t) || (t < s)) == !want, "name-order", "different names have an order"); }
            };
            auto a = f[i].make(), b = f[j].make(); both(a, b, "");
            // reading the texts changes nothing
            std::function<void(const PdfVariant&)> read = [&](const PdfVariant& v) { if (v.IsString()) v.GetString().GetString(); else if (v.IsName()) v.GetName().GetString(); else if (v.IsArray()) for (auto& o : v.GetArray()) read(o.GetVariant()); else if (v.IsDictionary()) for (auto& p : v.GetDictionary()) read(p.second.GetVariant()); };
            a = f[i].make(); b = f[j].make(); read(a); both(a, b, ", the left one read"); a = f[i].make(); b = f[j].make(); read(b); both(a, b, ", the right one read"); read(a); both(a, b, ", both read");
            C->transition(4); C->state(f[i].name + "=" + f[j].name); C->outcome(rel);
        });
}

// --- strings and names ----------------------------------------------------------------
struct StrModel { string raw; bool hex = false, readable = true; };
static void strings(vf::Ctx& c)
{
    static const vector<string> RAW = { "", "plain", "\xE9\x80", "\xFE\xFF\x4E\x2D" }; static const vector<string> TEXT = { "", "plain", "\xC3\xA9\xE2\x80\xA2", "\xE4\xB8\xAD" };
    static const char* OP[] = { "copy", "assign", "move", "self-assign", "read", "write", "compare", "replace", "raw", "view", "variant" };
    // three strings; an operation is (kind, i, j)
    vector<std::array<unsigned, 3>> ops; for (unsigned k = 0; k < 11; k++) for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) { bool pair = k <= 2 || k == 6; if (pair ? i == j : j != 0) continue; ops.push_back({ k, i, j }); }
    for (unsigned s0 = 0; s0 < 4; s0++) for (unsigned s1 = 0; s1 < 4; s1++) for (unsigned n = 1; n <= (c.thorough ? 4u : 3u); n++) vf::sequences((unsigned)ops.size(), n, [&](const vector<unsigned>& q) {
        if (n >= 3 && (s0 == 0 || s1 != (s0 + 1) % 4) && !(n == 3 && c.thorough)) return; if (n == 4 && s0 != 2) return;
        if (!c.mine()) { c.skip(); return; }
        c.run("strings", [&] { string s = vf::fmt("strings %u %u:", s0, s1); for (auto o : q) s += vf::fmt(" %s(%u,%u)", OP[ops[o][0]], ops[o][1], ops[o][2]); return s; }, [&] {
            std::optional<PdfString> v[3]; int m[3] = { (int)s0, (int)s1, (int)s0 }; bool read[3] = {}; bool text[3] = {};
            v[0].emplace(PdfString::FromRaw(RAW[s0])); v[1].emplace(PdfString(TEXT[s1])); text[1] = true; v[2].emplace(*v[0]);
            std::optional<PdfName> nm[3]; // the same with names, where the value is one
            auto name = [](int k) { return PdfName::FromRaw(RAW[k == 3 ? 1 : k]); }; for (int i = 0; i < 3; i++) nm[i].emplace(name(m[i]));
            for (auto o : q)
            {
                unsigned k = ops[o][0], i = ops[o][1], j = ops[o][2]; C->transition();
                switch (k)
                {
                    case 0: { PdfString t(*v[j]); v[i].reset(); v[i].emplace(t); PdfName u(*nm[j]); nm[i].reset(); nm[i].emplace(u); m[i] = m[j]; text[i] = text[j]; read[i] = read[j]; break; }
                    case 1: *v[i] = *v[j]; *nm[i] = *nm[j]; m[i] = m[j]; text[i] = text[j]; read[i] = read[j]; break;
                    case 2: { PdfString t(std::move(*v[j])); v[j].emplace(PdfString("")); v[i].emplace(std::move(t)); PdfName u(std::move(*nm[j])); nm[j].emplace(PdfName("")); nm[i].emplace(std::move(u)); m[i] = m[j]; text[i] = text[j]; read[i] = read[j]; m[j] = 0; text[j] = true; read[j] = false; break; }
                    case 3: *v[i] = *&*v[i]; *nm[i] = *&*nm[i]; break;
                    case 4: C->check(v[i]->GetString() == TEXT[m[i]], "string-text", "the text is " + vf::esc(v[i]->GetString())); read[i] = true; break;
                    case 5: { charbuff b; StringStreamDevice d(b); charbuff t; PdfVariant(*v[i]).Write(d, PdfWriteFlags::None, PdfStatefulEncrypt(), t); string w((string)b); Lex l(w); auto x = l.value(); bool ok = x.k == Str && (x.s == RAW[m[i]]); C->check(ok, "string-written", "written " + vf::esc(w)); break; }
                    case 6: C->check((*v[i] == *v[j]) == (m[i] == m[j]), "string-equal", "comparison of strings"); break;
                    case 7: v[i].emplace(PdfString::FromRaw(RAW[(m[i] + 1) % 4])); m[i] = (m[i] + 1) % 4; nm[i].emplace(name(m[i])); text[i] = read[i] = false; break;
                    case 8: if (!text[i] && !read[i]) { string got; int e = vf::errorOf([&] { got = v[i]->GetRawData(); }); C->check(e == -1 && got == RAW[m[i]], "string-raw", "the raw data of a string that nobody read is gone"); } break;
                    case 9: C->check((std::string_view)*v[i] == TEXT[m[i]], "string-view", "the text"); read[i] = true; break;
                    case 10: { PdfVariant x(*v[i]); PdfVariant y(x); y.GetString().GetString(); PdfObject z(*v[i]); z.SetString(PdfString("other")); C->check(x.GetString().IsEmpty() == (m[i] == 0), "string-empty", "IsEmpty"); break; }
                }
                for (int x = 0; x < 3; x++) { C->check(nm[x]->GetRawData() == name(m[x]).GetRawData() && nm[x]->GetString() == TEXT[m[x] == 3 ? 1 : m[x]], "name-value", "name " + nm[x]->GetString()); C->check(v[x]->IsEmpty() == (m[x] == 0), "string-empty", "IsEmpty"); }
            }
            for (int x = 0; x < 3; x++) { if (!text[x] && !read[x]) { string got; int e = vf::errorOf([&] { got = v[x]->GetRawData(); }); C->check(e == -1 && got == RAW[m[x]], "string-raw", "the raw data of a string that nobody read is gone"); } C->check(v[x]->GetString() == TEXT[m[x]], "string-value", "string " + vf::esc(v[x]->GetString()) + " is not " + vf::esc(TEXT[m[x]])); }
            C->trace(); C->state(vf::fmt("%d%d%d %d%d%d %d%d%d", m[0], m[1], m[2], read[0], read[1], read[2], text[0], text[1], text[2]));
        });
    });
}

// --- objects ----------------------------------------------------------------------------
enum Kind1 { FREE, INDIRECT, ELEMENT, VALUE, LAZY, VARIANT };
static const char KCH[] = "FIEDLV";
struct Model { Val v; bool stream = false; string data; };
static string sh(const Model& m) { return show(m.v) + (m.stream ? " stream(" + vf::esc(m.data) + ")" : ""); }
static vector<Model> values()
{
    Model num{ Val::I(5) }, str{ Val::S("raw \xE9") }, name{ Val::N("N") }, arr{ Val::A({ Val::A({ Val::I(2), Val::S("in") }), Val::I(1) }) }, dict{ Val::D({ { "A", Val::D({ { "A", Val::A({ Val::I(4) }) } }) }, { "B", Val::S("b") } }) }, st{ Val::D({ { "A", Val::A({ Val::I(1) }) } }), true, "stream data" }, rf{ Val::Rf(1) }, nul{}, mixed{ Val::A({ Val::D({ { "A", Val::I(1) } }) }) };
    return { arr, dict, st, str, mixed, num, name, rf, nul };
}
struct World
{
    std::unique_ptr<PdfMemDocument> d, d2; string bytes; charbuff buf;
    struct Slot { Kind1 k; Model m; std::unique_ptr<PdfObject> own; PdfVariant var; PdfReference ref; } s[3]; int n = 3;
    PdfReference holder[3];
    PdfObject& obj(int i)
    {
        switch (s[i].k) { case FREE: return *s[i].own; case INDIRECT: return d->GetObjects().MustGetObject(s[i].ref); case ELEMENT: return d->GetObjects().MustGetObject(holder[i]).GetArray()[0]; case VALUE: return *d->GetObjects().MustGetObject(holder[i]).GetDictionary().GetKey("X"); case LAZY: return d2->GetObjects().MustGetObject(s[i].ref); default: throw std::logic_error("kind"); }
    }
    PdfVariant& var(int i) { return s[i].var; }
};
// strings as their texts, reading copies
static Val texts(const PdfVariant& v)
{
    if (v.IsString()) { PdfString t(v.GetString()); return Val::S(t.GetString()); }
    if (v.IsArray()) { Val r = Val::A(); for (auto& o : v.GetArray()) r.a.push_back(texts(o.GetVariant())); return r; }
    if (v.IsDictionary()) { Val r = Val::D(); for (auto& p : v.GetDictionary()) r.m[p.first.GetRawData()] = texts(p.second.GetVariant()); return r; }
    return fromVariant(v);
}
static Val texts(Val v) { if (v.k == Str && v.s == "raw \xE9") v.s = "raw \xC3\xA9"; for (auto& x : v.a) x = texts(x); for (auto& x : v.m) x.second = texts(x.second); return v; }
static Val clean(Val v) { v.m.erase("Filter"); v.m.erase("Length"); v.m.erase("DecodeParms"); for (auto& x : v.a) x = clean(x); for (auto& x : v.m) x.second = clean(x.second); return v; }
static void owners(const PdfObject& o, const PdfDocument* d, const string& at)
{
    C->check(o.GetDocument() == d, "document", at + ": a part of the value belongs to another document");
    if (o.GetVariant().IsArray()) for (auto& x : o.GetArray()) { C->check(x.GetParent() == &o.GetArray(), "parent", at + ": parent of an element"); owners(x, d, at); }
    else if (o.GetVariant().IsDictionary()) for (auto& x : o.GetDictionary()) { C->check(x.second.GetParent() == &o.GetDictionary(), "parent", at + ": parent of a value"); owners(x.second, d, at); }
}
static void verify(World& w, const string& at)
{
    for (int i = 0; i < w.n; i++)
    {
        auto& s = w.s[i]; string who = at + vf::fmt(", %c%d", KCH[s.k], i);
        if (s.k == VARIANT) { C->check(equal(clean(texts(s.var)), texts(s.m.v), false), "variant-value", who + ": " + show(fromVariant(s.var)) + " is not " + sh(s.m)); continue; }
        auto& o = w.obj(i); if (s.k == LAZY) o.GetVariant().IsNull();
        C->check(o.HasStream() == s.m.stream, s.m.stream ? "stream-lost" : "stream-extra", who + ": HasStream of " + sh(s.m)); if (o.HasStream() != s.m.stream) continue;
        Val got = texts(o.GetVariant()); C->check(equal(clean(got), texts(s.m.v), false), "value", who + ": " + show(got) + " is not " + sh(s.m));
        if (s.m.stream) { charbuff b; int e = vf::errorOf([&] { o.MustGetStream().CopyTo(b); }); C->check(e == -1 && string(b) == s.m.data, "stream-data", who + ": stream " + vf::esc(string(b)) + " is not " + vf::esc(s.m.data)); }
        owners(o, s.k == FREE ? nullptr : s.k == LAZY ? w.d2.get() : w.d.get(), who);
    }
}
static void build(World& w, const string& kinds, const vector<int>& vals, const vector<Model>& V)
{
    w.d = std::make_unique<PdfMemDocument>(); w.n = (int)kinds.size();
    Builder b; b.obj(1, Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) } })); b.obj(2, Val::D({ { "Type", Val::N("Pages") }, { "Kids", Val::A() }, { "Count", Val::I(0) } }));
    for (int i = 0; i < w.n; i++) if (kinds[i] == 'L') { auto& m = V[vals[i]]; if (m.stream) b.stream(10 + i, m.v, m.data); else b.obj(10 + i, m.v); }
    if (kinds.find('L') != string::npos) { b.startxref(b.xrefTableAuto(Val::D({ { "Root", Val::Rf(1) } }))); w.d2 = std::make_unique<PdfMemDocument>(); w.buf = charbuff(b.out); w.d2->LoadFromBuffer(w.buf); }
    for (int i = 0; i < w.n; i++)
    {
        auto& s = w.s[i]; auto& m = V[vals[i]]; s.m = m; s.k = (Kind1)(strchr(KCH, kinds[i]) - KCH); if ((s.k == ELEMENT || s.k == VALUE || s.k == VARIANT)) { s.m.stream = false; s.m.data.clear(); }
        auto fill = [&](PdfObject& o) { o = toObject(m.v); if (s.m.stream) o.GetOrCreateStream().SetData(m.data); };
        switch (s.k)
        {
            case FREE: { if (s.m.stream) { auto& t = w.d->GetObjects().CreateDictionaryObject(); fill(t); s.own.reset(new PdfObject(t)); } else s.own.reset(new PdfObject(toObject(m.v))); break; }
            case INDIRECT: { auto& o = w.d->GetObjects().CreateDictionaryObject(); s.ref = o.GetIndirectReference(); fill(o); break; }
            case ELEMENT: { PdfArray a; a.Add(toObject(m.v)); a.Add((int64_t)77); auto& o = w.d->GetObjects().CreateObject(a); w.holder[i] = o.GetIndirectReference(); break; }
            case VALUE: { auto& o = w.d->GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("X", toObject(m.v)); o.GetDictionary().AddKey("Y", (int64_t)77); w.holder[i] = o.GetIndirectReference(); if (m.v.k == Null) o.GetDictionary().AddKey("X", PdfObject()); break; }
            case LAZY: s.ref = PdfReference(10 + i, 0); break;
            case VARIANT: s.var = toVariant(m.v); break;
        }
    }
}
static const char* PAIR[] = { "assign", "move", "copy-new", "move-new", "wrap-array", "wrap-dict", "child", "contents", "contents-move", "swap", "set-in-parent", "set-in-parent-move" };
static const char* MUT[] = { "set-number", "set-string", "set-name", "add", "set-child", "change-child", "clear", "add-key", "remove-key", "read", "set-stream", "append-stream", "recreate", "to-string", "set-real-same" };
static const unsigned NPAIR = 12, NMUT = 15;
struct Op { bool pair; unsigned k; int i, j; };
// Whether the operation applies; applies it to the models first.
static bool pairOp(World& w, unsigned k, int i, int j)
{
    auto &a = w.s[i], &b = w.s[j]; bool vi = a.k == VARIANT, vj = b.k == VARIANT; bool inner = a.k == ELEMENT || a.k == VALUE;
    Model src = b.m; if (vi) { src.stream = false; src.data.clear(); }
    if (inner && b.m.stream) return false; // a stream inside of another object
    auto V = [&](int x) -> const PdfVariant& { return w.s[x].k == VARIANT ? w.s[x].var : w.obj(x).GetVariant(); };
    auto gone = [&](int x) { auto& t = w.s[x]; t.m = Model(); if (t.k == VARIANT) t.var = PdfVariant(); else w.obj(x) = PdfObject(PdfVariant()); };
    switch (k)
    {
        case 0: if (i == j && b.k == VALUE) {} { a.m = src; if (vi) a.var = V(j); else if (vj) w.obj(i) = PdfObject(b.var); else w.obj(i) = w.obj(j); break; }
        case 1: { if (i == j || vi != vj) return false; a.m = src; if (vi) a.var = std::move(b.var); else w.obj(i) = std::move(w.obj(j)); gone(j); break; }
        case 2: { if (a.k != FREE && !vi) return false; if (vi) { PdfVariant t(V(j)); a.var.~PdfVariant(); new (&a.var) PdfVariant(t); } else { auto t = vj ? std::make_unique<PdfObject>(b.var) : std::make_unique<PdfObject>(w.obj(j)); a.own = std::move(t); } a.m = src; break; }
        case 3: { if (i == j || vi != vj || (a.k != FREE && !vi)) return false; if (vi) { PdfVariant t(std::move(b.var)); a.var.~PdfVariant(); new (&a.var) PdfVariant(std::move(t)); } else a.own = std::make_unique<PdfObject>(std::move(w.obj(j))); a.m = src; gone(j); break; }
        case 4: { if (b.m.stream) return false; PdfArray t; t.Add(PdfObject(V(j))); t.Add((int64_t)3); a.m = Model{ Val::A({ b.m.v, Val::I(3) }) }; if (vi) a.var = PdfVariant(t); else w.obj(i) = PdfObject(std::move(t)); break; }
        case 5: { if (b.m.stream || b.m.v.k == Null) return false; PdfDictionary t; t.AddKey("A", PdfObject(V(j))); a.m = Model{ Val::D({ { "A", b.m.v } }) }; if (vi) a.var = PdfVariant(t); else w.obj(i) = t; break; }
        case 6: // a child of j
        {
            Val c; if (b.m.v.k == Arr && !b.m.v.a.empty()) c = b.m.v.a[0]; else if (b.m.v.k == Dict && b.m.v.get("A")) c = *b.m.v.get("A"); else return false;
            auto& bv = V(j); const PdfObject& ch = bv.IsArray() ? bv.GetArray()[0] : *bv.GetDictionary().GetKey("A");
            a.m = Model{ c }; if (vi) a.var = ch.GetVariant(); else w.obj(i) = ch; break;
        }
        case 7: case 8:
        {
            if (a.m.v.k != b.m.v.k || (a.m.v.k != Arr && a.m.v.k != Dict) || (k == 8 && i == j) || a.m.stream || b.m.stream) return false;
            bool arr = a.m.v.k == Arr; PdfVariant *x = vi ? &a.var : nullptr, *y = vj ? &b.var : nullptr; a.m.v = b.m.v;
            if (arr) { auto& p = x ? x->GetArray() : w.obj(i).GetArray(); auto& q = y ? y->GetArray() : w.obj(j).GetArray(); if (k == 7) p = q; else { p = std::move(q); q.Clear(); } }
            else { auto& p = x ? x->GetDictionary() : w.obj(i).GetDictionary(); auto& q = y ? y->GetDictionary() : w.obj(j).GetDictionary(); if (k == 7) p = q; else { p = std::move(q); q.Clear(); } }
            if (k == 8) b.m.v = arr ? Val::A() : Val::D(); break;
        }
        case 9: { if (i >= j || vi != vj || ((b.k == ELEMENT || b.k == VALUE) && a.m.stream)) return false; std::swap(a.m, b.m); if (vi) std::swap(a.var, b.var); else std::swap(w.obj(i), w.obj(j)); break; }
        case 10: case 11:
        {
            if (!inner || (k == 11 && i == j)) return false; auto& h = w.d->GetObjects().MustGetObject(w.holder[i]); a.m = src; 
            if (k == 10) { if (vj) { if (a.k == ELEMENT) h.GetArray().SetAt(0, b.var); else h.GetDictionary().AddKey("X", b.var); } else if (a.k == ELEMENT) h.GetArray().SetAt(0, w.obj(j)); else h.GetDictionary().AddKey("X", w.obj(j)); }
            else { if (vj) return false; PdfObject t(std::move(w.obj(j))); if (a.k == ELEMENT) h.GetArray().SetAt(0, std::move(t)); else h.GetDictionary().AddKey("X", std::move(t)); gone(j); }
            break;
        }
    }
    return true;
}
static void readAll(const PdfVariant& v) { if (v.IsString()) v.GetString().GetString(); else if (v.IsArray()) for (auto& o : v.GetArray()) readAll(o.GetVariant()); else if (v.IsDictionary()) for (auto& p : v.GetDictionary()) readAll(p.second.GetVariant()); }
static bool mutOp(World& w, unsigned k, int i)
{
    auto& a = w.s[i]; bool vi = a.k == VARIANT; auto& v = a.m.v; bool arr = v.k == Arr, dict = v.k == Dict;
    auto A = [&]() -> PdfArray& { return vi ? a.var.GetArray() : w.obj(i).GetArray(); }; auto D = [&]() -> PdfDictionary& { return vi ? a.var.GetDictionary() : w.obj(i).GetDictionary(); };
    switch (k)
    {
        case 0: if (v.k != Int) return false; v = Val::I(8); if (vi) a.var.SetNumber(8); else w.obj(i).SetNumber(8); return true;
        case 1: if (v.k != Str) return false; v = Val::S("changed"); if (vi) a.var.SetString(PdfString("changed")); else w.obj(i).SetString(PdfString("changed")); return true;
        case 2: if (v.k != Name) return false; v = Val::N("M"); if (vi) a.var.SetName(PdfName("M")); else w.obj(i).SetName(PdfName("M")); return true;
        case 3: if (!arr) return false; v.a.push_back(Val::I(3)); A().Add((int64_t)3); return true;
        case 4: if (arr && !v.a.empty()) { v.a[0] = Val::I(9); A()[0] = PdfObject((int64_t)9); return true; } if (dict && v.get("A")) { v.m["A"] = Val::I(9); *D().GetKey("A") = PdfObject((int64_t)9); return true; } return false;
        case 5:
        {
            Val* c = arr && !v.a.empty() ? &v.a[0] : dict && v.get("A") ? &v.m["A"] : nullptr; if (!c || (c->k != Arr && c->k != Dict && c->k != Int)) return false;
            PdfObject& o = arr ? A()[0] : *D().GetKey("A"); if (c->k == Arr) { c->a.push_back(Val::N("deep")); o.GetArray().Add(PdfName("deep")); } else if (c->k == Dict) { c->m["Deep"] = Val::I(1); o.GetDictionary().AddKey("Deep", (int64_t)1); } else { c->i = 44; o.SetNumber(44); } return true;
        }
        case 6: if (arr) { v.a.clear(); A().Clear(); return true; } if (dict && !a.m.stream) { v.m.clear(); D().Clear(); return true; } return false;
        case 7: if (!dict) return false; v.m["K"] = Val::S("new"); D().AddKey("K", PdfString("new")); return true;
        case 8: if (!dict || !v.get("A")) return false; v.m.erase("A"); D().RemoveKey("A"); return true;
        case 9: readAll(vi ? a.var : w.obj(i).GetVariant()); return true;
        case 10: if (vi || !dict || a.k == ELEMENT || a.k == VALUE) return false; a.m.stream = true; a.m.data = "set"; w.obj(i).GetOrCreateStream().SetData(string("set")); return true;
        case 11: { if (!a.m.stream) return false; a.m.data += "+more"; charbuff b; auto& s = w.obj(i).MustGetStream(); s.CopyTo(b); s.SetData(string(b) + "+more"); return true; }
        case 12:
            if (a.k == FREE) a.own.reset(new PdfObject(PdfArray()));
            else if (a.k == INDIRECT) { w.d->GetObjects().RemoveObject(a.ref); a.ref = w.d->GetObjects().CreateObject(PdfArray()).GetIndirectReference(); }
            else if (a.k == ELEMENT) { auto& h = w.d->GetObjects().MustGetObject(w.holder[i]).GetArray(); h.RemoveAt(0); h.insert(h.begin(), PdfObject(PdfArray())); }
            else if (a.k == VALUE) { auto& h = w.d->GetObjects().MustGetObject(w.holder[i]).GetDictionary(); h.RemoveKey("X"); h.AddKey("X", PdfArray()); }
            else if (vi) a.var = PdfVariant(PdfArray()); else return false;
            a.m = Model{ Val::A() }; return true;
        case 13: { string s; if (vi) a.var.ToString(s); else w.obj(i).ToString(s); return true; }
        case 14: if (v.k != Null) return false; v = Val::R(1.5); if (vi) a.var = PdfVariant(1.5); else w.obj(i) = PdfObject(1.5); return true;
    }
    return false;
}
static void objects(vf::Ctx& c)
{
    auto V = values();
    static const vector<string> WORLDS = { "FIE", "FLD", "VFI", "LIV", "EDF", "FF", "ILI", "VV" };
    for (auto& kinds : WORLDS)
    {
        int n = (int)kinds.size(); vector<Op> ops;
        for (unsigned k = 0; k < NPAIR; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j && k != 0 && k != 4 && k != 5 && k != 6 && k != 7) continue; ops.push_back({ true, k, i, j }); }
        for (unsigned k = 0; k < NMUT; k++) for (int i = 0; i < n; i++) ops.push_back({ false, k, i, 0 });
        vector<vector<int>> inits; for (int a = 0; a < (int)V.size(); a++) inits.push_back({ a, (a + 1) % 5, (a + 2) % 5 }); for (int a = 0; a < 3; a++) inits.push_back({ a, a, a });
        if (c.thorough) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) inits.push_back({ a, b, (a + 2 * b) % 9 });
        for (auto& in : inits) for (unsigned len = 1; len <= (c.thorough ? 3u : 2u); len++) vf::sequences((unsigned)ops.size(), len, [&](const vector<unsigned>& q) {
            if (len == 3 && (&in - &inits[0]) % 7 != 2) return; // depth 3 from some of the starts
            if (!c.mine()) { c.skip(); return; }
            c.run("objects", [&] { string s = kinds + vf::fmt(" from %d %d %d:", in[0], in[1], in[2]); for (auto x : q) { auto& o = ops[x]; s += o.pair ? vf::fmt(" %s(%c%d,%c%d)", PAIR[o.k], kinds[o.i], o.i, kinds[o.j], o.j) : vf::fmt(" %s(%c%d)", MUT[o.k], kinds[o.i], o.i); } return s; }, [&] {
                World w; build(w, kinds, in, V); if (len == 1) verify(w, "at the start");
                string at;
                for (auto x : q)
                {
                    auto& o = ops[x]; string what; bool ok = false; int e = vf::errorOf([&] { ok = o.pair ? pairOp(w, o.k, o.i, o.j) : mutOp(w, o.k, o.i); }, &what);
                    at += o.pair ? vf::fmt(" %s", PAIR[o.k]) : vf::fmt(" %s", MUT[o.k]);
                    if (e != -1) { C->fail(string("error-") + (o.pair ? PAIR[o.k] : MUT[o.k]), at + " fails: " + what); return; }
                    if (!ok) { C->outcome("not applicable"); return; }
                    C->transition(); if (x == q.back()) verify(w, "after" + at);
                }
                C->trace(); string st = kinds; for (int i = 0; i < w.n; i++) st += "|" + sh(w.s[i].m); C->state(st);
            });
        });
    }
}
static void explore(vf::Ctx& c) { C = &c; equality(c); strings(c); objects(c); }
int main(int argc, char** argv)
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    vf::Config cfg; cfg.prop = "P31";
    cfg.rule = "equality over all pairs of a family of about 90 values, before and after reading their texts; all histories of copies, moves, comparisons and readings of three strings and names to depth 3; all histories of 12 kinds of copies and 15 kinds of changes over worlds of two or three slots (free objects, indirect objects, array elements, dictionary values, objects read on demand, variants) to depth 2 (thorough 3), all slots compared with their models after every history; states are the models of all slots";
    cfg.assumptions = { "moved-from values are assigned a new value before they are used", "streams are not put inside of other objects", "filter and length entries of stream dictionaries are not compared", "streams are not part of the equality of objects" };
    return vf::main(argc, argv, cfg, explore);
}
