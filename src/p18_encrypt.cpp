// P18 / P19: every algorithm, key length, password pair, permission set and
// sequence of re-saves. P19 reads each saved file with an independent security
// handler and compares every string and stream; P18 opens it with the library
// under every candidate password.
#include "sec.h"
using namespace ref;
using namespace mm;
using std::string;
static vf::Ctx* C;
static string P;
struct Node { Val v; bool stream = false; string data; };
typedef std::map<std::pair<int64_t, int>, Node> Model;
struct Alg { const char* name; PdfEncryptAlgorithm a; PdfKeyLength l; int V, R, n; };
static const Alg ALGS[] = {
    { "rc4v1", PdfEncryptAlgorithm::RC4V1, PdfKeyLength::L40, 1, 2, 5 },
    { "rc4v2-40", PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L40, 2, 3, 5 },
    { "rc4v2-56", PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L56, 2, 3, 7 },
    { "rc4v2-80", PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L80, 2, 3, 10 },
    { "rc4v2-96", PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L96, 2, 3, 12 },
    { "rc4v2-128", PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128, 2, 3, 16 },
    { "aesv2", PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128, 4, 4, 16 },
    { "aesv3r5", PdfEncryptAlgorithm::AESV3, PdfKeyLength::L256, 5, 5, 32 },
    { "aesv3r6", PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L256, 5, 6, 32 },
    // key lengths the algorithm does not have
    { "rc4v1-128", PdfEncryptAlgorithm::RC4V1, PdfKeyLength::L128, 1, 2, 5 },
    { "rc4v2-256", PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L256, 2, 3, 16 },
    { "aesv2-40", PdfEncryptAlgorithm::AESV2, PdfKeyLength::L40, 4, 4, 16 },
    { "aesv3r6-40", PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L40, 5, 6, 32 },
};
static const int NALG = sizeof(ALGS) / sizeof(*ALGS);
static std::vector<string> PWS;
static void passwords()
{
    string l32, l127; for (int i = 0; i < 32; i++) l32 += 'a' + i % 26; for (int i = 0; i < 127; i++) l127 += 'A' + i % 23;
    PWS = { "", "u", "owner pass", l32, l32 + "X", l32.substr(0, 31), l127, l127 + "Y", "p\xc3\xa4ss", "pa\xcc\x88ss", "\x28\xbf", "U", "(x\\", " u" };
}
static string txt(size_t n, int salt) { string s; for (size_t i = 0; i < n; i++) s += (char)('A' + (i * 7 + i / 16 + salt) % 57); return s; }
static string bin(size_t n, int salt) { string s; for (size_t i = 0; i < n; i++) s += (char)((i * 151 + i / 256 * 31 + salt) & 255); return s; }

// The objects of a document: strings in every kind of nesting and streams
static std::vector<Node> content(int k)
{
    static const size_t SL[] = { 0, 1, 8, 15, 16, 17, 31, 32, 33, 64 }, TL[] = { 0, 1, 15, 16, 17, 4079, 4080, 4081, 4095, 4096, 4097, 8192 };
    size_t a = SL[k % 10], b = SL[(k * 3 + 4) % 10], t = TL[k % 12];
    std::vector<Node> r;
    r.push_back({ Val::D({ { "A", Val::S(txt(a + 8, k)) }, { "B", Val::A({ Val::S(bin(b, k)), Val::D({ { "C", Val::S(bin(a, k + 1), true) }, { "D", Val::A({ Val::A({ Val::S(txt(9, k)) }) }) } }) }) }, { "Contents", Val::S(txt(11, k), true) } }) });
    r.push_back({ Val::S(txt(b + 9, k + 3)) });
    r.push_back({ Val::A({ Val::S("x"), Val::S(""), Val::S("(\\)\r\n"), Val::I(3) }) });
    Node s; s.v = Val::D({ { "S", Val::S(txt(a + 8, k + 5)) }, { "P", Val::D({ { "Q", Val::S(bin(17, k)) } }) } }); s.stream = true; s.data = bin(t, k); r.push_back(s);
    s.v = Val::D(); s.data = txt(TL[(k + 5) % 12], k); r.push_back(s);
    r.push_back({ Val::D({ { "Type", Val::N("Sig") }, { "Contents", Val::S(bin(20, k), true) }, { "Name", Val::S("The signer") } }) });
    return r;
}
static string out(PdfMemDocument& d, bool update, const string& base, PdfSaveOptions o)
{
    charbuff b; b.assign(base.begin(), base.end());
    StringStreamDevice dev(b);
    if (update) { dev.Seek(0, SeekDirection::End); d.SaveUpdate(dev, o); } else d.Save(dev, o);
    return string(b.data(), b.size());
}
static bool secret(const Val& v, const string& bytes, string& which)
{
    bool sig = v.k == Dict && v.get("Type") && v.get("Type")->s == "Sig";
    if (v.k == Str && v.s.size() >= 8 && bytes.find(v.s) != string::npos) { which = v.s; return false; }
    for (auto& x : v.a) if (!secret(x, bytes, which)) return false;
    for (auto& x : v.m) if (!(sig && x.first == "Contents") && !secret(x.second, bytes, which)) return false;
    return true;
}
static Val strip(Val v) { v.m.erase("Length"); v.m.erase("Filter"); return v; }
static string diff(const Node& want, const Node& got)
{
    if (want.stream != got.stream) return "stream flag";
    Val a = want.stream ? strip(want.v) : want.v, b = want.stream ? strip(got.v) : got.v;
    if (!equal(a, b)) return "expected " + show(a) + " got " + show(b);
    if (want.data != got.data) return vf::fmt("stream data: expected %zu bytes got %zu: ", want.data.size(), got.data.size()) + vf::esc(got.data, 60);
    return "";
}
struct Exp { string user, owner; uint32_t perms; int V, R, n; bool encrypted = true; bool meta = true; };
// Independent reading of the file
static void checkFile(const string& bytes, const Model& m, const Exp& e, const string& when)
{
    File f = readFile(bytes);
    for (auto& p : f.problems) C->fail("structure", when + ": " + p);
    auto ep = f.trailer.get("Encrypt");
    if (!e.encrypted) { if (ep) C->fail("still-encrypted", when + ": Encrypt key after the encryption was removed"); }
    else
    {
        if (!ep) { C->fail("no-encrypt", when + ": no Encrypt key"); return; }
        auto idv = f.trailer.get("ID");
        if (!idv || idv->k != Arr || idv->a.size() != 2 || idv->a[0].k != Str) { C->fail("no-id", when + ": no ID"); return; }
        auto d = f.resolve(ep);
        if (!d || d->k != Dict) { C->fail("no-dict", when + ": Encrypt dictionary missing"); return; }
        try
        {
            auto h = sec::Handler::fromDict(*d, idv->a[0].s);
            // an RC4 crypt filter may be written as the equivalent revision 3
            if ((h.R != e.R && !(e.R == 4 && h.R == 3 && !h.aes)) || (int)h.n != e.n || h.meta != e.meta) C->fail("parameters", when + vf::fmt(": V %d R %d key %zu, expected V %d R %d key %d (metadata %d, %d)", h.V, h.R, h.n, e.V, e.R, e.n, h.meta, e.meta));
            if (h.P != (0xFFFFF0C0u | e.perms)) C->fail("perms", when + vf::fmt(": P %08x expected %08x", h.P, 0xFFFFF0C0u | e.perms));
            if (!(h.auth(e.user) & 1)) { C->fail("user-password", when + ": the user password does not open the file"); return; }
            if (!(h.auth(e.owner.empty() ? e.user : e.owner) & 2)) { C->fail("owner-password", when + ": the owner password is not the owner password of the file"); return; }
            string pp = h.permsProblem(); if (pp.size()) C->fail("perms", when + ": " + pp);
            f.problems.clear();
            sec::decryptFile(f, h, ep->k == Ref ? ep->i : 0);
            for (auto& p : f.problems) C->fail("decrypt", when + ": " + p);
        }
        catch (const Bad& x) { C->fail("handler", when + ": " + x.what()); return; }
        string w;
        for (auto& n : m)
        {
            if (!secret(n.second.v, bytes, w)) C->fail("clear-string", when + ": the string '" + vf::esc(w) + "' is in the file in the clear");
            if (n.second.stream && n.second.data.size() >= 16 && !n.second.v.get("Filter") && bytes.find(n.second.data) != string::npos) C->fail("clear-stream", when + ": stream in the clear");
        }
    }
    for (auto& n : m)
    {
        auto it = f.objs.find(n.first.first);
        if (it == f.objs.end()) { C->fail("missing", when + vf::fmt(": object %lld missing", (long long)n.first.first)); continue; }
        Node g; g.v = it->second.v; g.stream = it->second.stream;
        auto fl = n.second.v.get("Filter");
        if (g.stream) try { g.data = fl && fl->k == Arr && fl->a[0].s == "Crypt" ? it->second.raw : f.decoded(it->second); } catch (const Bad& x) { C->fail("stream", when + ": " + x.what()); }
        string d = diff(n.second, g);
        if (d.size()) C->fail("content", when + vf::fmt(": object %lld: ", (long long)n.first.first) + d);
    }
    C->trace();
}
static Node nodeOf(const PdfObject& o, bool raw)
{
    Node n; n.v = fromObject(o);
    if (o.HasStream()) { n.stream = true; auto c = o.GetStream()->GetCopy(raw); n.data.assign(c.data(), c.size()); }
    return n;
}
static void checkDoc(PdfMemDocument& d, const Model& m, const Exp& e, const string& when)
{
    for (auto& n : m)
    {
        auto o = d.GetObjects().GetObject(PdfReference((uint32_t)n.first.first, (uint16_t)n.first.second));
        if (!o) { C->fail("lost", when + vf::fmt(": object %lld missing", (long long)n.first.first)); continue; }
        try
        {
            auto fl = n.second.v.get("Filter");
            string x = diff(n.second, nodeOf(*o, fl && fl->k == Arr && fl->a[0].s == "Crypt"));
            if (x.size()) C->fail("read-content", when + vf::fmt(": object %lld: ", (long long)n.first.first) + x);
        }
        catch (const std::exception& ex) { C->fail("read-error", when + vf::fmt(": object %lld: ", (long long)n.first.first) + ex.what()); }
    }
    uint32_t p = e.encrypted ? e.perms : 0xFFF;
    auto chk = [&](bool got, PdfPermissions b, const char* w) { if (got != ((p & (uint32_t)b) != 0)) C->fail("permission", when + ": " + w + vf::fmt(" reads %d with permissions %x", got, p)); };
    chk(d.IsPrintAllowed(), PdfPermissions::Print, "print"); chk(d.IsEditAllowed(), PdfPermissions::Edit, "edit");
    chk(d.IsCopyAllowed(), PdfPermissions::Copy, "copy"); chk(d.IsEditNotesAllowed(), PdfPermissions::EditNotes, "notes");
    chk(d.IsFillAndSignAllowed(), PdfPermissions::FillAndSign, "fill"); chk(d.IsAccessibilityAllowed(), PdfPermissions::Accessible, "accessible");
    chk(d.IsDocAssemblyAllowed(), PdfPermissions::DocAssembly, "assembly"); chk(d.IsHighPrintAllowed(), PdfPermissions::HighPrint, "highprint");
    if (d.IsEncrypted() != e.encrypted) C->fail("is-encrypted", when + ": IsEncrypted");
}
// Every candidate password
static void checkOpen(const string& bytes, const Model& m, const Exp& e, const std::vector<string>& cand, const string& when)
{
    auto test = [&](const string& pw) {
        PdfMemDocument d;
        bool expect = !e.encrypted || sec::samePassword(e.R, pw, e.user) || sec::samePassword(e.R, pw, e.owner.empty() ? e.user : e.owner);
        string what;
        int err = vf::errorOf([&] { d.LoadFromBuffer(bytes, pw); }, &what);
        string w = when + ", opened with '" + vf::esc(pw) + "'";
        if (expect && err != -1) C->fail("refused", w + ": error " + vf::fmt("%d ", err) + vf::esc(what, 200));
        if (!expect && err == -1) C->fail("opened", w + ": a wrong password opens the file");
        if (!expect && err != -1 && err != (int)PdfErrorCode::InvalidPassword) C->fail("wrong-error", w + vf::fmt(": error %d instead of invalid password ", err) + vf::esc(what, 200));
        C->count(expect ? "opened" : "refused");
        if (expect && err == -1) checkDoc(d, m, e, w);
        C->outcome(vf::hash(w) ^ err);
    };
    test(e.user);
    if (e.owner != e.user && e.owner.size()) test(e.owner);
    for (auto& p : cand) if (p != e.user && p != e.owner) test(p);
    C->trace();
}
static void check(const string& bytes, const Model& m, const Exp& e, const std::vector<string>& cand, const string& when)
{
    C->state(vf::hash(bytes.substr(0, 200) + e.user + "|" + e.owner) ^ bytes.size() ^ vf::hash(when)); C->transition();
    if (P == "P19") checkFile(bytes, m, e, when); else checkOpen(bytes, m, e, cand, when);
}
static Model fill(PdfMemDocument& d, const std::vector<Node>& c)
{
    Model m;
    PdfArray refs;
    for (auto& n : c)
    {
        auto& o = d.GetObjects().CreateObject(toObject(n.v));
        if (n.stream) o.GetOrCreateStream().SetData(n.data);
        m[{ o.GetIndirectReference().ObjectNumber(), 0 }] = n;
        refs.Add(o.GetIndirectReference());
    }
    d.GetCatalog().GetDictionary().AddKey(PdfName("M"), refs);
    return m;
}
static void edit(PdfMemDocument& d, Model& m, int n)
{
    // change a string in place, add an object, replace a stream's data
    for (auto& x : m)
    {
        auto& o = d.GetObjects().MustGetObject(PdfReference((uint32_t)x.first.first, (uint16_t)x.first.second));
        if (x.second.stream && !x.second.v.get("Filter")) { string s = txt(100 + n, n); o.GetOrCreateStream().SetData(s); x.second.data = s; break; }
    }
    for (auto& x : m)
        if (!x.second.stream && x.second.v.k == Dict)
        {
            Val v = Val::S(txt(12, 90 + n));
            d.GetObjects().MustGetObject(PdfReference((uint32_t)x.first.first, (uint16_t)x.first.second)).GetDictionary().AddKey(PdfName("E"), toObject(v));
            x.second.v.m["E"] = v; break;
        }
    Node nn; nn.v = Val::D({ { "New", Val::S(txt(14 + n, 40 + n)) } }); nn.stream = n & 1; if (nn.stream) nn.data = txt(50 + n, n);
    auto& o = d.GetObjects().CreateObject(toObject(nn.v));
    if (nn.stream) o.GetOrCreateStream().SetData(nn.data);
    m[{ o.GetIndirectReference().ObjectNumber(), o.GetIndirectReference().GenerationNumber() }] = nn;
    d.GetCatalog().GetDictionary().AddKey(PdfName(vf::fmt("N%d_%u", n, o.GetIndirectReference().ObjectNumber())), o.GetIndirectReference());
}
static const PdfSaveOptions NOMOD = PdfSaveOptions::NoModifyDateUpdate;
static PdfSaveOptions both(PdfSaveOptions a, PdfSaveOptions b) { return (PdfSaveOptions)((int)a | (int)b); }
// --- follow-up operations on a saved encrypted file ------------------------
enum { OSAVE_U, OSAVE_O, OUPD_U, OUPD_O, OCOPY, OREMOVE, ORECRYPT, OUPDREMOVE, OUPDCHANGE, OSAVETWICE, OPLAIN, NFOLLOW };
static const char* FNAMES[] = { "save(user)", "save(owner)", "update(user)", "update(owner)", "copy+save(owner)", "remove", "recrypt", "update+remove", "update+change", "save twice(user)", "save unread(owner)" };
static bool follow(int op, int n, string& bytes, Model& m, Exp& e, const Alg& other)
{
    string u = e.encrypted ? e.user : "", o = e.encrypted ? (e.owner.empty() ? e.user : e.owner) : "";
    auto keep = std::make_shared<string>(bytes);
    PdfMemDocument d; d.LoadFromBuffer(*keep, op == OSAVE_U || op == OUPD_U || op == OSAVETWICE || op == OUPDREMOVE ? u : o);
    PdfSaveOptions opt = both(NOMOD, n & 1 ? PdfSaveOptions::NoFlateCompress : PdfSaveOptions::None);
    switch (op)
    {
        case OSAVE_U: case OSAVE_O: edit(d, m, n); bytes = out(d, false, "", opt); return true;
        case OUPD_U: case OUPD_O: edit(d, m, n); bytes = out(d, true, *keep, opt); return true;
        case OCOPY: { PdfMemDocument c(d); edit(c, m, n); bytes = out(c, false, "", opt); return true; }
        case OREMOVE: d.SetEncrypt(nullptr); edit(d, m, n); bytes = out(d, false, "", opt); e = { "", "", 0, 0, 0, 0, false, true }; return true;
        case ORECRYPT: d.SetEncrypted("newuser", "newowner", PdfPermissions::Copy, other.a, other.l); edit(d, m, n); bytes = out(d, false, "", opt); e = { "newuser", "newowner", (uint32_t)PdfPermissions::Copy, other.V, other.R, other.n, true, true }; return true;
        case OUPDREMOVE: case OUPDCHANGE:
        {
            // Appending to a file cannot change the encryption of what is there:
            // an error, or else a readable file
            if (op == OUPDREMOVE) { if (!e.encrypted) return false; d.SetEncrypt(nullptr); }
            else d.SetEncrypted("newuser", "newowner", PdfPermissions::Copy, other.a, other.l);
            Model m2 = m; edit(d, m2, n);
            string nb;
            int err = vf::errorOf([&] { nb = out(d, true, *keep, opt); });
            if (err == -1) { bytes = nb; m = m2; if (op == OUPDREMOVE) e = { "", "", 0, 0, 0, 0, false, true }; else e = { "newuser", "newowner", (uint32_t)PdfPermissions::Copy, other.V, other.R, other.n, true, true }; return true; }
            C->count("refused-update"); return false;
        }
        case OSAVETWICE: edit(d, m, n); out(d, false, "", opt); edit(d, m, n + 20); bytes = out(d, false, "", opt); return true;
        case OPLAIN: bytes = out(d, false, "", NOMOD); return true;
    }
    return false;
}
// --- files of another producer --------------------------------------------
struct Foreign { const char* name; int V, R; size_t n; bool aes, meta; bool noLength; };
static const Foreign FOREIGN[] = {
    { "v1r2", 1, 2, 5, false, true, false }, { "v1r3", 1, 3, 5, false, true, false }, { "v2r3-40", 2, 3, 5, false, true, false }, { "v2r3-nolength", 2, 3, 5, false, true, true },
    { "v2r3-64", 2, 3, 8, false, true, false }, { "v2r3-128", 2, 3, 16, false, true, false }, { "v4v2", 4, 4, 16, false, true, false }, { "v4v2-nometa", 4, 4, 16, false, false, false },
    { "v4aes", 4, 4, 16, true, true, false }, { "v4aes-nometa", 4, 4, 16, true, false, false }, { "v5r5", 5, 5, 32, true, true, false }, { "v5r6", 5, 6, 32, true, true, false }, { "v5r6-nometa", 5, 6, 32, true, false, false } };
static const int NFOREIGN = sizeof(FOREIGN) / sizeof(*FOREIGN);
static void encStrings(Val& v, const sec::Handler& h, int64_t n, int g, int& seed)
{
    bool sig = v.k == Dict && v.get("Type") && v.get("Type")->s == "Sig";
    if (v.k == Str) v.s = h.encrypt(v.s, n, g, seed++);
    for (auto& x : v.a) encStrings(x, h, n, g, seed);
    for (auto& x : v.m) if (!(sig && x.first == "Contents")) encStrings(x.second, h, n, g, seed);
}
// layout: 0 table + indirect Encrypt, 1 table + direct Encrypt, 2 xref stream + object stream
static const int BIGNUM = 31;
static string foreign(const Foreign& f, const string& u, const string& o, uint32_t perms, int layout, int k, Model& m)
{
    sec::Handler h; h.V = f.V; h.R = f.R; h.n = f.n; h.aes = f.aes; h.meta = f.meta; h.P = 0xFFFFF0C0u | perms; h.id = bin(16, k + 3);
    h.create(u, o, k);
    Val ed = h.dict(); if (f.noLength) ed.m.erase("Length");
    Builder b("%PDF-1.7\n%\xE2\xE3\xCF\xD3\n");
    int seed = 1;
    std::map<int64_t, XEnt> ents; ents[0] = { 'f', 0, 65535 };
    auto put = [&](int64_t n, int g, Val v, bool plain = false) { if (!plain) encStrings(v, h, n, g, seed); b.obj(n, v, g); ents[n] = { 'n', b.offs[n].first, g }; };
    auto puts = [&](int64_t n, int g, Val v, string data, bool crypt = true) { if (crypt) data = h.encrypt(data, n, g, seed++); encStrings(v, h, n, g, seed); b.stream(n, v, data, g); ents[n] = { 'n', b.offs[n].first, g }; };
    auto cs = content(k);
    Val refs = Val::A();
    // The keys depend on 3 bytes of the object number and on 2 of the generation
    int big = k == BIGNUM ? 70001 : 260;
    std::pair<int, int> ids[6] = { { 5, 0 }, { 6, layout == 2 ? 0 : 7 }, { big, 0 }, { 8, layout == 2 ? 0 : 300 }, { 9, 0 }, { 10, 0 } };
    std::vector<std::pair<int, Val>> packed;
    for (int i = 0; i < 6; i++)
    {
        auto& c = cs[i]; m[{ ids[i].first, ids[i].second }] = c; refs.a.push_back(Val::Rf(ids[i].first, ids[i].second));
        if (c.stream) { string d = c.data; Val v = c.v; if (i == 4) { d = deflate(d); v.m["Filter"] = Val::N("FlateDecode"); m[{ ids[i].first, ids[i].second }].v.m["Filter"] = v.m["Filter"]; } puts(ids[i].first, ids[i].second, v, d); }
        else if (layout == 2 && i != 5) packed.push_back({ ids[i].first, c.v });
        else put(ids[i].first, ids[i].second, c.v);
    }
    Val cat = Val::D({ { "Type", Val::N("Catalog") }, { "Pages", Val::Rf(2) }, { "M", refs } });
    if (!f.meta)
    {
        Node n; n.stream = true; n.v = Val::D({ { "Filter", Val::A({ Val::N("Crypt") }) }, { "Type", Val::N("Metadata") }, { "Subtype", Val::N("XML") } }); n.data = "<?xpacket begin?> the metadata";
        puts(12, 0, n.v, n.data, false); cat.m["Q"] = Val::Rf(12); m[{ 12, 0 }] = n;
    }
    put(1, 0, cat); put(2, 0, Val::D({ { "Type", Val::N("Pages") }, { "Count", Val::I(0) }, { "Kids", Val::A() } }));
    put(3, 0, Val::D({ { "Title", Val::S("The title") } }));
    if (packed.size())
    {
        string head, body; int i = 0;
        for (auto& p : packed) { head += vf::fmt("%d %zu ", p.first, body.size()); body += write(p.second) + " "; ents[p.first] = { 'c', 20, i++ }; }
        puts(20, 0, Val::D({ { "Type", Val::N("ObjStm") }, { "N", Val::I(packed.size()) }, { "First", Val::I(head.size()) }, { "Filter", Val::N("FlateDecode") } }), deflate(head + body));
    }
    Val tr = Val::D({ { "Root", Val::Rf(1) }, { "Info", Val::Rf(3) }, { "Size", Val::I(big + 1) }, { "ID", Val::A({ Val::S(h.id, true), Val::S(h.id, true) }) } });
    if (layout == 1) tr.m["Encrypt"] = ed; else { put(4, 0, ed, true); tr.m["Encrypt"] = Val::Rf(4); }
    size_t x;
    if (layout == 2) { tr.m["Size"] = Val::I(big + 1); x = b.xrefStream(21, tr, ents); } else x = b.xrefTable(tr, ents);
    b.startxref(x);
    return b.out;
}
static void explore(vf::Ctx& c)
{
    C = &c; P = vf::prop("P18"); passwords();
    bool deep = c.thorough;
    std::vector<string> wrong = { "", "u", "U", "wrong", "owner pass" };
    // A. algorithms x password pairs, all candidate passwords
    for (int a = 0; a < NALG; a++)
        for (size_t u = 0; u < PWS.size(); u++)
            for (size_t o = 0; o < PWS.size(); o++)
            {
                if (P == "P19" && !deep && a >= 9 && (u + o) % 3) { continue; }
                if (a >= 9 && u + o > 3 && !deep) continue;
                c.run("passwords", [&] { return vf::fmt("%s user '%s' owner '%s'", ALGS[a].name, vf::esc(PWS[u]).c_str(), vf::esc(PWS[o]).c_str()); }, [&] {
                    PdfMemDocument d; auto m = fill(d, content((int)(u + o * 5)));
                    uint32_t perms = (uint32_t)PdfPermissions::Default & ~((u & 1) * 4) & ~((o & 1) * 16);
                    d.SetEncrypted(PWS[u], PWS[o], (PdfPermissions)perms, ALGS[a].a, ALGS[a].l);
                    bool valid = true;
                    if (ALGS[a].R >= 5) try { sec::sasl(PWS[u]); sec::sasl(PWS[o]); } catch (Bad&) { valid = false; }
                    string b;
                    int err = vf::errorOf([&] { b = out(d, false, "", NOMOD); });
                    if (!valid) { if (err != (int)PdfErrorCode::InvalidPassword) C->fail("bad-utf8", vf::fmt("a password that is no UTF-8 text gives %d", err)); C->count("refused-password"); return; }
                    if (err != -1) { C->fail("save-error", vf::fmt("error %d", err)); return; }
                    Exp e{ PWS[u], PWS[o], perms, ALGS[a].V, ALGS[a].R, ALGS[a].n, true, true };
                    std::vector<string> cand = PWS; if (ALGS[a].R == 6 && !deep) cand = { "", PWS[3], PWS[4], PWS[6], PWS[7], PWS[8], PWS[9], "U" };
                    cand.push_back(PWS[o] + "x"); cand.push_back("\xff\xfe");
                    check(b, m, e, cand, "after the first save");
                });
            }
    // B. content sizes x algorithms
    for (int a = 0; a < 9; a++)
        for (int k = 0; k < 60; k++)
            c.run("content", [&] { return vf::fmt("%s content %d", ALGS[a].name, k); }, [&] {
                PdfMemDocument d; auto m = fill(d, content(k));
                d.SetEncrypted("us", "ow", PdfPermissions::Default, ALGS[a].a, ALGS[a].l);
                string b = out(d, false, "", k & 1 ? both(NOMOD, PdfSaveOptions::NoFlateCompress) : k & 2 ? both(NOMOD, PdfSaveOptions::Clean) : NOMOD);
                check(b, m, { "us", "ow", (uint32_t)PdfPermissions::Default, ALGS[a].V, ALGS[a].R, ALGS[a].n, true, true }, {}, "after the first save");
            });
    // C. every permission set
    for (int a = 0; a < 9; a++)
        for (int p = 0; p < 256; p++)
        {
            if (!deep && a != 0 && a != 5 && a != 6 && a != 7 && !(a == 8 && p % 16 == 5)) continue;
            uint32_t perms = 0; static const uint32_t BITS[] = { 4, 8, 16, 32, 0x100, 0x200, 0x400, 0x800 };
            for (int i = 0; i < 8; i++) if (p >> i & 1) perms |= BITS[i];
            c.run("permissions", [&] { return vf::fmt("%s permissions %x", ALGS[a].name, perms); }, [&] {
                PdfMemDocument d; auto m = fill(d, content(2));
                d.SetEncrypted("", "ow", (PdfPermissions)perms, ALGS[a].a, ALGS[a].l);
                string b = out(d, false, "", NOMOD);
                check(b, m, { "", "ow", perms, ALGS[a].V, ALGS[a].R, ALGS[a].n, true, true }, {}, "after the first save");
            });
        }
    // D. sequences of re-saves
    auto seqs = [&](const char* tag, const string& name, int depth, const std::function<string(Model&)>& make, const Exp& e0, int other) {
        for (int k = 1; k <= depth; k++)
            vf::sequences(NFOLLOW, k, [&](const std::vector<unsigned>& s) {
                c.run(tag, [&] { string r = name; for (auto x : s) r += string(" ") + FNAMES[x]; return r; }, [&] {
                    Model m; string b = make(m); Exp e = e0;
                    if (s.size() == 1) check(b, m, e, wrong, "at the start");
                    for (size_t i = 0; i < s.size(); i++)
                        if (!follow(s[i], (int)i, b, m, e, ALGS[(other + i) % 9])) break;
                        else if (i + 1 == s.size()) check(b, m, e, wrong, vf::fmt("after step %zu", i + 1));
                });
            });
    };
    static const char* PAIRS[][2] = { { "us", "ow" }, { "", "ow" }, { "us", "" }, { "", "" }, { "same", "same" } };
    for (int a = 0; a < 9; a++)
        for (int p = 0; p < 5; p++)
        {
            int depth = deep ? 3 : p < 2 && a != 8 ? 2 : p == 0 ? 2 : 1;
            Exp e{ PAIRS[p][0], PAIRS[p][1], (uint32_t)PdfPermissions::Print, ALGS[a].V, ALGS[a].R, ALGS[a].n, true, true };
            seqs("resave", vf::fmt("%s pair %d", ALGS[a].name, p), depth, [&](Model& m) {
                PdfMemDocument d; m = fill(d, content(a + p));
                d.SetEncrypted(PAIRS[p][0], PAIRS[p][1], PdfPermissions::Print, ALGS[a].a, ALGS[a].l);
                return out(d, false, "", NOMOD);
            }, e, a + 1);
        }
    // E. files of another producer: opened, re-saved, updated
    for (int f = 0; f < NFOREIGN; f++)
        for (int p = 0; p < 5; p++)
            for (int l = 0; l < 3; l++)
            {
                auto& F = FOREIGN[f];
                Exp e{ PAIRS[p][0], PAIRS[p][1], 0x214, F.V, F.R, (int)F.n, true, F.meta };
                int depth = deep ? 2 : p == 0 ? 2 : 1;
                seqs("foreign", vf::fmt("%s layout %d pair %d", F.name, l, p), depth, [&](Model& m) { return foreign(F, PAIRS[p][0], PAIRS[p][1], 0x214, l, f + p * 3, m); }, e, f % 9);
            }
    // F. foreign content sizes
    for (int f = 0; f < NFOREIGN; f++)
        for (int k = 0; k < 60; k++)
            c.run("foreign-content", [&] { return vf::fmt("%s content %d", FOREIGN[f].name, k); }, [&] {
                Model m; string b = foreign(FOREIGN[f], "us", "ow", 0x10, k % 3, k, m);
                check(b, m, { "us", "ow", 0x10, FOREIGN[f].V, FOREIGN[f].R, (int)FOREIGN[f].n, true, FOREIGN[f].meta }, {}, "foreign file");
            });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = vf::prop("P18");
    cfg.rule = cfg.prop == "P18" ? "for every enumerated algorithm, password pair, permission set, content and sequence of re-saves, the library opens the file with exactly the passwords set, with the same content and permissions, and refuses every other candidate with InvalidPassword"
        : "for every enumerated algorithm, password pair, permission set, content and sequence of re-saves, an independent security handler authenticates both passwords and decrypts every string and stream to the original, and no string or stream is in the clear";
    cfg.assumptions = { "the reference handler (src/lib_sec.cpp) follows ISO 32000 7.6, with the key-length hashing of Algorithm 3 that existing readers use" };
    return vf::main(argc, argv, cfg, explore);
}
