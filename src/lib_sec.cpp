#include "sec.h"
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <stringprep.h>
#include <idn-free.h>
using namespace sec;
using namespace ref;
static const unsigned char PADS[33] = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A";
static string dg(const EVP_MD* m, const string& s)
{
    unsigned char o[64]; unsigned l = 0;
    EVP_Digest(s.data(), s.size(), o, &l, m, nullptr);
    return string((char*)o, l);
}
string sec::md5(const string& s) { return dg(EVP_md5(), s); }
string sec::rc4(const string& key, const string& data)
{
    unsigned char S[256]; for (int i = 0; i < 256; i++) S[i] = i;
    for (int i = 0, j = 0; i < 256; i++) { j = (j + S[i] + (unsigned char)key[i % key.size()]) & 255; std::swap(S[i], S[j]); }
    string o = data; int a = 0, b = 0;
    for (auto& c : o) { a = (a + 1) & 255; b = (b + S[a]) & 255; std::swap(S[a], S[b]); c ^= S[(S[a] + S[b]) & 255]; }
    return o;
}
static string aesCrypt(const string& key, const string& iv, const string& data, bool enc, bool padding)
{
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    auto ci = key.size() == 16 ? EVP_aes_128_cbc() : EVP_aes_256_cbc();
    string o(data.size() + 32, 0); int l = 0, m = 0;
    EVP_CipherInit_ex(c, ci, nullptr, (unsigned char*)key.data(), (unsigned char*)iv.data(), enc);
    EVP_CIPHER_CTX_set_padding(c, padding);
    bool ok = EVP_CipherUpdate(c, (unsigned char*)&o[0], &l, (unsigned char*)data.data(), data.size()) == 1
        && EVP_CipherFinal_ex(c, (unsigned char*)&o[l], &m) == 1;
    EVP_CIPHER_CTX_free(c);
    if (!ok) throw Bad("bad AES data");
    o.resize(l + m);
    return o;
}
string sec::pad(const string& pw) { return (pw + string((const char*)PADS, 32)).substr(0, 32); }
string sec::sasl(const string& pw)
{
    char* o = nullptr;
    if (stringprep_profile(pw.c_str(), &o, "SASLprep", STRINGPREP_NO_UNASSIGNED) != STRINGPREP_OK) throw Bad("no valid password");
    string r = string(o).substr(0, 127);
    idn_free(o);
    return r;
}
bool sec::samePassword(int R, const string& a, const string& b)
{
    if (R <= 4) return pad(a) == pad(b);
    try { return sasl(a) == sasl(b); } catch (Bad&) { return false; }
}
// Algorithm 2.B (R6), SHA-256 alone for R5
static string hash2b(int R, const string& pw, const string& salt, const string& u)
{
    string K = dg(EVP_sha256(), pw + salt + u);
    if (R == 5) return K;
    for (int i = 0;; i++)
    {
        string one = pw + K + u, k1;
        for (int j = 0; j < 64; j++) k1 += one;
        string E = aesCrypt(K.substr(0, 16), K.substr(16, 16), k1, true, false);
        unsigned rem = 0;                                 // first 16 bytes as a big number modulo 3
        for (int j = 0; j < 16; j++) rem = (rem * 256 + (unsigned char)E[j]) % 3;
        K = dg(rem == 0 ? EVP_sha256() : rem == 1 ? EVP_sha384() : EVP_sha512(), E);
        if (i >= 63 && (unsigned char)E.back() <= i - 31) break;   // i counts from 0; rounds done = i + 1
    }
    return K.substr(0, 32);
}
static string fileKey(const Handler& h, const string& padded)
{
    string p; for (int i = 0; i < 4; i++) p += (char)(h.P >> 8 * i);
    string k = md5(padded + h.O.substr(0, 32) + p + h.id + (h.R >= 4 && !h.meta ? "\xff\xff\xff\xff" : ""));
    if (h.R >= 3) for (int i = 0; i < 50; i++) k = md5(k.substr(0, h.n));
    return k.substr(0, h.n);
}
static string userValue(const Handler& h, const string& key)
{
    if (h.R == 2) return rc4(key, string((const char*)PADS, 32));
    string x = md5(string((const char*)PADS, 32) + h.id);
    for (int i = 0; i < 20; i++) { string k = key; for (auto& c : k) c ^= i; x = rc4(k, x); }
    return x;
}
static string ownerRc4Key(const Handler& h, const string& pw)
{
    string k = md5(pad(pw));
    // The specification hashes 16 bytes here; readers and writers in use hash the key length
    if (h.R >= 3) for (int i = 0; i < 50; i++) k = md5(k.substr(0, h.n));
    return k.substr(0, h.R == 2 ? 5 : h.n);
}
int Handler::auth(const string& pw)
{
    int r = 0;
    if (R <= 4)
    {
        auto tryPad = [&](const string& p) {
            string k = fileKey(*this, p), u = userValue(*this, k);
            if (u.substr(0, R == 2 ? 32 : 16) != U.substr(0, R == 2 ? 32 : 16)) return false;
            key = k; return true;
        };
        string ok = ownerRc4Key(*this, pw), up = O.substr(0, 32);
        if (R == 2) up = rc4(ok, up);
        else for (int i = 19; i >= 0; i--) { string k = ok; for (auto& c : k) c ^= i; up = rc4(k, up); }
        if (tryPad(up)) r |= 2;
        if (tryPad(pad(pw))) r |= 1;
    }
    else
    {
        string s = sasl(pw), z(16, 0), u = U.substr(0, 48);
        if (hash2b(R, s, O.substr(32, 8), u) == O.substr(0, 32)) { r |= 2; key = aesCrypt(hash2b(R, s, O.substr(40, 8), u), z, OE.substr(0, 32), false, false); }
        if (hash2b(R, s, U.substr(32, 8), "") == U.substr(0, 32)) { r |= 1; key = aesCrypt(hash2b(R, s, U.substr(40, 8), ""), z, UE.substr(0, 32), false, false); }
    }
    return r;
}
void Handler::create(const string& user, const string& owner, int seed)
{
    const string& ow = owner.empty() ? user : owner;
    if (R <= 4)
    {
        string ok = ownerRc4Key(*this, ow), x = pad(user);
        if (R == 2) x = rc4(ok, x);
        else for (int i = 0; i < 20; i++) { string k = ok; for (auto& c : k) c ^= i; x = rc4(k, x); }
        O = x;
        key = fileKey(*this, pad(user));
        U = userValue(*this, key); U.resize(32, '\x5a');
    }
    else
    {
        auto rnd = [&](const char* what, size_t l) { return dg(EVP_sha512(), what + std::to_string(seed)).substr(0, l); };
        string z(16, 0), us = sasl(user), os = sasl(ow);
        key = rnd("key", 32);
        string uv = rnd("uv", 8), uk = rnd("uk", 8), ov = rnd("ov", 8), okk = rnd("ok", 8);
        U = hash2b(R, us, uv, "") + uv + uk;
        UE = aesCrypt(hash2b(R, us, uk, ""), z, key, true, false);
        O = hash2b(R, os, ov, U) + ov + okk;
        OE = aesCrypt(hash2b(R, os, okk, U), z, key, true, false);
        string p; for (int i = 0; i < 4; i++) p += (char)(P >> 8 * i);
        p += string("\xff\xff\xff\xff") + (meta ? 'T' : 'F') + "adb" + rnd("p", 4);
        Perms = aesCrypt(key, z, p, true, false);     // one block: CBC with zero IV is ECB
    }
}
Val Handler::dict() const
{
    Val d = Val::D({ { "Filter", Val::N("Standard") }, { "V", Val::I(V) }, { "R", Val::I(R) }, { "P", Val::I((int32_t)P) }, { "O", Val::S(O, true) }, { "U", Val::S(U, true) } });
    if (V == 2) d.m["Length"] = Val::I(n * 8);
    if (V >= 4)
    {
        Val cf = Val::D({ { "CFM", Val::N(!aes ? "V2" : V == 4 ? "AESV2" : "AESV3") }, { "AuthEvent", Val::N("DocOpen") }, { "Length", Val::I(n) } });
        d.m["Length"] = Val::I(n * 8);
        d.m["CF"] = Val::D({ { "StdCF", cf } }); d.m["StmF"] = Val::N("StdCF"); d.m["StrF"] = Val::N("StdCF");
        if (!meta) d.m["EncryptMetadata"] = Val::B(false);
    }
    if (V == 5) { d.m["OE"] = Val::S(OE, true); d.m["UE"] = Val::S(UE, true); d.m["Perms"] = Val::S(Perms, true); }
    return d;
}
Handler Handler::fromDict(const Val& d, const string& id0)
{
    Handler h; h.id = id0;
    auto need = [&](const char* k, Kind t) -> const Val& { auto v = d.get(k); if (!v || v->k != t) throw Bad(string("Encrypt: ") + k + " missing or of the wrong type"); return *v; };
    if (need("Filter", Name).s != "Standard") throw Bad("Encrypt: Filter");
    h.V = need("V", Int).i; h.R = need("R", Int).i;
    int64_t p = need("P", Int).i;
    if (p < INT32_MIN || p > UINT32_MAX) throw Bad("Encrypt: P is no 32-bit value");
    h.P = (uint32_t)p;
    h.O = need("O", Str).s; h.U = need("U", Str).s;
    size_t want = h.V == 5 ? 48 : 32;
    if (h.O.size() != want || h.U.size() != want) throw Bad("Encrypt: O or U length");
    int64_t len = d.num("Length", 40);
    if (auto m = d.get("EncryptMetadata")) h.meta = m->b;
    if (h.V == 1) { if (h.R != 2 && h.R != 3) throw Bad("Encrypt: V 1 with R"); h.n = 5; }
    else if (h.V == 2) { if (h.R != 3) throw Bad("Encrypt: V 2 with R"); if (len < 40 || len > 128 || len % 8) throw Bad("Encrypt: Length"); h.n = len / 8; }
    else if (h.V == 4 || h.V == 5)
    {
        if (h.V == 4 ? h.R != 4 : h.R != 5 && h.R != 6) throw Bad("Encrypt: V with R");
        auto& cf = need("CF", Dict); string sf = need("StmF", Name).s;
        if (need("StrF", Name).s != sf) throw Bad("Encrypt: StrF differs");
        auto f = cf.get(sf); if (!f || !f->get("CFM")) throw Bad("Encrypt: crypt filter missing");
        string m = f->get("CFM")->s;
        if (h.V == 4 && m == "V2") { h.n = len / 8; if (len < 40 || len > 128) throw Bad("Encrypt: Length"); }
        else if (h.V == 4 && m == "AESV2") { h.aes = true; h.n = 16; }
        else if (h.V == 5 && m == "AESV3") { h.aes = true; h.n = 32; }
        else throw Bad("Encrypt: CFM " + m);
    }
    else throw Bad("Encrypt: V");
    if (h.V == 5)
    {
        h.OE = need("OE", Str).s; h.UE = need("UE", Str).s; h.Perms = need("Perms", Str).s;
        if (h.OE.size() != 32 || h.UE.size() != 32 || h.Perms.size() != 16) throw Bad("Encrypt: OE, UE or Perms length");
    }
    return h;
}
string Handler::permsProblem() const
{
    if (V != 5) return "";
    string p = aesCrypt(key, string(16, 0), Perms, false, false);
    for (int i = 0; i < 4; i++) if ((unsigned char)p[i] != (P >> 8 * i & 255)) return "Perms holds other permissions than P";
    if (p.substr(9, 3) != "adb") return "Perms has no adb mark";
    if (p[8] != (meta ? 'T' : 'F')) return "Perms disagrees with EncryptMetadata";
    return "";
}
string Handler::objKey(int64_t num, int gen) const
{
    if (V == 5) return key;
    string k = key;
    for (int i = 0; i < 3; i++) k += (char)(num >> 8 * i);
    for (int i = 0; i < 2; i++) k += (char)(gen >> 8 * i);
    if (aes) k += "sAlT";
    return md5(k).substr(0, std::min<size_t>(n + 5, 16));
}
string Handler::decrypt(const string& data, int64_t num, int gen) const
{
    string k = objKey(num, gen);
    if (!aes) return rc4(k, data);
    if (data.empty()) return data;
    if (data.size() < 32 || data.size() % 16) throw Bad(vf::fmt("AES data of %zu bytes", data.size()));
    return aesCrypt(k, data.substr(0, 16), data.substr(16), false, true);
}
string Handler::encrypt(const string& data, int64_t num, int gen, int seed) const
{
    string k = objKey(num, gen);
    if (!aes) return rc4(k, data);
    string iv = md5("iv" + std::to_string(seed));
    return iv + aesCrypt(k, iv, data, true, true);
}
static bool identityCrypt(const Val& d)
{
    auto f = d.get("Filter");
    if (!f) return false;
    if (f->k == Name) return f->s == "Crypt";
    for (auto& x : f->a) if (x.s == "Crypt") return true;
    return false;
}
static void strings(Val& v, const Handler& h, int64_t n, int g)
{
    bool sig = v.k == Dict && v.get("Type") && (v.get("Type")->s == "Sig" || v.get("Type")->s == "DocTimeStamp");
    if (v.k == Str) v.s = h.decrypt(v.s, n, g);
    for (auto& x : v.a) strings(x, h, n, g);
    for (auto& x : v.m) if (!(sig && x.first == "Contents" && x.second.k == Str && x.second.hex)) strings(x.second, h, n, g);
}
void sec::decryptFile(File& f, const Handler& h, int64_t encryptNum)
{
    for (auto& p : f.objs)
    {
        auto& o = p.second;
        auto t = o.v.get("Type");
        if (p.first == encryptNum || o.compressed || (o.stream && t && t->s == "XRef")) continue;
        try
        {
            strings(o.v, h, p.first, f.xref[p.first].g);
            if (o.stream && !(!h.meta && identityCrypt(o.v))) o.raw = h.decrypt(o.raw, p.first, f.xref[p.first].g);
        }
        catch (const Bad& e) { f.problem(vf::fmt("object %lld: ", (long long)p.first) + e.what()); }
    }
    for (auto& en : f.xref)
    {
        if (en.second.t != 'c') continue;
        auto it = f.objs.find(en.second.off);
        try
        {
            if (it == f.objs.end() || !it->second.stream) throw Bad("container missing");
            string data = f.decoded(it->second);
            int64_t F = it->second.v.num("First", -1);
            Lex l(data, 0, false); int64_t on = -1, oo = -1;
            for (int i = 0; i <= en.second.g; i++) { on = l.value().i; oo = l.value().i; }
            if (on != en.first) throw Bad("index points at another object");
            Lex lv(data, F + oo);
            Obj o; o.v = lv.value(); o.compressed = true; o.container = en.second.off;
            f.objs[en.first] = o;
        }
        catch (const Bad& e) { f.problem(vf::fmt("compressed object %lld: ", (long long)en.first) + e.what()); }
    }
}
