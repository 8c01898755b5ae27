// P23: devices against a byte array with a position.
#include "ref.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <pdfmm/base/PdfStringStream.h>
using namespace mm; using std::string;
static vf::Ctx* C;
struct Dev
{
    virtual ~Dev() {}
    StreamDevice* d = nullptr;
    bool r = true, w = true, seekOver = true /* seeks beyond the end are refused */, fixed = false;
    size_t pos = 0;                // initial position
    std::function<string()> content;   // what the medium holds; empty if it cannot be seen
    std::function<void()> cleanup;
    std::unique_ptr<StreamDevice> own; string str; std::vector<char> vec; charbuff buf; std::stringstream ss; std::istringstream is; std::ostringstream os;
};
static const char* DN[] = { "view", "span-rw", "span-w", "span-str", "string-rw", "string-r", "string-w", "string-ate0", "vector-rw", "buffer-rw", "istream", "iostream", "ostream", "file-read", "file-open", "file-create", "file-append", "file-truncate", "file-createnew", "file-openorcreate", "file-open-w", "file-ifstream", "null" };
enum { NDEV = sizeof(DN) / sizeof(*DN), FIRSTFILE = 13, LASTFILE = 21 };
static std::unique_ptr<Dev> make(int k, const string& init, string& start)
{
    auto v = std::make_unique<Dev>(); Dev* p = v.get(); start = init; string path = C->scratch() + "/f";
    auto file = [&](FileMode m, int access) { p->own.reset(access < 0 ? new FileStreamDevice(path, m) : new FileStreamDevice(path, m, (DeviceAccess)access)); p->seekOver = false; p->content = [p, path] { if (p->w) p->d->Flush(); std::ifstream f(path, std::ios::binary); return string(std::istreambuf_iterator<char>(f), {}); }; };
    if (k >= FIRSTFILE && k <= LASTFILE) { unlink(path.c_str()); std::ofstream f(path, std::ios::binary); f << init; }
    switch (k)
    {
        case 0: v->str = init; v->own.reset(new SpanStreamDevice(std::string_view(v->str))); v->w = false; break;
        case 1: v->str = init; v->own.reset(new SpanStreamDevice(p->str.data(), p->str.size())); v->fixed = true; v->content = [p] { return p->str; }; break;
        case 2: v->str = init; v->own.reset(new SpanStreamDevice(p->str.data(), p->str.size(), DeviceAccess::Write)); v->fixed = true; v->r = false; v->content = [p] { return p->str; }; break;
        case 3: v->str = init; v->own.reset(new SpanStreamDevice(p->str)); v->fixed = true; v->content = [p] { return p->str; }; break;
        case 4: v->str = init; v->own.reset(new StringStreamDevice(p->str)); v->pos = init.size(); v->content = [p] { return p->str; }; break;
        case 5: v->str = init; v->own.reset(new StringStreamDevice(const_cast<const string&>(p->str))); v->w = false; break;
        case 6: v->str = init; v->own.reset(new StringStreamDevice(p->str, DeviceAccess::Write, true)); v->r = false; v->pos = init.size(); v->content = [p] { return p->str; }; break;
        case 7: v->str = init; v->own.reset(new StringStreamDevice(p->str, DeviceAccess::ReadWrite, false)); v->content = [p] { return p->str; }; break;
        case 8: v->vec.assign(init.begin(), init.end()); v->own.reset(new VectorStreamDevice(p->vec)); v->pos = init.size(); v->content = [p] { return string(p->vec.begin(), p->vec.end()); }; break;
        case 9: v->buf.assign(init.data(), init.size()); v->own.reset(new BufferStreamDevice(p->buf, DeviceAccess::ReadWrite, false)); v->content = [p] { return string(p->buf); }; break;
        case 10: v->is.str(init); v->own.reset(new StandardStreamDevice((std::istream&)p->is)); v->w = false; break;
        case 11: v->ss.str(init); v->own.reset(new StandardStreamDevice((std::iostream&)p->ss)); v->content = [p] { return p->ss.str(); }; break;
        case 12: v->os.str(init); v->own.reset(new StandardStreamDevice((std::ostream&)p->os)); v->r = false; v->content = [p] { return p->os.str(); }; break;
        case 13: file(FileMode::Open, (int)DeviceAccess::Read); v->w = false; break;
        case 14: file(FileMode::Open, -1); break;
        case 15: file(FileMode::Create, -1); start = ""; break;
        case 16: file(FileMode::Append, -1); v->r = false; v->pos = init.size(); break;
        case 17: file(FileMode::Truncate, -1); start = ""; break;
        case 18: unlink(path.c_str()); file(FileMode::CreateNew, -1); start = ""; break;
        case 19: if (init == "a") { unlink(path.c_str()); start = ""; } file(FileMode::OpenOrCreate, -1); break;
        case 20: file(FileMode::Open, (int)DeviceAccess::Write); v->r = false; break;
        case 21: { auto f = new std::ifstream(path, std::ios::binary); v->cleanup = [f] { delete f; }; v->own.reset(new StandardStreamDevice((std::istream&)*f)); v->w = false; v->seekOver = false; break; }
        case 22: v->own.reset(new NullStreamDevice()); start = ""; break;
    }
    v->d = v->own.get();
    return v;
}
struct Op { int kind; ssize_t n; int dir; string data; };
enum { Read, ReadEof, ReadChar, ReadCh, Peek, Eof, Pos, Len, Seek, Write, Flush, Copy, CopyAll };
static string nameOp(const Op& o)
{
    static const char* N[] = { "Read", "ReadEof", "ReadChar", "ReadCh", "Peek", "Eof", "GetPosition", "GetLength", "Seek", "Write", "Flush", "CopyTo", "CopyToAll" };
    if (o.kind == Seek) return vf::fmt("Seek(%zd,%s)", o.n, o.dir == 0 ? "begin" : o.dir == 1 ? "current" : "end");
    if (o.kind == Write) return vf::fmt("Write(%zu)", o.data.size());
    if (o.kind == Read || o.kind == ReadEof || o.kind == Copy) return vf::fmt("%s(%zd)", N[o.kind], o.n);
    return N[o.kind];
}
static string diff(const string& a, const string& b) { if (a.size() != b.size()) return vf::fmt("%zu bytes, not %zu", a.size(), b.size()); for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return vf::fmt("byte %zu is %02x, not %02x", i, (unsigned char)a[i], (unsigned char)b[i]); return ""; }
static void history(int k, const string& init, const std::vector<Op>& ops)
{
    string m; auto v = make(k, init, m); size_t pos = v->pos; bool isNull = k == 22;
    auto& d = *v->d; std::vector<char> buf(40000);
    auto bad = [&](size_t i, const string& s) { C->fail("op", vf::fmt("operation %zu, %s: %s", i, nameOp(ops[i]).c_str(), s.c_str())); };
    for (size_t i = 0; i < ops.size() && !C->failed(); i++)
    {
        auto& o = ops[i]; C->transition();
        bool needR = o.kind == Read || o.kind == ReadEof || o.kind == ReadChar || o.kind == ReadCh || o.kind == Peek || o.kind == Copy || o.kind == CopyAll;
        bool wErr = (needR && !v->r) || (o.kind == Write && !v->w && o.data.size());
        if (o.kind == Eof && !v->r) continue;
        string got; size_t n = 0; bool b = false, eof = false; char ch = 'q';
        auto avail = m.size() - pos;
        int err = vf::errorOf([&] {
            switch (o.kind)
            {
                case Read: d.Read(buf.data(), (size_t)o.n); break;
                case ReadEof: n = d.Read(buf.data(), (size_t)o.n, eof); break;
                case ReadChar: ch = d.ReadChar(); break;
                case ReadCh: b = d.Read(ch); break;
                case Peek: b = d.Peek(ch); break;
                case Eof: b = d.Eof(); break;
                case Pos: n = d.GetPosition(); break;
                case Len: n = d.GetLength(); break;
                case Seek: if (o.dir == 0) d.Seek((size_t)o.n); else d.Seek(o.n, (SeekDirection)o.dir); break;
                case Write: if (o.data.size() == 1) d.Write(o.data[0]); else d.Write(o.data); break;
                case Flush: d.Flush(); break;
                case Copy: { StringStreamDevice out(got); d.CopyTo(out, (size_t)o.n); break; }
                case CopyAll: { StringStreamDevice out(got); d.CopyTo(out); break; }
            }
        });
        if (wErr) { if (err < 0) bad(i, "is possible without the access"); continue; }
        if (o.kind == Flush && !v->w) continue;
        bool wantErr = false; size_t take = 0;
        switch (o.kind)
        {
            case Read: wantErr = (size_t)o.n > avail; take = std::min((size_t)o.n, avail); if (!wantErr && err < 0 && !isNull) { auto e = diff(string(buf.data(), take), m.substr(pos, take)); if (e.size()) bad(i, e); } break;
            case ReadEof: take = std::min((size_t)o.n, avail); if (err < 0) { if (n != take) bad(i, vf::fmt("%zu bytes, not %zu", n, take)); else if (!isNull && diff(string(buf.data(), take), m.substr(pos, take)).size()) bad(i, diff(string(buf.data(), take), m.substr(pos, take))); else if (eof != (pos + take == m.size())) bad(i, vf::fmt("eof is %d with %zu bytes left", eof, m.size() - pos - take)); } break;
            case ReadChar: wantErr = avail == 0; take = avail ? 1 : 0; if (!wantErr && err < 0 && ch != m[pos]) bad(i, vf::fmt("reads %02x", (unsigned char)ch)); break;
            case ReadCh: take = avail ? 1 : 0; if (err < 0 && (b != (avail > 0) || ch != (avail ? m[pos] : '\0'))) bad(i, vf::fmt("gives %d, %02x", b, (unsigned char)ch)); break;
            case Peek: if (err < 0 && (b != (avail > 0) || ch != (avail ? m[pos] : '\0'))) bad(i, vf::fmt("gives %d, %02x with %zu bytes left", b, (unsigned char)ch, avail)); break;
            case Eof: if (err < 0 && b != (avail == 0)) bad(i, vf::fmt("is %d with %zu bytes left", b, avail)); break;
            case Pos: if (err < 0 && n != pos) bad(i, vf::fmt("is %zu, not %zu", n, pos)); break;
            case Len: if (err < 0 && n != m.size()) bad(i, vf::fmt("is %zu, not %zu", n, m.size())); break;
            case Seek:
            {
                ssize_t t = o.n + (o.dir == 0 ? 0 : o.dir == 1 ? (ssize_t)pos : (ssize_t)m.size());
                wantErr = t < 0 || t > (ssize_t)m.size() || isNull;
                if (t > (ssize_t)m.size() && !v->seekOver) return;      // files may seek beyond the end: not judged
                if (!wantErr && err < 0) pos = (size_t)t;
                break;
            }
            case Write:
                if (v->fixed && o.data.size() > avail) { wantErr = true; break; }
                if (err < 0) { m.resize(std::max(m.size(), pos + o.data.size())); std::copy(o.data.begin(), o.data.end(), m.begin() + pos); if (isNull) std::fill(m.begin(), m.end(), '\0'); pos += o.data.size(); }
                break;
            case Copy: take = std::min((size_t)o.n, avail); if (err < 0) { auto e = diff(got, m.substr(pos, take)); if (e.size() && !isNull) bad(i, e); } break;
            case CopyAll: take = avail; if (err < 0) { auto e = diff(got, m.substr(pos)); if (e.size() && !isNull) bad(i, e); } break;
        }
        pos += take;
        if (wantErr != (err >= 0)) bad(i, wantErr ? "succeeds" : vf::fmt("fails with %d", err));
    }
    if (C->failed()) return;
    C->state(vf::fmt("%d %zu ", k, pos) + m);
    int e = vf::errorOf([&] {
        if (d.GetPosition() != pos) { C->fail("end-position", vf::fmt("the position is %zu, not %zu", d.GetPosition(), pos)); return; }
        if (d.GetLength() != m.size()) { C->fail("end-length", vf::fmt("the length is %zu, not %zu", d.GetLength(), m.size())); return; }
        if (v->content) { auto s = diff(v->content(), m); if (s.size()) { C->fail("end-content", s); return; } }
        if (v->r && !isNull) { d.Seek(0); string all; StringStreamDevice out(all); d.CopyTo(out); auto s = diff(all, m); if (s.size()) { C->fail("end-read", s); return; } }
    });
    if (e != -1) C->fail("end-error", vf::fmt("error %d at the end", e));
    if (v->w && v->content && k >= FIRSTFILE && k <= LASTFILE && !C->failed())
    {
        auto f = dynamic_cast<FileStreamDevice*>(v->d); f->Close(); std::ifstream in(C->scratch() + "/f", std::ios::binary); auto s = diff(string(std::istreambuf_iterator<char>(in), {}), m); if (s.size()) C->fail("closed-content", s);
    }
    v->own.reset(); if (v->cleanup) v->cleanup();
    C->trace();
}
static void explore(vf::Ctx& c)
{
    C = &c;
    auto R = [](int k, ssize_t n = 0, int dir = 0, string s = "") { return Op{ k, n, dir, s }; };
    std::vector<Op> small{ R(Read, 1), R(Read, 2), R(ReadEof, 0), R(ReadEof, 1), R(ReadEof, 9), R(ReadChar), R(ReadCh), R(Peek), R(Eof), R(Pos), R(Len), R(Seek, 0), R(Seek, 1), R(Seek, 4), R(Seek, -1, 1), R(Seek, 1, 1), R(Seek, 0, 2), R(Seek, -2, 2), R(Seek, 1, 2), R(Write, 0, 0, "x"), R(Write, 0, 0, "yz"), R(Write, 0, 0, ""), R(Flush), R(Copy, 2), R(CopyAll), R(Seek, -99, 1), R(Seek, (ssize_t)1 << 62) };
    std::vector<Op> core{ R(Read, 2), R(ReadEof, 1), R(ReadEof, 9), R(ReadCh), R(Peek), R(Eof), R(Pos), R(Len), R(Seek, 0), R(Seek, -1, 1), R(Seek, 0, 2), R(Seek, 1, 2), R(Write, 0, 0, "x"), R(Write, 0, 0, "yz"), R(Copy, 2) };
    auto go = [&](const char* tag, const std::vector<Op>& ops, const string& init, unsigned depth, int from, int to) {
        for (int k = from; k <= to; k++) vf::sequences((unsigned)ops.size(), depth, [&](const std::vector<unsigned>& v) {
            if (!c.mine()) { c.skip(); return; }
            std::vector<Op> h; for (auto i : v) h.push_back(ops[i]);
            c.run(tag, [&] { string s = vf::fmt("%s of %zu bytes:", DN[k], init.size()); for (auto& o : h) s += " " + nameOp(o); return s; }, [&] { history(k, init, h); });
        });
    };
    for (string init : { "", "a", "abcd" }) { for (unsigned d = 0; d <= 2; d++) go("small", small, init, d, 0, NDEV - 1); go("small", small, init, 3, 0, FIRSTFILE - 1); go("small", small, init, 3, NDEV - 1, NDEV - 1); go("files", core, init, 3, FIRSTFILE, LASTFILE); }
    go("core", core, "abcd", c.thorough ? 5 : 4, 0, FIRSTFILE - 1);
    if (c.thorough) { for (string init : { "", "a", "abcd" }) go("small", small, init, 4, 0, FIRSTFILE - 1); go("files", small, "abcd", 3, FIRSTFILE, LASTFILE); go("files", core, "abcd", 4, FIRSTFILE, LASTFILE); }
    // around the sizes of the buffers in the devices and in the streams
    {
        string big(20000, 0); for (size_t i = 0; i < big.size(); i++) big[i] = char(i * 7 + i / 256);
        string w; for (int i = 0; i < 9000; i++) w += char('A' + i % 23);
        std::vector<Op> ops{ R(Read, 4095), R(Read, 8192), R(ReadEof, 12000), R(ReadCh), R(Peek), R(Copy, 4097), R(Seek, 8191), R(Seek, 4096), R(Seek, -1, 1), R(Seek, 0, 2), R(Seek, -4097, 2), R(Write, 0, 0, w), R(Write, 0, 0, w.substr(0, 4096)), R(Write, 0, 0, "x"), R(Pos), R(Len), R(Flush) };
        for (unsigned d = 1; d <= (c.thorough ? 4u : 3u); d++) go("large", ops, big, d, 0, NDEV - 1);
    }
    // the string stream
    std::vector<string> parts{ "", "a", "bc", "0123456789", string(5000, 'z') };
    for (unsigned d = 0; d <= 5; d++) vf::sequences(9, d, [&](const std::vector<unsigned>& v) {
        if (!c.mine()) { c.skip(); return; }
        c.run("stringstream", [&] { string s; for (auto i : v) s += vf::fmt(" %u", i); return s; }, [&] {
            PdfStringStream s; OutputStream& o = s; string m;
            for (auto i : v)
            {
                c.transition();
                if (i < 5) { if (i % 2) o.Write(parts[i]); else s << parts[i]; m += parts[i]; }
                else if (i == 5) { s << 42 << ' '; m += "42 "; }
                else if (i == 6) { s << 1.5; m += "1.5"; }
                else if (i == 7) { s.Clear(); m.clear(); }
                else { if (s.TakeString() != m) { c.fail("take", "TakeString"); return; } m.clear(); }
                if (s.GetString() != m) { c.fail("string", "holds \"" + vf::esc(s.GetString()) + "\", not \"" + vf::esc(m) + "\""); return; }
                if (s.GetSize() != m.size()) { c.fail("size", vf::fmt("size %u, not %zu", s.GetSize(), m.size())); return; }
            }
            c.trace();
        });
    });
    // opening files
    for (int mode = 1; mode <= 6; mode++) for (int acc = 1; acc <= 3; acc++) for (bool exists : { false, true })
        c.run("open", [&] { return vf::fmt("mode %d access %d exists %d", mode, acc, exists); }, [&] {
            string path = c.scratch() + "/g"; unlink(path.c_str()); if (exists) { std::ofstream f(path); f << "abc"; }
            auto M = (FileMode)mode; bool r = acc & 1, w = acc & 2;
            bool want = true;
            if (M == FileMode::CreateNew) want = !exists && w; else if (M == FileMode::Create || M == FileMode::OpenOrCreate) want = w; else if (M == FileMode::Open) want = exists; else if (M == FileMode::Truncate) want = exists && w; else want = exists && !r;
            bool keeps = M == FileMode::Open || M == FileMode::OpenOrCreate || M == FileMode::Append;
            std::unique_ptr<FileStreamDevice> d; int e = vf::errorOf([&] { d.reset(new FileStreamDevice(path, M, (DeviceAccess)acc)); });
            if ((e < 0) != want) { c.fail("open", e < 0 ? "is opened" : vf::fmt("is refused with %d", e)); return; }
            string now; { std::ifstream f(path); now = string(std::istreambuf_iterator<char>(f), {}); }
            string expect = exists ? (e < 0 && !keeps ? "" : "abc") : "";
            if (now != expect) { c.fail("open-content", "the file holds \"" + now + "\", not \"" + expect + "\""); return; }
            if (!d) { if (!exists && access(path.c_str(), F_OK) == 0) c.fail("open-created", "a refused file was created"); return; }
            if (d->GetLength() != expect.size() || d->GetPosition() != (M == FileMode::Append ? expect.size() : 0)) { c.fail("open-position", vf::fmt("length %zu position %zu", d->GetLength(), d->GetPosition())); return; }
            if (d->GetFilepath() != path) c.fail("open-path", d->GetFilepath());
            if (w) { size_t p = d->GetPosition(); d->Write("Z"); d->Close(); std::ifstream f(path); now = string(std::istreambuf_iterator<char>(f), {}); expect.resize(std::max(expect.size(), p + 1)); expect[p] = 'Z'; if (now != expect) c.fail("open-write", "after a write the file holds \"" + now + "\", not \"" + expect + "\""); }
        });
}
int main(int argc, char** argv)
{
    vf::Config cfg;
    cfg.prop = "P23";
    cfg.rule = "all sequences of device operations up to a depth on every kind of device and initial content, also around buffer sizes; a state is (device, position, content), a transition one operation; every result, error, the final content and a complete reread are compared with a byte array";
    cfg.assumptions = { "a seek beyond the end of a file is not judged", "end-of-input of devices without read access is not judged" };
    return vf::main(argc, argv, cfg, explore);
}
