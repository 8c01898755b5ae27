// Strict walks of the page tree and the outlines of a file.
#include "ref.h"
namespace ref {
static const Val* deref(const File& f, const Val& d, const char* k) { auto v = d.get(k); return v ? f.resolve(v) : nullptr; }
static void walkPages(const File& f, int64_t num, int64_t parent, std::vector<int64_t>& out, std::set<int64_t>& seen)
{
    if (!seen.insert(num).second) throw Bad(vf::fmt("object %lld is in the page tree twice", (long long)num));
    auto it = f.objs.find(num); if (it == f.objs.end() || it->second.v.k != Dict) throw Bad(vf::fmt("page tree refers to %lld, which is no dictionary", (long long)num));
    const Val& v = it->second.v;
    auto ty = deref(f, v, "Type"); if (!ty || ty->k != Name) throw Bad("page tree node without Type");
    auto pa = v.get("Parent");
    if (parent ? !pa || pa->k != Ref || pa->i != parent : pa != nullptr) throw Bad(vf::fmt("wrong Parent in %lld", (long long)num));
    if (ty->s == "Page") { out.push_back(num); return; }
    auto kids = deref(f, v, "Kids"), cnt = deref(f, v, "Count");
    if (!kids || kids->k != Arr || !cnt || cnt->k != Int) throw Bad(vf::fmt("malformed node %lld", (long long)num));
    size_t n0 = out.size();
    for (auto& k : kids->a) { if (k.k != Ref) throw Bad("kid is no reference"); walkPages(f, k.i, num, out, seen); }
    if ((int64_t)(out.size() - n0) != cnt->i) throw Bad(vf::fmt("Count of node %lld is %lld with %zu pages below", (long long)num, (long long)cnt->i, out.size() - n0));
}
std::vector<int64_t> pageNumbers(const File& f)
{
    std::vector<int64_t> out; std::set<int64_t> seen;
    auto cat = f.resolve(f.trailer.get("Root")); auto pg = cat ? cat->get("Pages") : nullptr;
    if (!pg || pg->k != Ref) throw Bad("no Pages");
    walkPages(f, pg->i, 0, out, seen);
    return out;
}
Val inherited(const File& f, int64_t page, const char* key)
{
    for (int i = 0; i < 100; i++)
    {
        auto it = f.objs.find(page); if (it == f.objs.end()) return Val();
        auto v = it->second.v.get(key); if (v) { auto r = f.resolve(v); if (r && r->k != Null) return *v; }
        auto p = it->second.v.get("Parent"); if (!p || p->k != Ref) return Val();
        page = p->i;
    }
    return Val();
}
static std::string walkOutline(const File& f, int64_t parent, std::set<int64_t>& seen)
{
    const Val& p = f.objs.at(parent).v;
    auto first = p.get("First"), last = p.get("Last");
    if (!first && !last) return "";
    if (!first || !last || first->k != Ref || last->k != Ref) throw Bad(vf::fmt("outline item %lld has only one of First and Last", (long long)parent));
    std::string s; int64_t cur = first->i, prev = 0;
    while (true)
    {
        if (!seen.insert(cur).second) throw Bad(vf::fmt("outline item %lld is linked twice", (long long)cur));
        auto it = f.objs.find(cur); if (it == f.objs.end() || it->second.v.k != Dict) throw Bad(vf::fmt("outline link to %lld, which is no dictionary", (long long)cur));
        const Val& v = it->second.v;
        auto pa = v.get("Parent"); if (!pa || pa->k != Ref || pa->i != parent) throw Bad(vf::fmt("wrong Parent in outline item %lld", (long long)cur));
        auto pr = v.get("Prev"); if (prev ? !pr || pr->k != Ref || pr->i != prev : pr != nullptr) throw Bad(vf::fmt("wrong Prev in outline item %lld", (long long)cur));
        auto t = deref(f, v, "Title"); if (!t || t->k != Str) throw Bad(vf::fmt("outline item %lld has no title", (long long)cur));
        if (s.size()) s += " ";
        s += t->s;
        auto sub = walkOutline(f, cur, seen); if (sub.size()) s += "(" + sub + ")";
        auto nx = v.get("Next");
        if (!nx) { if (last->i != cur) throw Bad(vf::fmt("Last of outline item %lld is %lld, not %lld", (long long)parent, (long long)last->i, (long long)cur)); return s; }
        if (nx->k != Ref) throw Bad("Next is no reference");
        prev = cur; cur = nx->i;
    }
}
std::string outlineTree(const File& f)
{
    auto cat = f.resolve(f.trailer.get("Root")); auto o = cat ? cat->get("Outlines") : nullptr;
    if (!o) return "";
    if (o->k != Ref || !f.objs.count(o->i)) throw Bad("Outlines is no reference to an object");
    std::set<int64_t> seen{ o->i };
    return walkOutline(f, o->i, seen);
}
}
