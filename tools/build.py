#!/usr/bin/env python3
"""Builds the pdfmm library from /repo's working tree (never from a cached copy)
and the harnesses in /verif/src against it, in /verif/.build (git-ignored).

  build.py FLAVOR TARGET...     FLAVOR: fast | asan | tsched
TARGET is the base name of a harness in /verif/src (e.g. p01_values)."""
import os, sys, json, hashlib, subprocess, glob, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUTROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

def pkg(args):
    return subprocess.check_output(["pkg-config"] + args).decode().split()

LIBS = "-lcrypto -lfontconfig -lfreetype -lxml2 -lpng -ltiff -ljpeg -lidn -lz -lpthread".split()

def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

def gen_config(out):
    """The cmake-configured header, from the template in the tree."""
    src = open(f"{REPO}/src/pdfmm/pdfmm_config.h.in").read()
    cm = open(f"{REPO}/CMakeLists.txt").read()
    def ver(n):
        m = re.search(r'PDFMM_VERSION_%s\s+"?(\d+)"?' % n, cm)
        return m.group(1) if m else "0"
    vals = {"PDFMM_VERSION_MAJOR": ver("MAJOR"), "PDFMM_VERSION_MINOR": ver("MINOR"), "PDFMM_VERSION_PATCH": ver("PATCH")}
    src = re.sub(r'[$]\{(\w+)\}|@(\w+)@', lambda m: vals.get(m.group(1) or m.group(2), ""), src)
    def cmdef(m):
        n = m.group(1)
        if n in ("PDFMM_HAVE_JPEG_LIB", "PDFMM_HAVE_PNG_LIB", "PDFMM_HAVE_TIFF_LIB", "PDFMM_HAVE_FONTCONFIG", "PDFMM_HAVE_LIBIDN"):
            return "#define " + n
        return "/* #undef %s */" % n
    src = re.sub(r'#cmakedefine\s+(\w+).*', cmdef, src)
    write_if_changed(f"{out}/gen/pdfmm/pdfmm_config.h", src)
    write_if_changed(f"{out}/gen/pdfmm_config.h", src)

PCH = """#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfDocument.h>
#include <pdfmm/base/PdfDictionary.h>
#include <utfcpp/utf8.h>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <unordered_map>
#include <regex>
"""

FLAVORS = {
    "fast": dict(cxx="clang++", cc="clang", flags="-O1 -g0 -D_GLIBCXX_ASSERTIONS", link="-fuse-ld=gold"),
    "asan": dict(cxx="clang++", cc="clang", flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment,enum,bool -fno-sanitize-recover=undefined -fno-omit-frame-pointer", link="-fsanitize=address,undefined -fuse-ld=gold"),
}

def main():
    flavor, targets = sys.argv[1], sys.argv[2:]
    fl = FLAVORS[flavor]
    out = f"{OUTROOT}/{flavor}"
    os.makedirs(out, exist_ok=True)
    gen_config(out)
    inc = f"-I{VERIF}/src -I{out}/gen -I{REPO}/src -I{REPO}/3rdparty -I/usr/include/freetype2 -I/usr/include/libxml2"
    common = f"{fl['flags']} -w -fPIC -DNDEBUG -DPDFMM_VERIF -DHAS_UNCAUGHT_EXCEPTIONS=1 -DPDFMM_STATIC {inc}"
    # charconv_compat.h re-declares std::from_chars under clang, which libstdc++ 13 already has;
    # the gcc build of the project uses libstdc++'s, and so do we
    cxxonly = "-std=gnu++17 -DCHARCONV_COMPAT_H -include charconv"
    pch = f"{out}/pch.pch"
    write_if_changed(f"{out}/pch.h", PCH)
    srcs = []
    for d in ("private", "base", "common", "contrib"):
        srcs += glob.glob(f"{REPO}/src/pdfmm/{d}/**/*.cpp", recursive=True)
    for ext in ("c", "cpp", "cc"):
        srcs += glob.glob(f"{REPO}/3rdparty/**/*.{ext}", recursive=True)
    srcs = sorted(set(srcs))
    L = [f"cxx = {fl['cxx']}", f"cc = {fl['cc']}", f"common = {common}",
         f"builddir = {out}",
         f"rule pch\n  command = $cxx {cxxonly} $common -fpch-instantiate-templates -fpch-codegen -MD -MF $out.d -x c++-header $in -o $out\n  depfile = $out.d\n  deps = gcc",
         f"rule pcho\n  command = $cxx $common -c $in -o $out",
         f"rule cxx\n  command = $cxx {cxxonly} $common -include-pch {pch} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in",
         "rule ccr\n  command = $cc $common -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in",
         "rule ar\n  command = rm -f $out && ar crsT $out $in\n  description = AR $out",
         f"rule link\n  command = $cxx {fl['link']} -o $out $in {out}/libpdfmm.a {' '.join(LIBS)}\n  description = LINK $out"]
    L.append(f"build {pch}: pch {out}/pch.h")
    L.append(f"build {out}/obj/pch.o: pcho {pch}")
    objs = [f"{out}/obj/pch.o"]
    for s in srcs:
        o = f"{out}/obj/" + os.path.relpath(s, REPO).replace("/", "__") + ".o"
        objs.append(o)
        L.append(f"build {o}: {'ccr' if s.endswith('.c') else 'cxx'} {s}" + ("" if s.endswith('.c') else f" | {pch}"))
    L.append(f"build {out}/libpdfmm.a: ar {' '.join(objs)}")
    supp = ""
    for h in sorted(glob.glob(f"{VERIF}/src/lib_*.cpp")) + [f"{VERIF}/src/vf.cpp"]:
        b = os.path.basename(h)[:-4]
        L.append(f"build {out}/obj/{b}.o: cxx {h} | {pch}")
        supp += f" {out}/obj/{b}.o"
    for h in sorted(glob.glob(f"{VERIF}/src/*.cpp")):
        b = os.path.basename(h)[:-4]
        if b == "vf" or b.startswith("lib_"):
            continue
        L.append(f"build {out}/obj/{b}.o: cxx {h} | {pch}")
        L.append(f"build {out}/{b}: link {out}/obj/{b}.o {supp} | {out}/libpdfmm.a")
    write_if_changed(f"{out}/build.ninja", "\n".join(L) + "\n")
    # Contents decide, not time stamps: drop every object that depends on a file
    # whose bytes differ from those of the last build
    hashes = {}
    for root in (f"{REPO}/src", f"{REPO}/3rdparty", f"{VERIF}/src"):
        for d, _, fs in os.walk(root):
            for fn in fs:
                fp = os.path.join(d, fn)
                try:
                    with open(fp, "rb") as fh:
                        hashes[fp] = hashlib.sha1(fh.read()).hexdigest()
                except OSError:
                    pass
    hp = f"{out}/hashes.json"
    try:
        old = json.load(open(hp))
    except (OSError, ValueError):
        old = None
    if old is None:
        for p in glob.glob(f"{out}/obj/*.o") + [pch]:
            if os.path.exists(p):
                os.unlink(p)
    elif old != hashes:
        changed = {p for p in set(old) | set(hashes) if old.get(p) != hashes.get(p)}
        deps = subprocess.run(["ninja", "-f", f"{out}/build.ninja", "-t", "deps"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
        cur = None
        drop = set()
        for l in deps.splitlines():
            if l and not l.startswith(" "):
                cur = l.split(":")[0]
            elif l.strip() in changed:
                drop.add(cur)
        for p in drop:
            p = p if os.path.isabs(p) else os.path.join(out, p)
            if p.startswith(out) and os.path.exists(p):
                os.unlink(p)
        if os.path.exists(hp):
            os.unlink(hp)
    tg = [f"{out}/libpdfmm.a"] + [f"{out}/{t}" for t in targets]
    r = subprocess.run(["ninja", "-f", f"{out}/build.ninja"] + tg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        t = "\n".join(l for l in r.stdout.decode(errors="replace").splitlines() if not l.startswith("clang"))
        er = "\n".join(l for l in t.splitlines() if "error:" in l or "undefined" in l)
        sys.stdout.write((er or t)[:3000] + "\n")
        return 2
    json.dump(hashes, open(hp, "w"))
    return 0

if __name__ == "__main__":
    sys.exit(main())
