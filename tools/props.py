#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and tools/harnesses.txt."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/pdfmm/base/"

def P(id, title, statement, over, qtext, why, files, mech, observe=None, harness=None, flavor="fast", technique=None, level="model_checking", note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[B + f if not f.startswith("src/") else f for f in files],
                mech=[dict(name=n, where=(B + w if not w.startswith("src/") else w)) for n, w in mech], observe=observe or [], harness=harness, flavor=flavor,
                technique=technique, level=level, note=note, na=na)

PROPS = []
def add(*a, **k): PROPS.append(P(*a, **k))
exec(open(os.path.join(V, "tools", "props_data.py")).read())

def main():
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))
            f.write(json.dumps(o) + "\n")
    HOOKS = ["2632547 name tree node size"]; checks = []; na = []; h = "# property harness flavor (generated by tools/props.py)\n"
    for p in PROPS:
        if p["na"] or not p["harness"]:
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
            continue
        h += f'{p["id"]} {p["harness"]} {p["flavor"]}\n'
        checks.append(dict(property=p["id"], quick_cmd=f'./check {p["id"]} quick', thorough_cmd=f'./check {p["id"]} thorough',
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    open(f"{V}/tools/harnesses.txt", "w").write(h)
    m = dict(version=1, setup_cmd="python3 tools/build.py fast", hooks=dict(guard="PDFMM_VERIF", enable="tools/build.py compiles the library with -DPDFMM_VERIF", source_commits=HOOKS), checks=checks, not_applicable=na,
             notes="Every check rebuilds the library from /repo/src with clang into /verif/.build (git-ignored) and explores the real code.")
    open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
main()
