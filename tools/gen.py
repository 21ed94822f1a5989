#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/gen.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TE = "trading-engine/src/"
QL = "quantlib/src/"
P = []

def p(id, crate, title, statement, over, text, why, files, mech, observe, technique, note, na=None):
    P.append(dict(id=id, crate=crate, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, na=na))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(dict(
                id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["text"]),
                why_tests_cant=x["why"],
                anchors=dict(files=x["files"],
                             mechanism=[dict(name=n, where=w) for n, w in x["mech"]],
                             observe_at=x["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    open(os.path.join(HERE, "tools", "crates.txt"), "w").write("".join("%s %s\n" % (x["id"], x["crate"]) for x in P))
    impl = set(l.strip() for l in open(os.path.join(HERE, "tools", "implemented.txt")) if l.strip())
    checks, na = [], []
    for x in P:
        if x["na"]:
            na.append(dict(property=x["id"], reason=x["na"]))
        elif x["id"] not in impl:
            na.append(dict(property=x["id"], reason="check not built yet (planned, see DESIGN.md)"))
        else:
            checks.append(dict(property=x["id"],
                               quick_cmd="./check.sh %s quick" % x["id"],
                               thorough_cmd="./check.sh %s thorough" % x["id"],
                               evidence_file="evidence/%s.json" % x["id"],
                               technique=x["technique"], level="exploration", level_note=x["note"]))
    m = dict(version=1, setup_cmd="./setup.sh",
             hooks=dict(guard="none", enable="no hooks are needed: every check drives the public API of the two crates", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

main()
