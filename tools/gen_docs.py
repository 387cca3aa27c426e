#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (one list of
properties per file)."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, technique=technique, state=state, observe=observe))


for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(prop=prop))
P.sort(key=lambda p: p["id"])
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in P:
        o.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                         observe_at=list(p["observe"]), hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[dict(
    property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
    thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
    evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration",
    level_note=p["note"]) for p in P], not_applicable=[],
    notes="All checks are property-based tests (rapid) over the public API and the command line of /repo; no hooks are needed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
