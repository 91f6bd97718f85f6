#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below.

   python3 tools/meta.py            all properties the engine implements are claimed
"""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "src/rust/fcb_core/src/"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        line=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=qtext), why_tests_cant=why,
            anchors=dict(files=[f if f.startswith("src/") else CORE + f for f in files],
                         mechanism=[dict(name=n, where=w) for n, w in mech],
                         **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                         **({"observe_at": observe} if observe else {}))),
        note=level_note))


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    have = {l.split()[0]: l.split()[1]
            for name in ("fcbmc", "fcbmc-web")
            for l in subprocess.check_output([os.path.join(HERE, "build/target/mc", name), "list"], text=True).splitlines()}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["line"]["id"] in have:
                f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
    missing = set(have) - {p["line"]["id"] for p in P}
    assert not missing, missing
    m = dict(
        version=1,
        setup_cmd="bash check.sh --build",
        checks=[dict(property=p["line"]["id"],
                     quick_cmd=f"bash check.sh {p['line']['id']} quick",
                     thorough_cmd=f"bash check.sh {p['line']['id']} thorough",
                     technique=TECHNIQUE.get(p["line"]["id"], TECHNIQUE[""]),
                     level=have[p["line"]["id"]],
                     level_note=p["note"])
                for p in P if p["line"]["id"] in have],
        not_applicable=NOT_APPLICABLE,
        notes=NOTES,
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/MANIFEST.schema.json"))
        jsonschema.validate(m, s)
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(HERE, "properties.jsonl")):
            jsonschema.validate(json.loads(l), s)
    except ImportError:
        print("jsonschema not available: run with python3-vt", file=sys.stderr)


main()
