"""Writes properties.jsonl and MANIFEST.json from one table (run: python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level="model_checking", note="", observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, observe=observe or [], na=na))


T = "lazy_type_hint/data_type_tree/"
G = T + "generic_type/"
S = T + "simple_data_type_tree/"
M = "lazy_type_hint/file_modifiers/"
GEN = "lazy_type_hint/generators/"
U = "lazy_type_hint/utils/"
ALLG = [T + "data_type_tree.py", T + "factory.py", G + "generic_data_type_tree.py", G + "sequence_data_type_tree.py",
        G + "set_and_sequence_operations.py", G + "mapping_data_type_tree.py", G + "dict_data_type_tree.py",
        G + "tuple_data_type_tree.py", G + "list_data_type_tree.py", G + "set_data_type_tree.py"]

exec(open(os.path.join(V, "tools", "table.py"), encoding="utf-8").read())

TECH = "bounded symbolic execution of the package's Python source with z3 deciding every branch; counterexamples replayed on the untouched code"

with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if p["observe"] else {})},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if p["na"] or not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
        na.append({"property": p["id"], "reason": p["na"] or "its check is not written yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": TECH,
        "level": p["level"],
        "level_note": p["note"] or "all values within the bounds the evidence states; nothing is claimed outside them",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks}
if na:
    m["not_applicable"] = na
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
