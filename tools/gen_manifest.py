"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
NOTES = json.loads((V / "tools" / "notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "vf" / "checks" / f"{i.lower()}.py").exists() and i in NOTES["claimed"]:
        n = NOTES["claimed"][i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=n.get("technique", "TLA+ specification checked with TLC; traces of the real code "
                                           "judged against it by TLC"),
                           level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTES.get("na", {}).get(i, "not built yet")))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na])
