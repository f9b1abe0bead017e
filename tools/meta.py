"""
Write properties.jsonl and MANIFEST.json from tools/properties.py.

  python3 tools/meta.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import properties as props  # noqa  pylint: disable=wrong-import-position


def table():
  """The planted changes, and which checks report them"""
  with open(os.path.join(HERE, "caught.json")) as infile:
    caught = json.load(infile)
  rows = ["| change | property | what it breaks | needs | reported by |",
          "|---|---|---|---|---|"]
  base = os.path.join(ROOT, "seeded")
  for name in sorted(os.listdir(base)) if os.path.isdir(base) else []:
    with open(os.path.join(base, name, "meta.json")) as infile:
      meta = json.load(infile)
    cells = [name, meta["property"], meta["what_it_breaks"], meta["needs"],
             ", ".join(caught.get(name, ["?"]))]
    rows.append("| " + " | ".join(
        " ".join(str(c).split()).replace("|", "\\|") for c in cells) + " |")
  return "\n".join(rows)


def design():
  with open(os.path.join(HERE, "design.in")) as infile:
    text = infile.read()
  with open(os.path.join(ROOT, "known_findings.jsonl")) as infile:
    fixed = sum(line.startswith("fixed:") for line in infile)
  text = text.replace("%FIXED%", str(fixed)).replace("%TABLE%", table())
  text = text.replace("%COUNT%", str(len(props.PROPERTIES)
                                     - len(props.NOT_APPLICABLE)))
  with open(os.path.join(ROOT, "DESIGN.md"), "w") as out:
    out.write(text)


def main():
  seen = set()
  checks = []
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for rec in props.PROPERTIES:
      rec = dict(rec)
      assert rec["id"] not in seen, rec["id"]
      seen.add(rec["id"])
      assert len(rec["title"]) <= 80, (rec["id"], len(rec["title"]))
      technique = rec.pop("technique", None)
      note = rec.pop("note", None)
      level = rec.pop("level", "exploration")
      over, text = rec.pop("over"), rec.pop("text")
      full = {"id": rec["id"], "title": rec["title"],
              "statement": " ".join(rec["statement"].split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(rec["tests"].split()),
              "anchors": {
                  "files": rec["files"],
                  "mechanism": [{"name": n, "where": w}
                                for n, w in rec["mechanism"]],
                  "observe_at": rec.get("observe", []),
                  "hook_needed": None}}
      out.write(json.dumps(full, ensure_ascii=True) + "\n")
      if rec["id"] in props.NOT_APPLICABLE:
        continue
      checks.append({
          "property": rec["id"],
          "quick_cmd": "./check %s quick" % rec["id"],
          "thorough_cmd": "./check %s thorough" % rec["id"],
          "evidence_file": "evidence/%s.json" % rec["id"],
          "technique": " ".join(technique.split()),
          "level": level,
          "level_note": " ".join(note.split())})
  manifest = {
      "version": 1,
      "setup_cmd": "./setup.sh",
      "checks": checks,
      "not_applicable": [{"property": k, "reason": " ".join(v.split())}
                         for k, v in sorted(props.NOT_APPLICABLE.items())],
      "notes": " ".join(props.NOTES.split()),
  }
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
  design()


if __name__ == "__main__":
  main()
