"""Single source of properties.jsonl and MANIFEST.json (run: tools/props.py)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, level, technique,
         note, observe=()):
  P.append(
      dict(id=pid,
           title=title,
           statement=statement,
           over=over,
           text=text,
           why=why,
           files=files,
           mech=mech,
           level=level,
           technique=technique,
           note=note,
           observe=list(observe)))


exec(open(os.path.join(V, "tools", "props_data.py"), encoding="utf-8").read())  # pylint: disable=W0122

NA = []


def main():
  with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
      assert len(p["title"]) <= 80, p["title"]
      f.write(
          json.dumps({
              "id": p["id"],
              "title": p["title"],
              "statement": p["statement"],
              "quantifier": {
                  "over": p["over"],
                  "text": p["text"]
              },
              "why_tests_cant": p["why"],
              "anchors": {
                  "files": p["files"],
                  "mechanism": [{
                      "name": n,
                      "where": w
                  } for n, w in p["mech"]],
                  "observe_at": p["observe"]
              }
          }) + "\n")
  m = {
      "version": 1,
      "setup_cmd": "./run.sh --setup",
      "checks": [{
          "property": p["id"],
          "quick_cmd": "./run.sh %s --tier quick" % p["id"],
          "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
          "technique": p["technique"],
          "level": p["level"],
          "level_note": p["note"],
      } for p in P],
      "not_applicable": NA,
      "notes": "All checks import the code from /repo's working tree (pure "
               "Python, nothing to build). Evidence is written by lib/vp.py."
  }
  with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


main()
