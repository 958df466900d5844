"""Rewrites the generated tail of DESIGN.md (after the marker): planted bugs and their checks, weaker refactorings."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/gen_design.py -->"


def main():
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n## Planted bugs kept in /verif/seeded\n\n"
    caught = {}
    log = os.path.join(HERE, "tools", "seeded_results.json")
    if os.path.exists(log):
        with open(log) as f:
            caught = json.load(f)
    text += "| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as f:
            meta = json.load(f)
        text += "| {} | {} | {} | {} |\n".format(
            name, meta["what_it_breaks"], meta["needs"], caught.get(name, meta["property"]))
    with open(path, "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
