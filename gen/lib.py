"""Generates properties.jsonl, harness/checks.json and MANIFEST.json from the
property descriptions in the p_*.py files of this folder."""
import json, os, re, sys, glob, importlib.util

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []

COMMON = ("the symbolic executor (Go SSA to SMT) and the solvers z3 and cvc5 are trusted; sampled paths and every "
          "counterexample are re-run against the native build; hash functions are idealised as injective and "
          "Ed25519 as unforgeable; allocation and map iteration behave as in the Go specification")


def prop(id, title, statement, over, text, why, files, mech, harnesses, bounds, assumptions=(), note="", state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      harnesses=harnesses, bounds=bounds, assumptions=list(assumptions), note=note, state=state, observe=observe))


def h(name, *covers, tier=None, repeat=None, sched=False):
    d = {"name": name, "covers": list(covers)}
    if tier:
        d["tier"] = tier
    if repeat:
        d["repeat"] = repeat
    if sched:
        d["sched"] = True
    return d


def na(id, reason, **kw):
    NA.append(dict(id=id, reason=reason, **kw))


def comments():
    """The first sentence of the comment of each harness."""
    out = {}
    for f in glob.glob(os.path.join(ROOT, "harness", "props", "*.go")):
        for m in re.finditer(r"((?:^//.*\n)+)func (H_\w+)\(", open(f).read(), re.M):
            t = " ".join(l[2:].strip() for l in m.group(1).splitlines())
            t = re.sub(r"^H_\w+:?\s*", "", t)
            out[m.group(2)] = (t, os.path.basename(f))
    return out


def findings():
    out = ""
    for l in open(os.path.join(ROOT, "known-findings.jsonl")):
        if l.startswith("{"):
            k = json.loads(l)
            out += "| %s | **known finding** `%s` | %s |\n" % (k["property"], k["id"], k["what"])
        elif l.startswith("fixed:"):
            _, prop, commit, what = l.rstrip().split(" ", 3)
            out += "| %s | fixed `%s` | %s |\n" % (prop[9:], commit, what)
    return out


def planted():
    out = "  | bug | caught by | what it breaks | needs |\n  |---|---|---|---|\n"
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        out += "  | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"])
    return out


def design(here):
    c = comments()
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(open(os.path.join(here, "design_head.md")).read())
        for p in PROPS:
            f.write("### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
            f.write("*Ranges over* %s. *Beyond tests:* %s\n\n" % (p["text"].rstrip("."), p["why"]))
            f.write("*Code:* %s.\n\n" % "; ".join("%s (%s)" % (w, n) for n, w in p["mech"]))
            f.write("*Decided by:*\n\n")
            for x in p["harnesses"]:
                t, src = c.get(x["name"], ("", "?"))
                f.write("- `%s` (%s%s): %s\n" % (x["name"], src, ", thorough only" if x.get("tier") == "thorough" else "", t))
            f.write("\n*Bounds:* %s\n" % p["bounds"])
            for a in p["assumptions"]:
                f.write("*Assumes:* %s.\n" % a.rstrip("."))
            f.write("\n")
        if NA:
            f.write("## 3. Not applicable\n\n")
            for p in NA:
                f.write("- **%s %s**: %s\n" % (p["id"], p["title"], p["reason"]))
            f.write("\n")
        t = open(os.path.join(here, "design_tail.md")).read()
        f.write(t.replace("FINDINGS\n", findings()).replace("PLANTED\n", planted()))


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.modules["lib"] = sys.modules["__main__"]
    for f in sorted(glob.glob(os.path.join(here, "p_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p.get("observe"):
                anchors["observe_at"] = list(p["observe"])
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    cfg = {p["id"]: {"harnesses": p["harnesses"], "bounds": p["bounds"], "assumptions": p["assumptions"] + [COMMON]} for p in PROPS}
    with open(os.path.join(ROOT, "harness", "checks.json"), "w") as f:
        json.dump(cfg, f, indent=1)
        f.write("\n")
    man = {"version": 1,
           "setup_cmd": "bash setup.sh",
           "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
           "notes": "Each check rebuilds the symbolic executor in /verif/engine, encodes /repo's current source from its SSA form, "
                    "decides the assertions of the property's harnesses in /verif/harness/props with z3/cvc5, and replays counterexamples and sampled paths natively."}
    for p in PROPS:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the Go SSA of /repo with SMT (z3/cvc5) over all inputs within the bounds",
            "level": "model_checking",
            "level_note": "Bounded: " + p["bounds"] + (" " + p["note"] if p["note"] else "") + " Trusts the symbolic executor and solvers; hashes and signatures idealised."})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    design(here)
    print(len(PROPS), "properties,", len(NA), "not applicable")


if __name__ == "__main__":
    main()
