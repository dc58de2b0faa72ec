"""Writes MANIFEST.json from properties.jsonl and the check modules (run by hand)."""
import ast, glob, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing against a reference model of the format", "C02": "property-based testing against a reference model of the format",
    "C03": "property-based testing, metamorphic relation between partial and full loads", "C04": "property-based testing, round-trip and independent decoder",
    "C05": "property-based testing over cut points against a reference model", "C06": "property-based testing with injected damage against a reference model",
    "C07": "structure-aware fuzzing with termination, refusal and consistency oracles", "C08": "property-based testing of generated crash histories against a reference model",
    "C09": "property-based mutation testing of equality against a reference comparison", "C10": "property-based testing, round-trip through the database against a reference model",
    "C11": "stateful model-based testing of operation histories", "C12": "fault injection at generated statements, with an observing connection",
    "C13": "property-based testing with generated databases, scripts and interruptions", "C14": "property-based testing, output parsed back and compared with a reference model",
    "C15": "property-based testing against a reference model", "C16": "property-based testing, output parsed back and compared with a reference model",
    "C17": "property-based testing, output compared with a reference model", "C18": "property-based testing, output compared with a reference model",
    "C19": "property-based testing, output parsed back and compared with a reference model", "C20": "property-based testing with recording stand-ins against a reference model",
    "C21": "property-based testing against a reference model", "C22": "property-based testing against a reference loop",
    "C23": "property-based testing, rotation invariant and reference tables", "C24": "property-based testing, metamorphic relation (insertion of invalid bytes)",
    "C26": "generated operations under a generated deterministic schedule, with a search for a serial order that explains the results",
    "C27": "property-based testing of directory contents before and after, against the documented results and a run in an empty place",
    "C28": "property-based testing, generated edits applied to the log and to a reference model",
    "C25": "property-based testing, JSON read back and compared with a reference model",
}


def main():
    mods = {}
    for f in glob.glob(os.path.join(ROOT, "checks", "c*.py")):
        d = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("ID", "RULE", "ASSUMPTIONS"):
                d[n.targets[0].id] = ast.literal_eval(n.value)
        mods[d["ID"]] = d
    checks = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        i = json.loads(line)["id"]
        m = mods[i]
        checks.append({"property": i, "quick_cmd": "python3-vt run.py %s --tier quick" % i, "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                       "level_note": "Search over generated cases, no proof. " + m["RULE"][0].upper() + m["RULE"][1:] + ". Assumes: " + "; ".join(m["ASSUMPTIONS"]) + "."})
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed through the public API, files, databases and standard output."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
