"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
SESSION = {"C13", "C14", "C21"}
NOTE = {
    False: "TLC reads every recorded .tree text with the specification (lexer, parser, analysis, translation, combination, check, repair) "
           "and judges what the real binary did with it; bounded models of the same specification are explored exhaustively and "
           "their behaviours are replayed into the binary. Bounded/sampled inputs; trusts solang-parser and forge-fmt to read Solidity.",
    True: "TLC checks every recorded session (edits, commands, files, faults such as read-only or unreadable files and directories "
          "in the way) to be a behaviour of the Workspace state machine, whose design is explored exhaustively in small; emitted texts "
          "are those of the same command on one file alone. Bounded/sampled sessions.",
}
m = {
    "version": 1,
    "setup_cmd": "python3 harness/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 harness/check.py %s" % p["id"],
        "thorough_cmd": "python3 harness/check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification checked with TLC; recorded executions of the real binary validated against it; "
                     "model behaviours replayed into it",
        "level": "model_checking",
        "level_note": NOTE[p["id"] in SESSION],
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed at the command line. Known findings and repaired defects: known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
