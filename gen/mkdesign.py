#!/usr/bin/env python3
"""DESIGN.md = gen/DESIGN.head.md + the table of planted bugs (authoring helper)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/gen/DESIGN.head.md").read()
out += "\n| change | breaks | needs | caught by |\n|---|---|---|---|\n"
missed = set(open(V + "/gen/missed.txt").read().split()) if os.path.exists(V + "/gen/missed.txt") else set()
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    out += "| %s | %s | %s | %s |\n" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                      "not caught" if d in missed else m["property"] + " quick")
out += """
Changes the checks missed when they were first planted, and what was strengthened: C11-exit-name (programs of subroutine
blocks with calls on the last line), C09-b-skip (no verdict → total comparison of listings), C14-arg-array (liveness
over every instruction), C15-cache-len and C15-close-all (texts and identifiers that are easily confused), C18-prefix (names that are
prefixes of each other), C20-itxn-version and C20-hover-array (operands by version, every word, every field), all of C21
(the decoded tokens were never compared because of a wrong method name; an unknown method now means no verdict).
"""
open(V + "/DESIGN.md", "w").write(out)
