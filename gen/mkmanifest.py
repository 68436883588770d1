#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (authoring helper)."""
import json, sys
CL = sys.argv[1:]
TECH = {
 **{"C%02d"%i: "TLA+ specification of tokeniser, line analysis and lint rules (TealLexer, TealAnalysis, TealLint) model-checked with TLC over generated and exhaustively enumerated texts; every result replayed against the real analysis" for i in range(1,8)},
 "C08": "TLA+ specification reads back the text really printed (TealAnalysis on both texts) and TLC checks that both readings agree; real re-analysis compared too",
 "C09": "TLC explores the product of the original listing and the listing really produced by the optimiser (MCOptimize) and checks that they simulate each other",
 **{"C%02d"%i: "TLA+ specification of the symbolic machine (TealVm) model-checked with TLC; every behaviour replayed command by command into the real machine" for i in range(10,14)},
 **{"C%02d"%i: "TLA+ specification of the language server (LspServer over TealLint) model-checked with TLC; its sessions replayed into the real server" for i in range(14,22)},
 **{"C%02d"%i: "TLA+ specification of the debug adapter (DapServer over TealVm) model-checked with TLC; its sessions replayed into the real adapter" for i in range(22,25)},
 "C25": "TLA+ specification of the scanner (TealSarif over TealLint) model-checked with TLC; directory trees replayed into the real scanner",
 "C26": "TLA+ specification reads the document before and after the edit really answered (MCFormat) line by line; TLC checks that both hold the same words",
 "C27": "TLA+ specification of composed programs (TealBuild) unfolded by TLC node by node; the same expressions built and compiled by the real code, its text read by the specification",
 "C28": "TLA+ specification of the language server (LspServer: Announced) model-checked with TLC over all option sets; its sessions replayed into the real servers",
 "C29": "TLA+ specification of tokeniser, analysis and machine model-checked with TLC; the texts given to the real helper binaries"}
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
if not CL: CL = ids
m = dict(version=1, setup_cmd="bash /verif/bin/setup.sh",
  checks=[dict(property=i, quick_cmd="python3 /verif/bin/check.py %s quick"%i, thorough_cmd="python3 /verif/bin/check.py %s thorough"%i,
     technique=TECH[i], level="model_checking",
     level_note="bounded: the specification's behaviours over the generated inputs are explored completely by TLC, and the real code is compared with each") for i in ids if i in CL],
  not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in CL])
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
