import json,sys
sys.path.insert(0,'/verif')
from props import PROPS
T="symbolic execution of the whole program's LLVM IR (std, /repo's crate, harness) with z3 deciding branch feasibility and the property's assertions; counterexamples replayed natively"
na=json.load(open('/verif/tools/not_applicable.json'))
m={"version":1,"setup_cmd":"bash /verif/setup.sh","hooks":{"guard":"mopaq_verif","enable":"RUSTFLAGS=\"--cfg mopaq_verif\" (check.py, for C13 and C15 only)","source_commits":["bf4e6d0","16ed3cc"]},
"checks":[{"property":p,"quick_cmd":"python3 /verif/check.py %s quick"%p,"thorough_cmd":"python3 /verif/check.py %s thorough"%p,"technique":T,"level":"model_checking","level_note":"holds for every value within: "+PROPS[p]["bounds"]+(". Outside: "+PROPS[p]["outside"] if PROPS[p].get("outside") else "")} for p in sorted(PROPS)],
"not_applicable":na,"notes":"see DESIGN.md"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
