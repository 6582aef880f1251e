import json,sys
sys.path.insert(0,'/verif')
import check
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
claimed=list(check.CHECKS)
notes=json.load(open('/verif/levels.json'))
m={"version":1,"setup_cmd":"python3 check.py --setup","hooks":{"guard":"IBL_VERIF","enable":"no hooks: the public API exposes the abstract state, so nothing in /repo is instrumented","source_commits":[]},
"checks":[{"property":p,"quick_cmd":f"python3 check.py {p} quick","thorough_cmd":f"python3 check.py {p} thorough","technique":"TLA+ specification; TLC-generated scripts run on the code; recorded runs judged by TLC against the specification","level":"model_checking","level_note":notes.get(p,notes["default"])} for p in claimed],
"not_applicable":[{"property":p,"reason":"check under construction"} for p in props if p not in claimed]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
