"""tools/addfix.py PROP COMMIT WHAT: record a repaired defect"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
pr, c, what = sys.argv[1:4]
d['findings'].append({"commit": c, "key": "fixed:" + c, "line": "fixed: property=%s %s %s" % (pr, c, what), "property": pr, "status": "fixed", "what": what})
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
open(p, 'a').write('\n')
