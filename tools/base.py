import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
print('missing:', sorted(set(b['stable']) - set(o['passed'])))
