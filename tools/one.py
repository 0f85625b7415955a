"""one.py sID: TLC's raw output for one scenario of the last smoke run"""
import sys,json; sys.path.insert(0,'/verif/lib'); import run
d=json.load(open('/tmp/w/all.json')); k=sys.argv[1]
json.dump([{'plan':d[k][0],'log':d[k][1]}],open('/tmp/w/one.json','w'))
print(run.tlc('PlexilTrace','PlexilTrace.cfg',{'TRACES':'/tmp/w/one.json'})[1])
