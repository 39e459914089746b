import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
def w(o):
    if isinstance(o,dict):
        for k,v in o.items():
            if isinstance(v,dict) and 'unknown' in v:
                if v['unknown']: print(k,{a:b for a,b in v.items() if b})
            else: w(v)
w(d)
