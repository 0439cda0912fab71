import json,sys,glob,os
sys.path.insert(0,os.path.dirname(__file__))
import extract
def main():
    d=extract.facts()
    crate=sys.argv[1]; pat=sys.argv[2]
    j=json.load(open(f"{d}/{crate}.json"))
    T=j['types']
    for k,f in j['fns'].items():
        if pat in f['path'] or pat in f['name']:
            print("FN",k,f['path'],'|',f['name'],f['crate'],'args',[T[a]['s'] for a in f['args']],'nargs',f['nargs'],f.get('shim'))
            if len(sys.argv)>3:
                for i,l in enumerate(f['locals']): print("   _%d: %s"%(i,T[l]['s']))
                print(f['names'])
                for i,(ss,t) in enumerate(f['blocks']):
                    print(" bb%d"%i)
                    for s in ss: print("    ",json.dumps(s))
                    print("    ->",json.dumps(t))
main()
