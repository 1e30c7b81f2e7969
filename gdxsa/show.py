import sys, json
sys.path.insert(0,'/verif/gdxsa')
import ir
d=json.load(open('/tmp/lib.json')); m=ir.load(d)
pat=sys.argv[1]
for f in m.fns.values():
    if (f.sname==pat or f.short==pat) and not f.decl:
        print('==',f.name,f.short,f.where,f.args,f.sig)
        for bi,b in enumerate(f.blocks):
            print('B%d:'%bi)
            for i in b:
                if i[0] in('call','invoke'):
                    c=m.callee(i); print('  ',i[0],i[1],i[2],i[3],(c.dem if c else i[4])[:140],i[5],i[6])
                else: print('  ',i)
