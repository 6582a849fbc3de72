#!/usr/bin/env python3
# mkseed.py ID: reads /verif/seeded/ID/edit.py-like JSON from stdin: {"property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"go source"}
import json,sys,os,subprocess,shutil
sid=sys.argv[1]; spec=json.load(sys.stdin) if len(sys.argv)<3 else eval(open(sys.argv[2]).read())
d=f'/verif/seeded/{sid}'; os.makedirs(d,exist_ok=True)
w=f'/tmp/seedwork/mk{sid}'; os.makedirs(w+'/a',exist_ok=True); os.makedirs(w+'/b',exist_ok=True)
for f,_,_ in spec['edits']:
    [os.makedirs(os.path.dirname(f'{w}/{x}/{f}'),exist_ok=True) for x in 'ab']; s=open('/repo/'+f).read(); open(f'{w}/a/{f}','w').write(s); open(f'{w}/b/{f}','w').write(s)
for f,o,n in spec['edits']:
    s=open(f'{w}/b/{f}').read()
    assert s.count(o)==1,(f,s.count(o),o)
    open(f'{w}/b/{f}','w').write(s.replace(o,n))
diff=''
for f in dict.fromkeys(e[0] for e in spec['edits']):
    r=subprocess.run(['diff','-u','--label','a/'+f,'--label','b/'+f,f'{w}/a/{f}',f'{w}/b/{f}'],capture_output=True,text=True).stdout
    diff+=r
open(d+'/patch.diff','w').write(diff)
open(d+'/demo_test.go','w').write(spec['demo'])
shutil.copy('/verif/tools/demo.sh',d+'/demo.sh')
json.dump({k:spec[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
shutil.rmtree(f'/tmp/seedwork/mk{sid}')
