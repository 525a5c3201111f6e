"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMO_CPP_BODY-file : makes seeded/ID from a textual replacement in a scratch copy of the file"""
import sys,os,json,subprocess
def mk(id,prop,edits,needs,breaks,demo,link=''):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    for f,a,b in edits:
        p='/repo/'+f; s=open(p,newline='').read(); nl='\r\n' if '\r\n' in s else '\n'
        a2,b2=a.replace('\n',nl),b.replace('\n',nl)
        assert s.count(a2)==1,(id,f,s.count(a2))
        open(p,'w',newline='').write(s.replace(a2,b2))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -include cstdint -w -I include "$here/demo.cpp" -o "$t/demo" %s || exit 3
cd "$t" && ./demo
'''%link)
