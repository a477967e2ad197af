"""mkpatch.py ID property file <<< python-literal list of (old,new) replacements; writes patch.diff and meta.json"""
import sys,subprocess,os,json,ast,shutil
ID,prop,f=sys.argv[1:4]
spec=ast.literal_eval(sys.stdin.read())
REPO=os.environ.get('REPO','/repo'); V=os.environ.get('VERIF','/verif')
R=REPO+'/include/smooth/feedback/'
assert not subprocess.run(['git','-C',REPO,'status','--porcelain'],capture_output=True,text=True).stdout
t=open(R+f).read()
for o,n in spec['edits']:
    assert t.count(o)==1,(t.count(o),o)
    t=t.replace(o,n)
open(R+f,'w').write(t)
d=V+'/seeded/'+ID; os.makedirs(d,exist_ok=True)
p=subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(p)
subprocess.run(['git','-C',REPO,'checkout','-q','--','.'])
json.dump(dict(property=prop,needs=spec['needs'],what_it_breaks=spec['breaks']),open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo; builds demo.cpp against the headers of the current tree
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 %s %s-I include -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" %s || exit 3
"$T/demo"
''' % (spec.get('flags',''),'-I "$D/shim" ' if spec.get('shim') else '',spec.get('libs','')))
open(d+'/demo.cpp','w').write(spec['demo'])
if spec.get('shim'): shutil.copytree(V+'/shim',d+'/shim',dirs_exist_ok=True)
