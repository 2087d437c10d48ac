# usage: mkseed.py <dir> <prop> ; stdin: JSON {"edits":[[file,old,new],...],"needs":..,"what":..,"demo":go body or full file}
import sys,json,subprocess,os,shutil
name,prop=sys.argv[1:3]
d=json.load(sys.stdin) if len(sys.argv)<4 else json.load(open(sys.argv[3]))
sr='/tmp/sr'
subprocess.run(['rm','-rf',sr]);subprocess.check_call(['cp','-a','/repo',sr])
for f,o,n in d['edits']:
    p=sr+'/'+f;s=open(p).read();assert s.count(o)==1,(f,s.count(o),o);open(p,'w').write(s.replace(o,n))
diff=subprocess.check_output(['git','-C',sr,'diff']).decode()
out='/verif/seeded/'+name;os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(diff)
for f in ('demo.sh','helper_test.go'): shutil.copy('/verif/tools/seed/'+f,out+'/'+f)
os.chmod(out+'/demo.sh',0o755)
if 'sh' in d: open(out+'/demo.sh','w').write(d['sh']); os.remove(out+'/helper_test.go')
else:
    body=d['demo']
    if not body.startswith('package'):
        imps=set(d.get('imports',[]))|{'testing'}
        body='package server_test\n\nimport (\n'+''.join('\t%s\n'%(i if '"' in i else '"%s"'%i) for i in sorted(imps))+')\n\n'+body
    open(out+'/demo_test.go','w').write(body)
    subprocess.run(['gofmt','-w',out+'/demo_test.go'])
json.dump({"property":prop,"needs":d['needs'],"what_it_breaks":d['what']},open(out+'/meta.json','w'),indent=1)
def run(tree):
    return subprocess.run(['bash',out+'/demo.sh'],cwd=tree,capture_output=True,text=True)
env=dict(os.environ)
b=subprocess.run('go build ./... && go vet ./pkg/ldapserver >/dev/null 2>&1; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | tail -12',shell=True,cwd=sr,capture_output=True,text=True)
print('tests:',b.stdout[-600:],b.stderr[-600:])
r=run('/repo');print('clean',r.returncode,'' if r.returncode==0 else r.stdout[-1500:]+r.stderr[-500:])
r=run(sr);print('seeded',r.returncode,r.stdout[-400:])
