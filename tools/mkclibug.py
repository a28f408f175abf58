"""mkclibug.py ID PROP < spec: like mkbug.py, the demonstration is a shell script (@@@CASE) run with the built gocfl command"""
import sys,os,json,subprocess,re,shutil
bid,prop=sys.argv[1:3]
s=sys.stdin.read()
head,rest=s.split('\n@@@CASE\n',1)
needs=re.search(r'^needs: (.*)$',head,re.M).group(1); breaks=re.search(r'^breaks: (.*)$',head,re.M).group(1)
S='/verif/seeded/'+bid; os.makedirs(S,exist_ok=True)
assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
try:
    for m in re.finditer(r'^<<<(\S+)\n(.*?)\n===\n(.*?)\n?>>>$',head,re.M|re.S):
        f='/repo/'+m.group(1); t=open(f).read(); n=t.count(m.group(2))
        assert n==1,(f,n,m.group(2))
        open(f,'w').write(t.replace(m.group(2),m.group(3)))
    d=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
finally:
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
open(S+'/patch.diff','w').write(d)
open(S+'/case.sh','w').write(rest)
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(S+'/meta.json','w'),indent=1)
K='/verif/tools/demokit/cli/'
for f in os.listdir(K): shutil.copy(K+f,S+'/'+f)
sys.exit(subprocess.run(['/verif/tools/vetbug.sh',bid]).returncode)
