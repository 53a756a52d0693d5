"""mkq.py: like mk.py for behaviour-preserving edits: blocks '@id ID', '@edit FILE' ... separated by @@@; writes quiet/ID.diff."""
import sys,re,subprocess,os
src=sys.stdin.read(); R='/tmp/sd/repo'
for blk in re.split(r'(?m)^@@@\n',src):
    if not blk.strip(): continue
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    i=re.search(r'(?m)^@id (.*)$',blk).group(1).split()[0]
    for m in re.finditer(r'(?ms)^@edit (\S+)\n(.*?)(?=^@edit|\Z)',blk):
        p=os.path.join(R,m.group(1)); s=open(p).read()
        for e in re.finditer(r'(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>',m.group(2)):
            a,b=e.group(1),e.group(2)
            if not a: s+='\n'+b; continue  # nothing to replace: append
            if s.count(a)!=1: print('EDIT FAILS',i,s.count(a),a)
            s=s.replace(a,b,1)
        open(p,'w').write(s)
    d=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    open('/verif/quiet/%s.diff'%i,'w').write(d)
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    print('made',i,len(d.splitlines()))
