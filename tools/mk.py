"""mk.py: reads a seed description from stdin: 
@id ID PROP PKG [flags]
@needs ...
@breaks ...
@edit FILE
<<<<
old
====
new
>>>>
@demo
go code
"""
import sys,re,subprocess,os
src=sys.stdin.read()
R='/tmp/sd/repo'
subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
for blk in re.split(r'(?m)^@@@\n',src):
    if not blk.strip(): continue
    idl=re.search(r'(?m)^@id (.*)$',blk).group(1).split()
    needs=re.search(r'(?m)^@needs (.*)$',blk).group(1)
    br=re.search(r'(?m)^@breaks (.*)$',blk).group(1)
    for m in re.finditer(r'(?ms)^@edit (\S+)\n(.*?)(?=^@edit|^@demo)',blk):
        p=os.path.join(R,m.group(1)); s=open(p).read()
        for e in re.finditer(r'(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>',m.group(2)):
            a,b=e.group(1),e.group(2)
            if not a: s+='\n'+b; continue  # nothing to replace: append
            if s.count(a)!=1: print('EDIT FAILS',idl[0],s.count(a),a); 
            s=s.replace(a,b,1)
        open(p,'w').write(s)
    demo=blk[blk.index('@demo\n')+6:]
    open('/tmp/sd/demo_test.go','w').write(demo)
    open('/tmp/sd/meta','w').write(needs+'\n'+br)
    print(subprocess.run(['bash','/verif/tools/mkseed.sh',idl[0],idl[1],idl[2],' '.join(idl[3:])],capture_output=True,text=True).stdout.strip())
