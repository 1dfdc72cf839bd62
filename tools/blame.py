"""For every planted bug: are the lines its patch removes lines of the original repository?"""
import subprocess, re, glob, os, sys
ROOT="84138e8"
for d in sorted(glob.glob('/verif/seeded/*/')):
    p=open(d+'patch.diff').read(); f=None; tot=orig=0
    for l in p.splitlines():
        m=re.match(r'--- a/(.*)',l)
        if m: f=m.group(1); continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if f is None or l.startswith(('+++','diff','index')): continue
        if l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{n},{n}','--',f],capture_output=True,text=True).stdout
            tot+=1; orig+= b.startswith('^') 
            if not b.startswith('^'): print('  ',b[:110].strip())
            n+=1
        elif l.startswith('+'): pass
        else: n+=1
    print(os.path.basename(d[:-1]),tot,orig)
