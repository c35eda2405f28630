import sys,os,shutil,subprocess,concurrent.futures as cf,runpy
E=runpy.run_path(sys.argv[1])['EDITS']; only=sys.argv[2:]
def one(ed):
    name,props,changes=ed
    d='/tmp/quick/b-'+name
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/elsie',d+'/elsie',ignore=shutil.ignore_patterns('__pycache__'))
    for path,old,new in changes:
        s=open(d+'/'+path).read()
        if old not in s: return name,'NOT FOUND '+old[:60]
        s=s.replace(old,new,1); open(d+'/'+path,'w').write(s)
        compile(s,path,'exec')
    out=[]
    for p in props.split():
        r=subprocess.run(['python3','/verif/sa/check.py',p],env=dict(os.environ,ELSIE_SA_REPO=d),capture_output=True,text=True)
        lines=[l for l in r.stdout.splitlines()[1:] if 'VIOLATION' not in l]
        out.append('%s rc=%d %s %s'%(p,r.returncode,' | '.join(lines)[:230],r.stderr[-200:]))
    shutil.rmtree(d)
    return name,'\n    '.join(out)
with cf.ThreadPoolExecutor(8) as ex:
    for n,o in ex.map(one,[e for e in E if not only or e[0] in only]):
        bad=n.startswith('ok')
        flag='' if ('rc=1' in o)!=bad else '   <<<<<<<'
        print(n,':',o,flag)
