# quick.py PROP file: file has list EDITS=[(name, path, old, new)...]
import sys,os,shutil,subprocess,concurrent.futures as cf,runpy
prop=sys.argv[1]; E=runpy.run_path(sys.argv[2])['EDITS']
def one(ed):
    name=ed[0]; d='/tmp/quick/'+prop+'-'+name
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/elsie',d+'/elsie',ignore=shutil.ignore_patterns('__pycache__'))
    for path,old,new in ([ed[1:]] if isinstance(ed[1],str) else ed[1]):
        s=open(d+'/'+path).read()
        if old not in s: return name,'NOT FOUND '+old[:40]
        s=s.replace(old,new,1); open(d+'/'+path,'w').write(s)
        compile(s,path,'exec')
    r=subprocess.run(['python3','/verif/sa/check.py',prop],env=dict(os.environ,ELSIE_SA_REPO=d),capture_output=True,text=True)
    shutil.rmtree(d)
    lines=[l for l in r.stdout.splitlines()[1:] if 'VIOLATION' not in l]
    return name,'rc=%d %s %s'%(r.returncode,' | '.join(lines)[:260],r.stderr[-200:])
with cf.ThreadPoolExecutor(8) as ex:
    for n,o in ex.map(one,E): print(n,':',o)
