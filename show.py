import json,glob,sys,os
f=max(glob.glob('replays/%s*'%sys.argv[1]),key=os.path.getmtime); d=json.load(open(f))
print(d['class'],'|',d['detail']); e=d['events']; print(e if isinstance(e,str) else '\n'.join(map(str,e)))
