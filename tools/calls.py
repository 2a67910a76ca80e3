import json,glob,collections,sys,os
d=json.load(open(max(glob.glob('/verif/build/dump-*.json'),key=os.path.getmtime)))
T=d['types']
loc=[f for f in d['fns'] if f['local']]
c=collections.Counter(); fl={}; ex={}
sel = loc if len(sys.argv)<2 else [f for f in d['fns'] if not f['local']]
for f in sel:
    for b in f['blocks']:
        if b and b['t'][0]=='call':
            k=b['t'][1]
            if 'path' in k and not k['local'] :
                key=(k['path'],'inst' in k,'dinst' in k)
                c[key]+=1
                fl[key]=''.join(['D' if k.get('docs_panic') else '','T' if k.get('track_caller') else ''])
                ex[key]=','.join(T[a]['s'][:60] for a in k['args'] if isinstance(a,int))
for k,v in sorted(c.items()): print(v,k[0],'INST' if k[1] else '','DINST' if k[2] else '',fl[k],'|',ex[k])
