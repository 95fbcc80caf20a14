#!/usr/bin/env python3
"""show.py FILE.nd ID [upto]: print a trace compactly"""
import sys,json
for l in open(sys.argv[1]):
    if '"id":"%s"'%sys.argv[2] in l:
        t=json.loads(l)
        def el(e): return {'S':'S%d'%e['s'],'D':'D%d=%d'%(e['key'],e['v']),'E':'E%d%s'%(e['s'],'!' if e['c'] and e['c'][0][0]==0 else ''),'X':'X'}[e['k']]
        for i,e in enumerate(t['ev']):
            if len(sys.argv)>3 and i>=int(sys.argv[3]): break
            s=' '.join('%s=%s'%(k,(' '.join(map(el,v)) if k=='flash' else el(v) if k in('el','st') else v)) for k,v in e.items() if k!='e')
            print(i+1,e['e'],s)
