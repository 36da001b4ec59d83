import sys,json
for l in sys.stdin:
    try: d=json.loads(l)
    except ValueError: print(l); continue
    print(d['contract'],'| obs',len(d['obs']),'paths',d['paths'],d['secs'],'pass',d['pass'],'skip',d['skip'],d['csecs'],str(d['fail'])[:300])
    for o in d['obs']:
        if o['status']!='proved': print('    ',str(o)[:600])
