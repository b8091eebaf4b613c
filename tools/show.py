#!/usr/bin/env python3
"""tools/show.py PROP: one line per recorded violation."""
import json,glob,sys
for f in sorted(glob.glob(f'/verif/.work/replay/{sys.argv[1]}-*.json')):
    d=json.load(open(f)); h=d['data'].get('history',[]) if isinstance(d['data'],dict) else []
    print(d['what'][:200], [ (s['op'],s['k'],s['j'],''.join(s['st'])) for s in h[1:]] if h and 'op' in h[-1] else h)
