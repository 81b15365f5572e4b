import json,sys
d=json.load(open(sys.argv[1])); t=d.get('trace',d); n=d.get('events_explained')
print(t['id'],t['cfg'],n)
for k,e in enumerate(t['ev']):
    o=e.get('op')
    print('>>' if k==n else '  ',k,e.get('t'),e['e'],e.get('p',''),(o and ' '.join(f'{a}={b}' for a,b in o.items() if a!='m')) or '',(o and o.get('m') and o['m']['id']) or '',e.get('res',''),e.get('given',''),e.get('m') and e['m']['id'] or '', e.get('c',''))
    if n is not None and k>n+12: break
for s in d.get('specification_states_there',[]): print(s[:1500]); print()
