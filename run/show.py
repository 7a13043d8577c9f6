import json,sys
n=0
for i in range(8):
  for l in open('/tmp/try.%d.nd'%i):
    h=json.loads(l)
    if h.get('sus') or any(e['e']=='x' for e in h['ev']):
        n+=1
        if n>int(sys.argv[1]): sys.exit()
        print('--',i,h['id'],{k:v for k,v in h.items() if k not in('id','ev')})
        for e in h['ev']: print('  ',json.dumps(e)[:400])
