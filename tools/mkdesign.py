import json,sys,os
sys.path.insert(0,'/verif/bin'); sys.dont_write_bytecode=True
import props
head = open('/verif/tools/design_head.md').read()
tail = open('/verif/tools/design_tail.md').read()
per = {}
cur = None
for l in open('/verif/tools/design_props.md'):
    if l.startswith('## G'):
        cur = l.split()[1]; per[cur] = ''
    elif cur: per[cur] += l
out = head
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); i = d['id']
    q = props.P[i]; hs = sorted({h for h,_,_ in q['quick']+q.get('thorough',[])})
    out += f"### {i} {d['title']}\n\n"
    out += per.get(i,'').strip() + "\n\n"
    out += f"*Bounds (thorough in parentheses)*: {q['bounds']}. *Harnesses*: {', '.join('`'+h+'`' for h in hs)}; {len(q['quick'])} quick jobs, {len(q.get('thorough',[]))} more in thorough.\n\n"
k = json.load(open('/verif/known_findings.json'))
tail = tail.replace('@FIXED@', '\n'.join('* '+x.replace('fixed: property=','') for x in k['fixed']))
tail = tail.replace('@OPEN@', '\n'.join(f"* {x['property']} (`{x['harness']}`): {x['what']}" for x in k['findings']))
ids = sorted(os.listdir('/verif/seeded'))
try: res = json.load(open('/verif/tools/seed_results.json'))
except OSError: res = {}
rows = ["| bug | what it breaks | result |", "|---|---|---|"]
for i in ids:
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks'].replace('|','/')} | {res.get(i,'not run yet')} |")
tail = tail.replace('@N@', str(len(ids))).replace('@TABLE@', '\n'.join(rows))
out += tail
open('/verif/DESIGN.md','w').write(out)
