"""Fills the tables of DESIGN.md (between marker comments) from known-findings.jsonl and seeded/."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def esc(s): return s.replace('|','\\|').replace('\n',' ')
rows=['| Property | Commit | What failed |','| --- | --- | --- |']
for l in open(V+'/known-findings.jsonl'):
    d=json.loads(l); rows.append(f"| {d['property']} | {d['commit']} | {esc(d['what'])} |")
seeds=['| Planted bug | Caught by | What it needs |','| --- | --- | --- |']
L=[]
for m in glob.glob(V+'/seeded/*/meta.json'):
    d=json.load(open(m)); L.append((d['property'],os.path.basename(os.path.dirname(m)),d['needs']))
for p,i,n in sorted(L): seeds.append(f"| `{i}` | {p} | {esc(n)} |")
s=open(V+'/DESIGN.md').read()
for name,t in (('defects',rows),('seeds',seeds)):
    s=re.sub(rf'(<!-- {name} -->\n).*?(<!-- end {name} -->)',lambda m:m.group(1)+'\n'.join(t)+'\n'+m.group(2),s,flags=re.S)
open(V+'/DESIGN.md','w').write(s)
