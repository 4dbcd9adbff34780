"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines=open(R+'/DESIGN.md').read().splitlines()
rows=[i for i,l in enumerate(lines) if re.match(r'\| s\d',l)]
assert rows==list(range(rows[0],rows[-1]+1))
def key(i): m=re.match(r's(\d+)(.*)',i); return (int(m.group(1)),m.group(2))
new=[]
for i in sorted(os.listdir(R+'/seeded'),key=key):
    m=json.load(open(f'{R}/seeded/{i}/meta.json')); new.append(f"| {i} | {m['property']} | {m['needs']} |")
lines[rows[0]:rows[-1]+1]=new
open(R+'/DESIGN.md','w').write('\n'.join(lines)+'\n')
