import json,os,re
s=open('DESIGN.md').read()
n=len([l for l in open('known_findings.txt') if l.startswith('fixed:')])
commits=set(l.split()[2] for l in open('known_findings.txt') if l.startswith('fixed:'))
s=re.sub(r'(?m)^\d+ defects, all', '%d defects, all'%n, s)
s=s.replace("* **G03** `is_zero ==  is_well_formed` and every conversion.","* **G03** `is_zero ==  is_well_formed`, every conversion, every construction from affine coordinates.")
s=s.replace("**G03** `is_zero ==  is_well_formed` and every conversion.","**G03** `is_zero ==  is_well_formed`, every conversion, every construction from affine coordinates.")
s=s.replace("every insertion order up to size 3 (5), values arrived at as sums.\n","every insertion order up to size 3 (5), values arrived at as sums; its `Compare` action judges `==`/`!=` of every\n  stored record that differs in one component.\n") if 'its `Compare` action' not in s else s
i=s.index('| bug | needs | caught by |')
h=s[:i]+'| bug | needs | caught by |\n|---|---|---|\n'
rows=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s |'%(d,m['needs'].replace('|','/'),d.split('-')[0]))
rest=s[i:].split('\n'); tail=[l for l in rest if not l.startswith('|')]
open('DESIGN.md','w').write(h+'\n'.join(rows)+'\n'+'\n'.join(tail).lstrip('\n'))
print(n,len(commits),len(rows))
