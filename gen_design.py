#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, evidence/ and seeded/."""
import json,os,re,glob
os.chdir('/verif')
props=[json.loads(l) for l in open('properties.jsonl')]
text={}
cur=None
for l in open('design.props.md'):
    m=re.match(r'## (C\d\d)',l)
    if m: cur=m.group(1); text[cur]=''
    elif cur: text[cur]+=l
out=[]
common={'ordinary words','texts after many lines','repeated and nested constructs'}
def n(x):
    return f"{x:,}".replace(',',' ')
for p in props:
    i=p['id']; out.append(f"### {i} {p['title']}\n\n{text[i].strip()}\n")
    e=json.load(open(f'evidence/{i}.json')); c=e['coverage']
    assert e['violations']==0 and e['tier']=='quick',i
    s='; '.join(f"{s['name']} {n(s['traces'])}"+(f" ({n(s['states'])} states)" if s.get('states',s['traces'])!=s['traces'] else '') for s in c['spaces'])
    out.append(f"Quick spaces (replayed traces): {s}. Total {n(c['traces_validated_against_impl'])} traces, {n(c['traces_accepted_by_impl'])} accepted and {n(c['traces_rejected_by_impl'])} rejected by the code; {e['wall_s']:.0f} s.\n")
    t=f'thorough/{i}.json'
    if os.path.exists(t):
        e=json.load(open(t)); c=e['coverage']
        inc=[s['name'] for s in c['spaces'] if not s['complete']]
        out.append(f"Thorough: {n(c['traces_validated_against_impl'])} traces in {e['wall_s']:.0f} s"+(", not completed within its time: "+', '.join(inc) if inc else ", every space completed")+".\n")
known=[l.strip() for l in open('known-findings.txt')]
fixed='\n'.join('* '+' '.join(l.split()[1:]).replace('property=','') for l in known if l.startswith('fixed:'))
nk=sum(l.startswith('known:') for l in known)
bugs=['| bug | caught by | needs | what it breaks |','|---|---|---|---|']
ms=sorted(glob.glob('seeded/*/meta.json'))
for f in ms:
    m=json.load(open(f)); q=lambda s:' '.join(str(s).split()).replace('|','\\|')
    bugs.append(f"| {f.split('/')[1]} | {m['property']} | {q(m['needs'])} | {q(m['what_it_breaks'])} |")
d=open('design.in.md').read()
for k,v in {'{PROPERTIES}':'\n'.join(out),'{FIXED}':fixed,'{NKNOWN}':str(nk),'{NBUGS}':str(len(ms)),'{BUGS}':'\n'.join(bugs),'{MUTANTS}':'474','{MRUN}':'110','{MNONE}':'16','{MORE}':''}.items():
    d=d.replace(k,v)
open('DESIGN.md','w').write(d)
