import json,os
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json')); rows.append((d,m['property'],m['needs']))
by={}
for d,p,n in rows: by.setdefault(p,[]).append((d,n))
out=['## Planted bugs','',
'Every change kept in `seeded/` was written from the text of a property and the code, builds, passes',
'the 538 tests, has a demonstration of its own, and is caught by the quick check of its property at',
'seed 1 (re-run after every change of the generators). What each needs in order to manifest:','',
'| caught by | change | needs |','|---|---|---|']
for p in sorted(by):
    for d,n in by[p]: out.append(f'| {p} | {d} | {n} |')
out+=['',
'Besides these, some 150 hand-written and a random sample of some thousand syntactic mutants of `mpd` and `xml`',
'(deleted statements, forced conditions, swapped operators, shifted constants, dropped cases,',
'errors swallowed) that pass the tests were run against the checks; the survivors were read one by one.',
'What was a gap led to a stronger check: scribbled scratch buffers, tasks that wait for each other',
'and destinations that write again (P01, P03-P05); name tables and runs near powers of two (P06);',
'settings that change how a text reads (P08); infinities, foreign lexical forms, unknown content,',
'shuffled children (P09); first hop against the manifest (P10); zeroed tails (P07); values at full',
'width (P11); many namespaces wanting one prefix (P16); `,any,attr` and nested text callbacks (P17).',
'What was not: changes of unused fields or of memory only, of the wording of errors (except where P06',
'compares it between deliveries), of behaviour the fork shares with encoding/xml for misuse',
'(RawToken mixed with DecodeElement), and nil against empty slices.','']
s=open('/verif/DESIGN.md').read()
i=s.find('## Planted bugs')
if i>=0: s=s[:i].rstrip()+'\n'
s=s.rstrip()+'\n\n'+'\n'.join(out)
open('/verif/DESIGN.md','w').write(s)
