#!/usr/bin/env python3
"""addrow.py P31 'claim note' 'design row text': adds a claim and a DESIGN row in order (or replaces them)"""
import sys,re
i,note,row=sys.argv[1:4]
p='/verif/tools/claims.py';s=open(p).read()
ns={};exec(s,ns);C=ns['CLAIMS'];C[i]=note
rest=s[s.index('NOT={}'):]
open(p,'w').write('CLAIMS={\n'+''.join('%r:%s,\n'%(k,__import__('json').dumps(C[k])) for k in sorted(C))+'}\n'+rest)
p='/verif/DESIGN.md';L=open(p).read().split('\n')
L=[l for l in L if not l.startswith('| %s |'%i)]
idx=[k for k,l in enumerate(L) if re.match(r'\| P\d\d \|',l)]
at=next((k for k in idx if L[k][2:5]>i),idx[-1]+1)
L.insert(at,'| %s | %s |'%(i,row))
open(p,'w').write('\n'.join(L))
