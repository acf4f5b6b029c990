import json,os,re
star={
"Kx-cache-by-process":"C03: one observations object conditions two measures",
"fitc-noise-accumulates":"C05: the same object used with two measures, in both orders",
"logpdf-missing-first-column":"C15: columns of which all values are missing",
"lazy-store-transposed":"C18: more elements, accessed in a random order",
"diff-approx-order":"C19: third and fourth order",
"bounds-numpy-sqrt":"C16: gradients of the credible bounds",
"mean-var-noise-diag":"C24: dense noise and all joint accessors",
"dimensionality-by-id":"C26: products with sizes, dropping and reallocating kernels",
"ps-order-by-set":"C26: order of processes of posteriors",
"global-state-not-stored":"C08: two draws without a state, for every backend",
"measure-state-not-stored":"C08: the same for a measure",
}
by={}
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json'))
    by.setdefault(m['property'],[]).append(d)
out=[]
for p in sorted(by):
    out.append(f"* {p}: "+", ".join(d+("*" if d in star else "") for d in by[p]))
out.append("\nWhat was added for the starred ones: "+"; ".join(f"{k} ({v})" for k,v in star.items() if k in sum(by.values(),[]))+".")
s=open('DESIGN.md').read()
a,rest=s.split('is:\n\n',1) if False else (None,None)
block="<!-- planted -->\n"+"\n".join(out)+"\n<!-- /planted -->"
if '<!-- planted -->' in s:
    s=re.sub(r'<!-- planted -->.*<!-- /planted -->',lambda m:block,s,flags=re.S)
else:
    s=s.replace('\nPLANTED\n','\n'+block+'\n')
open('DESIGN.md','w').write(s)
