import json,os
p='/verif/DESIGN.md'; s=open(p).read()
miss={'C01-floor-sign':'written for C02; caught by C01 (C02 only claims the sign symmetry with absolute dispersions)',
'C09-one-side':'missed at first (the continuum side of the line always kept two unmasked columns outside the masked groups); groups now cover each side completely',
'C13-order-two':'missed at first; usable pixels of exactly zero added to the residuals',
'C18-opposite-sign':'missed at first; chains with peak and median on either side of zero added',
'C25-flux-scale':'missed at first; a second object leaving the rotated frame added',
'C28-shift-limit':'missed at first; final position from arbitrary first estimates added (`place`)',
'C08-profile-trim':'missed at first; extraction profile added to the prepared spectra'}
rows=''
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    rows+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'],miss.get(i,'caught'))
sec='''## Seeded bugs and the checks that catch them

Each was written from the property text and the code, confirmed in a scratch copy (tests pass, demo fails
only with the patch) and run against the quick check of its property; all are caught now.

| seed | check | needs | history |
|---|---|---|---|
'''+rows+'\n'
import re
s=re.sub(r'## Seeded bugs and the checks.*?(?=## Left alone)','',s,flags=re.S)
s=s.replace('## Left alone deliberately',sec+'## Left alone deliberately')
open(p,'w').write(s)
