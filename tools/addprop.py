def add(known, propline, meta):
    p='/verif/known-findings.txt'; s=open(p).read()
    i=s.index("\nfinding: property")+1; s=s[:i]+known+s[i:]
    open(p,'w').write(s)
    p='/verif/props.py'; s=open(p).read().rstrip(); assert s.endswith('}')
    open(p,'w').write(s[:-1]+propline+'}\n')
    p='/verif/meta_props.py'; s=open(p).read().rstrip()
    open(p,'w').write(s+'\n\n'+meta)
