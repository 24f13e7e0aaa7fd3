ed1 () 
{ 
    python3 - "$@" <<'P'
import sys
f,a,b=sys.argv[1:4]; n=int(sys.argv[4]) if len(sys.argv)>4 else 1
s=open(f).read(); a=a.replace('\\n','\n').replace('\\t','\t'); b=b.replace('\\n','\n').replace('\\t','\t')
assert s.count(a)>=1,(f,a)
s=s.replace(a,b,n) if n else s.replace(a,b)
open(f,'w').write(s)
P

}
