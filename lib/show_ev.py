from absint import *
def ls(bits, drop=("arg:",)):
    return "{" + ",".join(sorted(x for x in (labstr(l) for l in labset(bits)) if not x.startswith(drop))) + "}"
def gs(e):
    out=[]
    for a in e.atoms():
        pre=''
        if a[0]=='exit': pre='exit-'+a[1]+' '; a=a[2]
        if a[0]=='var': out.append(pre+f"{a[1]}={'|'.join(sorted(a[2]))}{ls(a[3])}")
        elif a[0]=='b': out.append(pre+('' if a[3] else '!')+f"{a[1]}({', '.join(ls(x) for x in a[2])})")
        else: out.append(pre+atomstr(a))
    return out
def show(db,evs,first=0,maxl=260,guards=True):
    seen=set()
    for e in evs:
        k=(e.name,tuple(ls(a.AL) for a in e.args[first:]),tuple(sorted(gs(e))) if guards else 0)
        if k in seen: continue
        seen.add(k)
        print(e.kind,e.name,'@',db.short(e.fn),e.line,' | '.join(ls(a.AL)[:maxl] for a in e.args[first:]))
        if guards:
            for g in sorted(set(gs(e))): print('        if',g[:200])
