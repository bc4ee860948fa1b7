import sys; sys.path.insert(0,'/verif/lib')
import facts, json
db=facts.load(verbose=False)
def op(o):
    if o['c'] in('mv','cp'): return pl(o['p'])
    if o['c']=='fn':
        s=db.short(o.get('r') or o['id']); 
        x=o.get('via')
        return s+(f" via {db.short(x)}" if x else '')+(f"[{o['rk']}]" if o['rk']!='item' else '')
    return 'const '+json.dumps({k:v for k,v in o.items() if k not in('c','t')})
def pl(p):
    r='_%d'%p[0]
    for e in p[1:]:
        if e=='*': r='*'+r
        elif isinstance(e,str): r+='.'+e
        elif e[0]=='f': r+='.'+e[3]
        else: r+='.'+':'.join(map(str,e))
    return r
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return ('&mut ' if r[1] else '&')+pl(r[2])
    if k=='discr': return 'discr '+pl(r[1])
    if k=='agg':
        a=r[1]
        n=a[0]+' '+(db.adt_short(a[1])+'::'+a[2] if a[0]=='adt' else (db.short(a[1]) if len(a)>1 and isinstance(a[1],str) else ''))
        return n+'('+', '.join(op(x) for x in r[2])+')'
    return k+' '+' '.join(op(x) if isinstance(x,dict) and 'c' in x else str(x) for x in r[1:])
def show(f):
    print('==',f.name,f.file,f.line,f.kind)
    for i,l in enumerate(f.locals): 
        if i<=f.argc or l.get('n'): print('  _%d: %s %s'%(i,l['s'],l.get('n','')))
    for i,b in enumerate(f.blocks):
        if b.get('u'): continue
        print(f' bb{i} L{b["l"]}:')
        for s in b['s']: print('   ',pl(s[0]),'=',rv(s[1]))
        t=b['t']
        if t[0]=='call': print('    ',pl(t[3]) ,'= call',op(t[1]),'(',', '.join(op(x) for x in t[2]),') ->',t[4])
        elif t[0]=='switch': print('    switch',op(t[1]),t[2],t[3],t[4])
        elif t[0]=='assert': print('    assert',op(t[1]) if isinstance(t[1],dict) else t[1],t[2:5])
        else: print('    ',t)
if __name__=='__main__':
    for a in sys.argv[1:]:
        v=[f for f in db.fns.values() if f.short==a] or [f for f in db.fns.values() if a in f.name]
        for f in v: show(f)
