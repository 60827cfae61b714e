import json,sys
def place(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='deref': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='idx': s+='[_%d]'%e[1]
        elif e[0]=='down': s+='@%d'%e[1]
        else: s+=str(e)
    return s
def const(c):
    v=c['v']
    if v[0]=='fn': return 'fn '+v[1]['path']
    return '%s:%s%s'%(v[1:] if v[0]!='opaque' else v,c['ty'],' '+c['name'] if c['name'] else '')
def op(o):
    return place(o[1]) if o[0] in('copy','move') else const(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s%s'%('mut ' if r[1] else '',place(r[2]))
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return 'cast[%s] %s -> %s'%(r[1],op(r[2]),r[4])
    if k=='discr': return 'discr(%s)'%place(r[1])
    if k=='agg' and r[1]=='closure': return 'closure %s(%s)'%(r[2],','.join(map(op,r[4])))
    if k=='agg': return '%s %s@%s(%s)'%(r[1],r[2],r[3],', '.join(map(op,r[4])))
    return str(r)
def show(b):
    print('fn',b['id'],b['file'],b['line'],'argc',b['argc'], 'ext' if b['external'] else '')
    for i,t in enumerate(b['locals']): print('  _%d: %s'%(i,t))
    for i,bl in enumerate(b['blocks']):
        if bl['cleanup']: continue
        print(' bb%d:'%i)
        for s in bl['s']: print('   ',place(s[1])+' = '+rv(s[2]) if s[0]=='assign' else s)
        t=bl['t']
        if t[0]=='call':
            f=t[1]
            print('    %s = %s [%s](%s) -> %s'%(place(t[3]), f[1]['path'] if f[0]=='fn' else op(f), (f[1]['kind']+' '+f[1].get('id','-')) if f[0]=='fn' else '', ', '.join(map(op,t[2])), t[4]))
        elif t[0]=='switch': print('    switch',op(t[1]),t[3],t[4])
        elif t[0]=='drop': print('    drop',place(t[1]),'->',t[2])
        elif t[0]=='assert': print('    assert',op(t[1]),t[2],t[4],'->',t[3])
        else: print('   ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if any(a in b['id'] for a in sys.argv[2:]): show(b)
