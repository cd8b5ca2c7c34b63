import json,sys
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='v': s+=' as v%d'%e[1]
        else: s+=str(e)
    return s
def ty(t):
    k=t['k']
    if k in('int','uint','float','param'): return t['n']
    if k=='adt': return t['n'].split('::')[-1]+('<%s>'%','.join(ty(x) for x in t['a']) if t['a'] else '')
    if k=='ref': return '&'+('mut ' if t['m'] else '')+ty(t['e'])
    if k=='ptr': return '*'+('mut ' if t['m'] else '')+ty(t['e'])
    if k=='tuple': return '(%s)'%','.join(ty(x) for x in t['a'])
    if k=='closure': return 'clo:'+t['u'].split('::')[-1]
    if k in('slice',): return '[%s]'%ty(t['e'])
    if k=='array': return '[%s;%s]'%(ty(t['e']),t['n'])
    if k=='o': return t['s']
    if k=='c' : return t['v']
    return k+str(t.get('n',''))
def op(o):
    if o['k'] in('copy','move'): return pl(o['p'])
    if o['k']=='const':
        for x in('bits','str','def','tyc','ptr','mem'):
            if x in o: return 'c:%s=%s'%(x,str(o[x])[:80])+(':'+str(o.get('promoted')) if 'promoted' in o else '')
        return 'const '+ty(o['t'])
    return str(o)
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['m'] else '')+pl(r['p'])
    if k=='rawptr': return '&raw '+pl(r['p'])
    if k=='cast': return '%s as %s (%s)'%(op(r['o']),ty(r['t']),r['c'])
    if k=='bin': return '%s(%s, %s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['a']))
    if k=='discr': return 'discr(%s)'%pl(r['p'])
    if k=='agg': return '%s{%s}'%(r['a'].get('n',r['a'].get('u',r['a']['k']))+(':v%d'%r['a']['v'] if 'v' in r['a'] else ''),', '.join(op(x) for x in r['f']))
    return str(r)
def show(f):
    b=f['body']
    print('fn',f['uid'],f['path'],f['gens'],'argc',b['argc'])
    for i,t in enumerate(b['locals']): print('   _%d: %s'%(i,ty(t)))
    print('  names',[(n,pl(p)) for n,p in b['names']])
    for i,bb in enumerate(b['bbs']):
        if bb['c']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('    ',s)
        t=bb['t']
        if t['k']=='call': 
            ft=t['fty']
            nm=ft.get('n') or ft
            r=ft.get('r')
            print('    %s = %s [%s] (%s) -> %s'%(pl(t['d']),nm,(r or {}).get('n') if r and r['n']!=nm else '',', '.join(op(a) for a in t['a']),t['t']))
        elif t['k']=='switch': print('    switch',op(t['o']),t['v'],'else',t['else'])
        elif t['k']=='assert': print('    assert',op(t['o']),t['e'],t['m'],[op(x) for x in t['mo']],'->',t['t'])
        else: print('    ',{k:v for k,v in t.items()})
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for f in d['fns']:
        if any(a in f['uid'] for a in sys.argv[2:]): show(f)
