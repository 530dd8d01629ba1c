import json,sys
d=json.load(open(sys.argv[1])); T=d['tys']
def ty(i):
    t=T[i]; k=t['k']
    if k=='adt': return t['def'].split('::')[-1]+('<'+','.join(ty(x) for x in t['args'])+'>' if t['args'] else '')
    if k=='ref': return '&'+('mut ' if t['mut'] else '')+ty(t['of'])
    if k=='ptr': return '*'+ty(t['of'])
    if k=='param': return t['name']
    if k=='tuple': return '('+','.join(ty(x) for x in t['of'])+')'
    if k in('slice','array'): return '['+ty(t['of'])+']'
    if k=='closure': return t['def'].split('::')[-2]+'::cl'
    return t.get('str',k)[:60]
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def op(o):
    if o[0]=='k':
        c=o[1]
        if 'fndef' in c: return 'fn '+c['fndef']['fn']+(' -> '+str(c['fndef'].get('res')))
        return c.get('promoted') or c.get('str') or str(c)
    return ('move ' if o[0]=='m' else '')+pl(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='addr': return 'addr '+pl(r[1])
    if k=='agg': return '%s{%s}'%(r[1],', '.join(op(o) for o in r[2]))
    if k=='cast': return 'cast %s %s as %s'%(r[1],op(r[2]),ty(r[3]))
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    return str(r)
for b in d['bodies']:
    if any(a in b['name'] for a in sys.argv[2:]):
        print('FN',b['name'],b['kind'],b['span'],'nargs',b['nargs'],'gen',b['generics'])
        for i,l in enumerate(b['locals']): print('   let _%d: %s %s'%(i,ty(l['ty']),l['name'] or ''))
        for i,bl in enumerate(b['blocks']):
            if bl['cleanup']: continue
            print('  bb%d:'%i)
            for s in bl['s']:
                if s[0]=='=': print('     ',pl(s[1]),'=',rv(s[2]))
                elif s[0]!='dead': print('     ',s)
            t=bl['t']
            if t['k']=='call': print('     ',pl(t['dest']),'=',op(t['func']),'(',', '.join(op(a) for a in t['args']),') ->',t['t'])
            elif t['k']=='switch': print('      switch',op(t['op']),t['cases'],t['otherwise'])
            else: print('     ',{k:v for k,v in t.items()})
