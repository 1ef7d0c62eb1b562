def dump(q, o=None, calls=(), opq=(), inl=set(), kinds=("call","assign","iter"), n=8, **kw):
    it=ctx.run(q,o or O(),lambda e: e.kind in kinds and (not calls or e.kind!="call" or e.is_call(*calls)),opaque=set(opq),inline=set(inl),**kw)
    print("==",q,len(it.ends))
    for e in it.ends[:n]:
        print(" ",e.kind,T(e.value)[:80] if e.value else None,[(x.kind,T(x.a)+("("+",".join([T(b) for b in x.b]+[f"{k}={T(v)}" for k,v in (x.c or [])])+")" if x.kind=="call" else "="+T(x.b) if x.kind=="assign" else ""))[:150] for x in e.trace])
        print("    F",[(T(k)[:70],v) for k,v in e.facts.items()][:9])
    return it
