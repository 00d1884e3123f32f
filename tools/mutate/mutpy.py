"""List mutants of a Python file: (desc, new_text)."""
import ast, copy, sys
def mutants(src):
    tree=ast.parse(src); lines=src.split("\n")
    offs=[0]
    for l in src.encode().split(b"\n"): offs.append(offs[-1]+len(l)+1)
    b=src.encode()
    def pos(l,c): return offs[l-1]+c
    out=[]
    def rep(node,new,desc):
        s,e=pos(node.lineno,node.col_offset),pos(node.end_lineno,node.end_col_offset)
        out.append((f"L{node.lineno} {desc}",(b[:s]+new.encode()+b[e:]).decode()))
    seg=lambda n: ast.get_source_segment(src,n)
    def indent_block(stmts,col):
        # source of statements re-indented to column col
        res=[]
        for st in stmts:
            t=b[pos(st.lineno,0):pos(st.end_lineno,st.end_col_offset)].decode().split("\n")
            d=st.col_offset-col
            res+= [x[d:] if x[:d].strip()=="" else x for x in t]
        return "\n".join(res)
    CM={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"==",ast.Is:"is not",ast.IsNot:"is",ast.In:"not in",ast.NotIn:"in"}
    docs=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant):
            docs.add(n.body[0])
    anns=set()
    for n in ast.walk(tree):
        for f in ("annotation","returns"):
            a=getattr(n,f,None)
            if a is not None:
                anns.update(ast.walk(a))
    infun=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,ast.Lambda)):
            for m in ast.walk(n):
                if m is not n: infun.add(m)
    for n in ast.walk(tree):
        if n in anns or n in docs or n not in infun: continue
        if isinstance(n,(ast.If,ast.While,ast.IfExp)):
            t=n.test
            if not isinstance(t,ast.Compare): rep(t,f"(not ({seg(t)}))","negate "+seg(t)[:50])
            rep(t,"True","test True "+seg(t)[:50]); rep(t,"False","test False "+seg(t)[:50])
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=type(n.ops[0])
            if o in CM: rep(n,f"{seg(n.left)} {CM[o]} {seg(n.comparators[0])}","cmp "+seg(n)[:60])
        if isinstance(n,ast.BoolOp):
            op="or" if isinstance(n.op,ast.And) else "and"
            rep(n,f" {op} ".join(f"({seg(v)})" for v in n.values),"bool "+seg(n)[:60])
            for i in range(len(n.values)):
                rep(n,(" and " if op=="or" else " or ").join(f"({seg(v)})" for j,v in enumerate(n.values) if j!=i),f"drop operand {seg(n.values[i])[:40]}")
        if isinstance(n,ast.BinOp):
            m={ast.Add:"-",ast.Sub:"+",ast.Mult:"+",ast.FloorDiv:"*",ast.Mod:"//"}.get(type(n.op))
            if m: rep(n,f"({seg(n.left)} {m} {seg(n.right)})","binop "+seg(n)[:60])
            if m and not isinstance(n.left,ast.Constant) : rep(n,f"({seg(n.left)})","left of "+seg(n)[:60])
        if isinstance(n,ast.Constant) and not isinstance(n.value,str) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value,bool): rep(n,str(not n.value),f"const {n.value}")
            elif isinstance(n.value,int): rep(n,str(n.value+1),f"const {n.value}+1"); rep(n,f"({n.value-1})",f"const {n.value}-1")
        if isinstance(n,ast.Expr) and not isinstance(n.value,ast.Constant) : rep(n,"pass","drop "+seg(n)[:60])
        if isinstance(n,(ast.AugAssign,ast.Raise,ast.Delete)) : rep(n,"pass","drop "+seg(n)[:60])
        if isinstance(n,ast.Assign) and not isinstance(n.targets[0],ast.Name): rep(n,"pass","drop "+seg(n)[:60])
        if isinstance(n,(ast.Break,)): rep(n,"pass","drop break")
        if isinstance(n,(ast.Continue,)): rep(n,"pass","drop continue")
        if isinstance(n,ast.Return) and n.value is not None: rep(n,"return None","return None for "+seg(n)[:50])
        if isinstance(n,ast.Call):
            for k in n.keywords:
                if k.arg: 
                    rest=[seg(a) for a in n.args]+[ (f"{x.arg}=" if x.arg else "**")+seg(x.value) for x in n.keywords if x is not k]
                    rep(n,f"{seg(n.func)}({', '.join(rest)})",f"drop kw {k.arg} in {seg(n.func)[:40]}")
            if isinstance(n.func,ast.Name) and n.func.id in("list","dict","tuple","sorted","set","copy","deepcopy","int","abs") and len(n.args)==1: rep(n,seg(n.args[0]),"unwrap "+seg(n)[:50])
            if isinstance(n.func,ast.Attribute) and n.func.attr in("copy","astype","flatten","ravel","reshape","strip","resolve"): rep(n,seg(n.func.value),"unwrap ."+n.func.attr+" "+seg(n)[:50])
            if len(n.args)==2 and not n.keywords and not any(isinstance(a,ast.Starred) for a in n.args): rep(n,f"{seg(n.func)}({seg(n.args[1])}, {seg(n.args[0])})","swap args "+seg(n)[:50])
        if isinstance(n,ast.With):
            rep(n,indent_block(n.body,n.col_offset).lstrip(),"unwith "+seg(n.items[0])[:50] if hasattr(n.items[0],'lineno') else "unwith "+seg(n.items[0].context_expr)[:50])
        if isinstance(n,ast.Try):
            if n.finalbody: rep(n,indent_block(n.body,n.col_offset).lstrip() if not n.handlers else b[pos(n.lineno,n.col_offset):pos(n.handlers[-1].end_lineno,n.handlers[-1].end_col_offset)].decode(),"drop finally")
            if n.handlers: rep(n,indent_block(n.body,n.col_offset).lstrip(),"drop except")
        if isinstance(n,ast.ExceptHandler) and n.type is not None:
            if not (isinstance(n.type,ast.Name) and n.type.id=="KeyError"): rep(n.type,"KeyError","except narrowed "+seg(n.type)[:40])
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): rep(n,f"bool({seg(n.operand)})","drop not "+seg(n)[:40])
        if isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice): rep(n,seg(n.value),"drop slice "+seg(n)[:50])
        if isinstance(n,ast.For):
            rep(n.iter,f"list({seg(n.iter)})[1:]","skip first of "+seg(n.iter)[:40]); rep(n.iter,f"list({seg(n.iter)})[::-1]","reverse "+seg(n.iter)[:40])
    ok=[];seen=set()
    for d,t in out:
        if t==src or t in seen: continue
        try: ast.parse(t)
        except SyntaxError: continue
        seen.add(t); ok.append((d,t))
    return ok
if __name__=="__main__":
    m=mutants(open(sys.argv[1]).read())
    print(len(m)); 
    for d,_ in m[:400]: print(d)
