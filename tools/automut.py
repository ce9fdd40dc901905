import ast, sys, random, json
PKG='/repo/zcollection/'
FILES={ # file: (tests, checks)
'merging/period.py':('merging','C21 C04'),
'merging/time_series.py':('merging','C04'),
'merging/__init__.py':('merging','C09 C10 C01'),
'partitioning/abc.py':('partitioning','C02 C03'),
'partitioning/date.py':('partitioning','C02 C03'),
'partitioning/sequence.py':('partitioning','C02 C03'),
'expression.py':('tests/test_expression.py','C05'),
'sync.py':('tests/test_sync.py','C23 C11'),
'fs_utils.py':('tests/test_fs_utils.py collection','C17 C03 C18'),
'dask_utils.py':('tests/test_dask_utils.py collection','C12 C17 C06'),
'storage.py':('tests/test_storage.py collection','C16 C01 C09 C08 C20'),
'meta.py':('tests/test_meta.py collection','C16 C08 C19'),
'dataset.py':('tests/test_dataset.py collection','C19 C01'),
'variable/abc.py':('variable tests/test_dataset.py','C19 C16'),
'variable/array.py':('variable tests/test_dataset.py','C19 C16'),
'variable/delayed_array.py':('variable tests/test_dataset.py','C19 C16 C01'),
'indexing/abc.py':('indexing','C15'),
'collection/abc.py':('collection','C05 C07 C01 C22 C18'),
'collection/__init__.py':('collection','C08 C09 C05 C06 C17 C20 C18 C16 C11'),
'collection/detail.py':('collection','C06 C07 C09 C11'),
'view/__init__.py':('view','C13 C14 C24'),
'view/detail.py':('view','C13 C14 C24'),
'convenience/collection.py':('collection','C16 C18'),
'convenience/view.py':('view','C13'),
}
CMP={ast.Lt:['<=','>'],ast.LtE:['<'],ast.Gt:['>='],ast.GtE:['>'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
def muts(file):
    text=open(PKG+file).read(); tree=ast.parse(text); lines=text.split('\n')
    offs=[0]
    for l in text.encode().split(b'\n'): offs.append(offs[-1]+len(l)+1)
    raw=text.encode()
    def pos(n): return offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset
    def seg(n): a,b=pos(n); return raw[a:b].decode()
    out=[]
    skip=set()
    for node in ast.walk(tree):
        if isinstance(node,(ast.FunctionDef,)) and node.name in('__repr__','__str__','_repr_html_','_repr_','get_fs'):
            for s in ast.walk(node): skip.add(id(s))
        if isinstance(node,ast.Raise) or isinstance(node,ast.AnnAssign) and node.value is None:
            for s in ast.walk(node): skip.add(id(s))
        if isinstance(node,ast.Call) and ast.unparse(node.func) in('_LOGGER.debug','_LOGGER.info','_LOGGER.warning','warnings.warn'):
            for s in ast.walk(node): skip.add(id(s))
        if isinstance(node,(ast.FunctionDef,ast.arg)):
            if getattr(node,'annotation',None):
                for s in ast.walk(node.annotation): skip.add(id(s))
            if getattr(node,'returns',None):
                for s in ast.walk(node.returns): skip.add(id(s))
        if isinstance(node,ast.AnnAssign):
            for s in ast.walk(node.annotation): skip.add(id(s))
    def add(node,new,kind):
        a,b=pos(node)
        out.append((kind,node.lineno,a,b,new))
    for node in ast.walk(tree):
        if id(node) in skip: continue
        if isinstance(node,ast.Compare) and len(node.ops)==1:
            for op in CMP.get(type(node.ops[0]),[]):
                add(node,f'({seg(node.left)} {op} {seg(node.comparators[0])})','cmp')
        elif isinstance(node,ast.BoolOp):
            op=' or ' if isinstance(node.op,ast.And) else ' and '
            add(node,'('+op.join('('+seg(v)+')' for v in node.values)+')','bool')
            for i in range(len(node.values)):
                add(node,'('+seg(node.op and node.values[i])+')','bool1')
        elif isinstance(node,ast.UnaryOp) and isinstance(node.op,ast.Not):
            add(node,'('+seg(node.operand)+')','not')
        elif isinstance(node,ast.Constant):
            if node.value is True or node.value is False:
                add(node,str(not node.value),'const')
            elif isinstance(node.value,int):
                add(node,str(node.value+1),'const')
        elif isinstance(node,(ast.If,ast.IfExp)):
            add(node.test,'True','iftrue'); add(node.test,'False','iffalse')
        elif isinstance(node,ast.Expr) and isinstance(node.value,ast.Call):
            add(node,'pass','delstmt')
        elif isinstance(node,ast.Call):
            for i,k in enumerate(node.keywords):
                if k.arg is None: continue
                args=[seg(a) for a in node.args]+[ (f'{q.arg}={seg(q.value)}' if q.arg else f'**{seg(q.value)}') for j,q in enumerate(node.keywords) if j!=i]
                add(node,f'{seg(node.func)}({", ".join(args)})','delkw')
            f=ast.unparse(node.func)
            if f in('sorted','tuple','list','set','copy','dict') and len(node.args)==1 and not node.keywords:
                add(node,f'({seg(node.args[0])})','unwrap')
        elif isinstance(node,ast.With):
            pass
        elif isinstance(node,ast.BinOp):
            for a,b in ((ast.Add,'-'),(ast.Sub,'+'),(ast.BitAnd,'|'),(ast.BitOr,'&'),(ast.FloorDiv,'%')):
                if isinstance(node.op,a): add(node,f'({seg(node.left)} {b} {seg(node.right)})','arith')
        elif isinstance(node,(ast.Continue,)):
            add(node,'pass','cont')
        elif isinstance(node,ast.Return) and node.value is not None and not isinstance(node.value,ast.Constant):
            pass
        elif isinstance(node,ast.Slice):
            if node.lower is not None: add(node.lower,f'({seg(node.lower)}) + 1','slice')
            if node.upper is not None: add(node.upper,f'({seg(node.upper)}) - 1','slice')
    res=[]
    for kind,line,a,b,new in out:
        t=(raw[:a]+new.encode()+raw[b:]).decode()
        try: compile(t,'x','exec')
        except Exception: continue
        res.append(dict(file=file,kind=kind,line=line,a=a,b=b,new=new,old=raw[a:b].decode()))
    return res
if __name__=='__main__':
    random.seed(int(sys.argv[1])); n=int(sys.argv[2])
    allm=[]
    for f in FILES:
        m=muts(f); print(f,len(m)); allm+=m
    print(len(allm))
    random.shuffle(allm)
    json.dump(allm if n==0 else allm[:n],open('/tmp/w/am/list.json','w'))
