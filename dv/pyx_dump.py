import sys, json; sys.setrecursionlimit(100000)
from Cython.Compiler import Main, Options, Parsing, Errors
from Cython.Compiler.Main import Context, CompilationOptions, default_options
from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor
import Cython; print(Cython.__version__, file=sys.stderr)
f=sys.argv[1]
opts=CompilationOptions(default_options, language_level=3)
ctx=Context.from_options(opts) if hasattr(Context,'from_options') else opts.create_context()
src=FileSourceDescriptor(f)
scope=ctx.find_module('coffe_ast', pos=(src,1,0), need_pxd=0)
[getattr(Errors,n)() for n in ("init_thread","reset") if hasattr(Errors,n)]
with open(f,encoding='utf-8') as h:
    s=PyrexScanner(h, src, source_encoding='utf-8', scope=scope, context=ctx)
    tree=Parsing.p_module(s, False, 'coffe_ast')
from Cython.Compiler.Nodes import Node
seen=set()
def js(x):
    if isinstance(x, Node):
        d={'k':type(x).__name__,'line':x.pos[1] if x.pos else 0}
        d.update((a,js(getattr(x,a))) for a in ('name','attribute','operator','value') if isinstance(getattr(x,a,None),(str,int,float,bool)))
        for a in list(x.child_attrs or ())+['decorators','args','declarator','base_type','star_arg','starstar_arg','keyword_args','positional_args','visibility','in_pxd','cname','conversion_char']:
            v=getattr(x,a,None)
            if a in('pos','parent','scope','entry','type','is_called','is_wrapper','directives') or a.startswith('_'): continue
            d[a]=js(v)
        if d['k']=='GeneratorExpressionNode' or hasattr(x,'loop') and 'loop' not in d: d['loop']=js(getattr(x,'loop',None))
        if d['k']=='ComprehensionNode': d['ctype']=str(getattr(x,'type',None))
        return d
    if isinstance(x,(list,tuple)): return [js(y) for y in x]
    if isinstance(x,(str,int,float,bool,type(None))): return str(x) if isinstance(x,str) else x
    if isinstance(x,bytes): return x.decode('latin1')
    return '?'+type(x).__name__
json.dump(js(tree), open(sys.argv[2],'w'))
