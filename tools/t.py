import sys; sys.path.insert(0,'/verif/mc')
from build import *
import os
wd=os.environ.get('WD','/tmp/mcb')
b=Builder(wd)
L=[Variant()]
if 'V' in os.environ: L=[eval(os.environ['V'])]
for v in L:
    b.lib(v)
    def f(n):
        try: return b.harness(n.split("@")[0].rstrip("!"),v,defines=n.split("@")[1:],tag="".join("-"+x for x in n.split("@")[1:])+("-sl" if "!" in n else ""),stateless="!" in n)
        except BuildError as e: return str(e)[-1500:]
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(f, sys.argv[1:]): print(r)
