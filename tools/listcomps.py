import sys,os
sys.path.insert(0,'/verif')
from sx import omx
import openmdao.api as om, importlib, pkgutil, openconcept, inspect
seen=set()
for m in pkgutil.walk_packages(openconcept.__path__,'openconcept.'):
    if '.tests' in m.name or '.examples' in m.name or '.docs' in m.name: continue
    mod=importlib.import_module(m.name)
    for n,c in sorted(vars(mod).items()):
        if isinstance(c,type) and issubclass(c,(om.ExplicitComponent,om.ImplicitComponent)) and c.__module__==mod.__name__:
            try:
                inst=c()
                M=omx.CompModel(inst)
            except Exception as e:
                print(m.name,n,'ERR',str(e)[:80].replace('\n',' ')); continue
            o={k:(v['val']) for k,v in inst.options._dict.items() if k not in('distributed','run_root_only','always_opt','use_jit','default_shape','derivs_method','assembled_jac_type')}
            print(m.name[12:],n,{k:float(v['val'].flat[0]) for k,v in M.inputs.items()}, 'OUT',list(M.outputs) if M.implicit else '', o, 'cs' if any(v.get('method') for v in M.info.values()) else '')
