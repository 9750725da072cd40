import os,re
d='/verif/mc/src/checks'
ids=sorted(f[:-3] for f in os.listdir(d) if re.match(r'[a-z]\d\d\.rs$',f))
order={'e':0,'v':1,'s':2,'h':3,'n':4}
ids.sort(key=lambda x:(order[x[0]],x))
aux=[f[:-3] for f in os.listdir(d) if f.endswith('.rs') and f[:-3] not in ids and f!='mod.rs']
s='//! The checks, one module per property (generated list).\nuse crate::report::Check;\n'+''.join(f'pub mod {a};\n' for a in sorted(aux))+''.join(f'mod {i};\n' for i in ids)
s+=f'pub const ALL: [&str; {len(ids)}] = [{", ".join(chr(34)+i.upper()+chr(34) for i in ids)}];\n'
s+='pub fn build(id: &str, tier: &str) -> Option<Check> {\n    let quick = tier == "quick";\n    Some(match id {\n'+''.join(f'        "{i.upper()}" => {i}::check(quick),\n' for i in ids)+'        _ => return None,\n    })\n}\n'
open(d+'/mod.rs','w').write(s)
