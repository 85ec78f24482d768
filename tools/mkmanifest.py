import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import re,glob
claimed=set()
for f in glob.glob('/verif/harness/*/*.go'):
    for m in re.findall(r'^//verif:check (.*)$',open(f).read(),re.M):
        claimed|=set(m.split())
NA={
}
note="Bounded symbolic execution of the real Go code (SSA built from /repo's working tree on every run) with Z3 deciding every branch and assertion; every path condition within the bounds listed in the evidence is covered, counterexamples are replayed on the natively compiled code before they are reported, and a sample of passing paths is replayed to validate the engine. Trusted: the engine's model of Go, the intrinsics and stubs listed in the evidence, Z3 (every 20th assertion cross-checked with cvc5). Nothing is claimed beyond the bounds."
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
extra=json.load(open('/verif/levelnotes.json')) if __import__('os').path.exists('/verif/levelnotes.json') else {}
for p in props:
    i=p['id']
    if i in claimed:
        m['checks'].append({"property":i,"quick_cmd":"bash check.sh -tier quick "+i,"thorough_cmd":"bash check.sh -tier thorough "+i,
          "technique":"symbolic execution of the real Go code (SSA) with SMT-decided assertions, counterexamples replayed natively",
          "level":"model_checking","level_note":(extra.get(i,"")+" "+note).strip()})
    else:
        m['not_applicable'].append({"property":i,"reason":NA.get(i,"Not claimed yet: the harness for it is under construction.")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(sorted(claimed))
