import json,subprocess,importlib,sys
sys.path.insert(0,'/verif')
L=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
"C01":"property-based testing against a per-location reference matcher",
"C02":"property-based testing against a reference call-stack model",
"C03":"property-based testing against a reference call-path set",
"C04":"property-based testing against exact recomputation per call",
"C05":"property-based testing against a model plus innermost-open-call sweep",
"C06":"property-based testing against hand aggregation",
"C07":"property-based testing against hand aggregation",
"C08":"stateful property-based testing against a sum over model calls",
"C09":"property-based testing against an exact rational-time sweep",
"C10":"property-based testing against a counting model",
"C11":"property-based testing against an exact bin-counting model",
"C12":"property-based testing against per-trace hand aggregation",
"C13":"differential property-based testing against a direct motif search on model values",
"C14":"generated-file round trip (CSV) against the generating rows",
"C15":"generated-archive round trip (OTF2 writer) against the generating event list",
"C16":"generated-archive round trip (OTF2 writer) against the generating definitions",
"C17":"generated-archive round trip (OTF2 writer) against the generating metric records",
"C18":"metamorphic property-based testing over worker counts",
"C19":"generated-file round trip (Projections) against the generating records",
"C20":"generated directories with injected faults, against accept/reject and merge oracle",
"C21":"generated-file round trip (HPCToolkit) against a path-difference model",
"C22":"generated-file round trip (HPCToolkit) with injected damage",
"C23":"generated-report round trip (Nsight) against the listed ranges",
"C24":"property-based round trip through the exported JSON",
"C25":"model-based stateful testing of the configuration store",
"C26":"model-based stateful testing: analysis histories against fresh traces",
"C27":"metamorphic property-based testing (interleaving, restriction, shift, scale, rename)",
"C28":"property-based testing against parent-chain model on random forests",
"C29":"differential property-based testing across five trace formats",
"C30":"metamorphic property-based testing of conservation laws between analyses",
"C31":"fault injection over generated datasets: cut or remove any file, against an error-or-complete oracle with a time limit",
"C33":"stateful property-based testing of read/replace/damage sessions against reads in a fresh process",
"C32":"property-based testing of random analysis sequences on generated files of five formats, against the reference model",
}
note="Generated-input search: held on every case tried, not a proof; case counts and samples are in the evidence file. Trusts the reference model in vk/ (written from the property text) and pandas/numpy"
extra={
"C13":"; also trusts stumpy's matrix profile and motif search as the reference",
"C15":"; trusts the installed OTF2 writer library","C16":"; trusts the installed OTF2 writer library",
"C17":"; trusts the installed OTF2 writer library","C18":"; OS scheduling of the reader processes is not controlled, only their number and the split",
"C21":"; trusts the file layout implemented by vk/hpcgen.py","C22":"; trusts the file layout implemented by vk/hpcgen.py",
}
checks=[]
for p in L:
    i=p['id']
    checks.append(dict(property=i,quick_cmd="./check.sh %s"%i,thorough_cmd="./check.sh %s --tier thorough"%i,technique=tech[i],level="exploration",level_note=note+extra.get(i,"")+"."))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],notes="All checks are generated-input search (Hypothesis strategies driven by vk/core.py, shrunk and saved under replay/). ./check.sh <ID> --replay FILE re-runs one saved case. No hooks are needed in /repo.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
