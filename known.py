"""Known findings: /verif/known_findings.jsonl, one JSON object per line:
{"property","job","label","inputs":{name:value,..},"what","status":"finding"}  or {"property","status":"fixed","commit","what"}"""
import json, os
def load_known(here, pid):
    p = os.path.join(here, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('fixed:') and not l.startswith('#'):
                d = json.loads(l)
                if d['property'] == pid: r.append(d)
    return r
def matches(known, job, v):
    ins = {n: str(x) for n, w, x in v['inputs']}
    for k in known:
        if k.get('status') != 'finding' or k.get('job') != job: continue
        if k.get('label') and k['label'] != v['label']: continue
        if all(ins.get(n) == str(x) for n, x in k.get('inputs', {}).items()): return k
    return None
