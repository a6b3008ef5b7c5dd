import json
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
T = 'TLA+ specification checked with TLC; traces of the real code validated against it'
CL = {}
def c(p, note, tech=T, level='model_checking'):
    CL[p] = dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s thorough' % p,
                 technique=tech, level=level, level_note=note)
exec(open('/verif/tools/claims.py').read())
NA = [dict(property=p, reason=NAR.get(p, 'check not built yet')) for p in props if p not in CL]
m = dict(version=1, setup_cmd='python3 setup.py', checks=[CL[p] for p in sorted(CL)], not_applicable=NA,
         hooks=dict(guard='none', enable='no hooks: the checks compile the harnesses in /verif/harness against the sources in /repo', source_commits=[]),
         notes='Specifications in spec/ (TLA+), harnesses in harness/, orchestration in vlib/ and checks/. Repairs: known_findings.txt.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(CL), 'claimed', len(NA), 'not')
