"""print per-case statistics of the last run of a property"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f'/verif/evidence/{p}.json'))
    for c in d['coverage']['cases']:
        s = c['stats']
        print(p, c['name'], 'wall', c['wall_s'], 'states', int(s['states']), 'queries', int(s['queries']), 'solver', round(s['solver_s'], 1), 'ended', int(s['paths_ended']), 'exh', c['exhaustiveness_query'], c['reached_witnesses'])
    for e in d['coverage']['errors']: print('  ERR', e[:300])
