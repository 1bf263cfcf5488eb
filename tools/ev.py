import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f'/verif/evidence/{p}.json')); c = d['coverage']
    print(p, d['wall_s'], c['evaluations'], c['distinct_nontrivial'], {k: (v['evaluations'], v['out_of_domain'], v['distinct_nontrivial'], v['cut_short']) for k, v in c['per_sub'].items()}, c['tags'])
