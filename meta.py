#!/usr/bin/env python3
"""Single source of properties.jsonl, props.json and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; failing obligations replayed by a search on the real crate'
COMMON_TRUST = ['Verus 0.2026.09.13 and Z3', 'the extractor vx and its rewriting rules (listed per run)', 'rustc and std']
FLOATS = 'f32 is modelled by values on the half-unit grid up to 2^23 (trusted axioms, units/p_float.vx; add, subtract, compare, min, max, halving of grid values are exact in binary32)'
GRAPH = 'petgraph UnGraph is represented by a reference implementation verified against its own contracts (units/p_graph.vx); that petgraph behaves like it is trusted (fewer than 2^32 - 1 nodes and edges)'
MODS = 'modules: enumerated small ones (1-7 tables, every pair of rows related) plus random ones (up to 20 tables, 14 fields, 12 relations); distinct, at least one table and two entries'
P = []
def prop(id, title, statement, over, text, why, files, mech, units, level='proof', note='', trusted=(), assumptions=(), rule=MODS, bounded='', na=None, n=250000, secs=12, observe=(), fronts=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, units=units, level=level, note=note,
                  trusted=COMMON_TRUST + list(trusted), assumptions=list(assumptions), rule=rule, bounded=bounded, na=na, n=n, secs=secs, observe=list(observe), fronts=fronts))

exec(open(os.path.join(V, 'meta_props.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
json.dump({p['id']: dict(units=p['units'], level=p['level'], trusted=p['trusted'], assumptions=p['assumptions'], rule=p['rule'], bounded=p['bounded'], n=p['n'], secs=p['secs'], **(dict(fronts=True) if p['fronts'] else {})) for p in P if not p['na']}, open(V + '/props.json', 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='bash setup.sh',
    checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'], technique=TECH, level=p['level'], level_note=p['note']) for p in P if not p['na']],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
    notes='No hooks: everything is reached through the public API and by extracting the source text. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
