import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
T = {}
def t(p, tech, note, level='other'): T[p] = (tech, level, note)
G = 'Sound for the enumerated shapes (angular momenta, contraction lengths, geometry patterns) over all real inputs of a shape, up to the trusted IR translation, libm summaries and the abstraction of the Bessel tables; other shapes are not covered.'
t('C13', 'abstract interpretation of LLVM IR over a units-of-length domain', G)
t('C14', 'abstract interpretation of LLVM IR over a mirror-parity domain', G)
t('C15', 'whole-program data-provenance (taint) abstract interpretation of LLVM IR', G + ' Presence of a dependency is a may-analysis: a reported missing dependency is definite.')
t('C20', 'abstract interpretation of LLVM IR over a coefficient-degree domain', G)
t('C25', 'abstract interpretation of LLVM IR over a translation-weight domain', G + ' Exponents are concrete in these runs.')
E = 'All call paths and all inputs; memory is abstracted by allocation site and call path, so storage is distinguished per field but not per array element. Library functions behave as their LLVM attributes state.'
t('C01', 'interprocedural call-path-sensitive points-to and write-effect analysis of LLVM IR', E)
t('C02', 'interprocedural call-path-sensitive points-to and write-effect analysis of LLVM IR', E)
t('C04', 'interprocedural points-to/escape analysis of constructors plus abstract interpretation of their field values', E)
M = G + ' Only definite violations (of every concretisation that reaches the point) are reported; possible out-of-range accesses that the abstraction cannot decide are not.'
t('C05', 'abstract interpretation of LLVM IR with tracked heap regions (leak, double release, use after release)', M)
t('C06', 'abstract interpretation of LLVM IR with initialisation flags per memory cell', M)
t('C07', 'abstract interpretation of LLVM IR with region extents and index intervals', M)
t('C21', 'interval abstract interpretation of LLVM IR: divisors and function domains', M)
t('C22', 'abstract interpretation of LLVM IR: assertions, exits, null dereferences, integer division', M)
exec(open(os.path.join(H, 'tools', 'techniques.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'techniques.py')) else None
NA = {
 'N01': 'accuracy of floating-point values against exact integrals quantifies over runtime numerics; no static argument in reach bounds it',
 'N02': 'exchange symmetry of the values depends on convergence of numerical quadrature and rounding; only its structural parts are decided (C13, C14, C20)',
 'N03': 'covariance under general rotations mixes all components of a shell through numerical radial integrals; only axis reflections are decidable statically (C14)',
 'N04': 'whether a screened contribution is insignificant is a numerical inequality over runtime values',
}
pend = [p['id'] for p in props if p['id'] not in T and p['id'] not in NA]
m = dict(version=1, setup_cmd='bash engine/build.sh ' + ' '.join(sorted(f[:-4] for f in os.listdir(H + '/engine') if f.endswith('.cpp'))),
 checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
              technique=T[p['id']][0], level=T[p['id']][1], level_note=T[p['id']][2]) for p in props if p['id'] in T],
 not_applicable=[dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=p, reason='check under construction') for p in pend])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks;', pend)
