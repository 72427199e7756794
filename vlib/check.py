"""check.sh <property>: the deductive proof on code extracted from /repo now, plus bounded companions on the real code."""
import sys, os, json, time, importlib, traceback
from . import common, verus
from .rsx import Lost

def main(pid):
    t0 = time.time()
    tier = common.TIER
    mod = importlib.import_module(f'vlib.props.{pid.lower()}')
    work = os.path.join(common.OUT, 'verus', pid)
    proof_results = []; lost = []; rejected = []
    # 1. deductive proofs
    for name, builder in getattr(mod, 'UNITS', []):
        try:
            u = builder(common.REPO)
        except Lost as e:
            lost.append({'unit': name, 'why': f'anchor lost: {e}'}); continue
        except Exception as e:
            lost.append({'unit': name, 'why': f'extraction failed: {type(e).__name__}: {e}'}); continue
        r = verus.decide(u, work)
        r['name'] = name; r['u'] = u
        proof_results.append(r)
        if r['status'] == 'rejected':
            # units shared by several properties: an obligation that another property owns decides nothing here
            own = {f['name']: f.get('decides') for f in u.funcs}
            mine = [e for e in r['errors'] if not own.get(e.get('function')) or pid in own[e['function']]]
            if mine: rejected.append({**r, 'errors': mine})
            else: lost.append({'unit': name, 'why': 'obligations of other properties are rejected: ' + '; '.join(f"{e.get('function')}: {e['msg']}" for e in r['errors'][:4])})
        elif r['status'] != 'verified':
            lost.append({'unit': name, 'why': r['status'] + ': ' + '; '.join(e['msg'] for e in r['errors'][:4]), 'out': r.get('out', '')[-3000:]})
    # 2. bounded companions on the real code
    comp = {'failures': [], 'coverage': {}, 'errors': []}
    if hasattr(mod, 'companion'):
        try:
            c = mod.companion(tier)
            comp['failures'] = c.get('failures', []); comp['coverage'] = c.get('coverage', {}); comp['errors'] = c.get('errors', [])
        except common.BuildError as e:
            comp['errors'].append(f'{e}\n{e.out}')
        except Exception as e:
            comp['errors'].append(traceback.format_exc()[-3000:])
    known = dict(common.known_findings(pid)); hit = set(); viol = []
    for f in comp['failures']:
        if f.get('key') in known: hit.add(f['key'])
        else: viol.append(f)
    for k in sorted(hit): print(f'KNOWN-FINDING: property={pid} {known[k]}')
    # 3. verdict
    code = 0
    if viol:
        p = common.write_replay(pid, 'violation', {'property': pid, 'failing_inputs': viol[:20], 'count': len(viol),
            'failed_obligations': [e for r in rejected for e in r['errors']][:10],
            'replay': f'cd /verif && VERIF_SEED={common.SEED} ./check.sh {pid} {tier}'})
        print(f'first failing input: {json.dumps(viol[0], ensure_ascii=False, default=str)[:1500]}')
        print(f'VIOLATION property={pid} replay={p}')
        code = 1
    elif rejected:
        r = rejected[0]
        p = common.write_replay(pid, 'obligation', {'property': pid, 'failed_obligations': [e for r in rejected for e in r['errors']],
            'unit': [r['unit'] for r in rejected], 'verifier': [r['cmd'] for r in rejected], 'output': [r['out'] for r in rejected],
            'note': 'the verifier does not accept the contract of this function any more, and no failing input was found among ' + json.dumps(comp['coverage'], default=str)})
        for e in r['errors'][:3]: print(f"failed obligation in {e.get('function')}: {e['msg']}: {e.get('clause')}")
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        code = 1
    elif lost and (comp['errors'] or not hasattr(mod, 'companion')):
        code = 2      # nothing decided: neither the proof nor the companion could run
    # 4. evidence
    units = []
    obligations = discharged = 0; smt = 0
    for r in proof_results:
        u = r['u']; obligations += r['verified'] + r.get('nerr', 0); discharged += r['verified']; smt += r['smt_ms']
        units.append({'unit': r['name'], 'status': r['status'], 'functions_under_contract': u.funcs, 'verified_items': r['verified'],
            'smt_ms': r['smt_ms'], 'wall_s': round(r['wall'], 2), 'extraction': u.drops, 'trusted': u.trusted,
            'assumptions_in_unit': verus.trusted_scan(u.text()), 'non_vacuous': r.get('vacuity_checked'), 'vacuity_note': r.get('vacuity_note'),
            'errors': [{k: e.get(k) for k in ('msg', 'function', 'clause')} for e in r['errors'][:10]]})
    level = getattr(mod, 'LEVEL', 'proof')
    trusted = sorted({t for r in proof_results for t in r['u'].trusted} | set(getattr(mod, 'TRUSTED', [])))
    proved = bool(proof_results) and not lost and not rejected
    cov = {'obligations': obligations, 'discharged': discharged, 'back_end': 'Verus 0.2026.09.13 with its bundled Z3',
           'checker_cmd': f'cd /verif && ./check.sh {pid} {tier}', 'trusted_base': trusted, 'proof_units': units,
           'smt_ms_total': smt, 'proof_decided_this_run': proved,
           'undecided_by_proof': lost, 'bounded_companion': {'label': 'bounded, never counted as proved', **comp['coverage']},
           'companion_errors': comp['errors'], 'assumed': getattr(mod, 'ASSUMED', []), 'known_findings_hit': sorted(hit)}
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': common.SEED,
          'level': level if proved or level != 'proof' else 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'verdict': {0: 'held', 1: 'violated'}.get(code, 'undecided')}
    if ev['level'] == 'other': cov['explanation'] = getattr(mod, 'EXPLANATION', 'proof not redone on this tree (see undecided_by_proof); the bounded companion decided')
    # an evidence file of level proof needs at least one obligation
    os.makedirs(os.path.join(common.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(common.VERIF, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=False, default=str)
    for l in lost: print(f"undecided by proof ({l['unit']}): {l['why'][:600]}")
    for e in comp['errors']: print(f'companion could not run: {e[-1500:]}')
    print(f"{pid}: {discharged}/{obligations} items verified in {len(units)} unit(s), {len(lost)} undecided; companion {json.dumps(comp['coverage'], default=str)[:400]}; {time.time()-t0:.1f}s")
    return code

if __name__ == '__main__':
    sys.path.insert(0, common.VERIF)
    sys.exit(main(sys.argv[1]))
