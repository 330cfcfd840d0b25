"""Evidence and verdict."""
import glob, json, os, time
from .core import VERIF


def replay_file(c, i, what, run, n):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.txt' % (c.prop, i))
    with open(p, 'w', encoding='latin-1') as f:
        f.write('property %s: %s\n' % (c.prop, what))
        if run is not None:
            f.write('driver: %s\nenvironment: %s\n' % (' '.join(run.build.base), run.env))
            f.write('--- script\n' + run.scn.text(run.pre))
            f.write('--- recorded events (the one that is not allowed is number %d)\n' % n)
            for e in run.events[:n]:
                f.write(e[:20000] + '\n')
    return p


def finish(c):
    v = c.val
    ev = {
        'property': c.prop, 'tier': 'thorough' if not c.quick else 'quick', 'seed': c.seed,
        'level': 'model_checking',
        'coverage': {
            'states': v.states + c.model['states'],
            'transitions': v.transitions + c.model['transitions'],
            'traces_validated_against_impl': len(v.seen),
            'executions': v.total,
            'events_validated': v.events,
            'model_states': c.model['states'],
            'model_transitions': c.model['transitions'],
            'samples': c.samples[:6],
        },
        'memory_behaviours': getattr(c, 'memory', {}),
        'assumptions': c.notes + (['%d histories cut before an event too large to validate' % v.cut] if v.cut else []),
        'wall_s': round(time.time() - c.t0, 1),
        'violations': len(c.found),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for old in glob.glob(os.path.join(VERIF, 'evidence', 'replay', c.prop + '-*.txt')):
        os.unlink(old)
    with open(os.path.join(VERIF, 'evidence', c.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for i, (what, run, n) in enumerate(c.found):
        p = replay_file(c, i, what, run, n)
        print('VIOLATION property=%s replay=%s' % (c.prop, p))
    print('%s: %d executions, %d distinct histories (%d events) validated, %d model states, %d violations, %.1fs'
          % (c.prop, v.total, len(v.seen), v.events, c.model['states'], len(c.found), time.time() - c.t0))
    return 1 if c.found else 0
