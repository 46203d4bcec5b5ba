"""Runs the specifications behind one property and reports."""
import copy
import importlib
import json
import os
import sys
import time
import traceback
import mir
import ctx as C
import spec as S
import lints
from refs import PANIC, ANY

ROOT = mir.ROOT
START = time.time()
MODS = ['specs_alg', 'specs_ec', 'specs_misc']

# property -> groups of specifications that state it
PROPS = {
    'C01': ['npower'],
    'C02': ['npowmod', 'inverse'],
    'C03': ['ppower', 'ppowmod', 'tpower', 'tpowmod'],
    'C06': '*zero',
    'C07': ['ring', 'pzero'],
    'C08': ['tmul', 'tdiv', 'tneg', 'topol', 'tfrom', 'tnew', 'tone', 'tget', 'builder'],
    'C09': ['pdiv'],
    'C10': ['order', 'lead'],
    'C11': ['pmod', 'tmod'],
    'C12': ['eval', 'meval', 'peval'],
    'C13': ['deriv', 'tderiv'],
    'C14': ['emap', 'temap'],
    'C15': ['trunc', 'extract', 'degree', 'has'],
    'C16': ['reduction', 'reductionm'],
}
LINTS = {'C34': [lints.effects], 'C35': [lints.casts]}
PROPS.update({'C34': [], 'C35': []})


def specs():
    out = []
    for m in MODS:
        try:
            M = importlib.import_module(m)
        except ModuleNotFoundError:
            continue
        out += M.SPECS
        PROPS.update(getattr(M, 'PROPS', {}))
        LINTS.update(getattr(M, 'LINTS', {}))
    return out


def zeros(v):
    """a stored zero coefficient anywhere in the value"""
    if isinstance(v, dict):
        return any(c == 0 for k, c in v.items() if k != '?')
    if isinstance(v, (tuple, list)):
        return any(zeros(x) for x in v)
    return False


def zero_spec(s):
    """the same function, judged only for the absence of stored zero coefficients"""
    t = copy.copy(s)

    def expect(*a):
        e = s.expect(*a)
        if e is PANIC or e is ANY:
            return ANY
        return lambda got: got is not PANIC and not zeros(got)
    t.expect = expect
    t.zero = True
    t.view = None
    return t


MAPS = {'ring', 'ppower', 'ppowmod', 'topol', 'pdiv', 'pmod', 'eval', 'peval', 'deriv', 'emap', 'trunc', 'extract',
        'reduction', 'reductionm', 'pzero'}


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = dict(property=prop, tier=tier, seed=seed, level='other')
    try:
        rep = run(prop, tier, seed)
    except mir.BuildError as e:
        # nothing can be said about a tree the compiler rejects
        print('the crate could not be analysed: %s' % str(e)[:3000])
        rep = dict(viol=[], cov=dict(explanation='the crate does not build: nothing was analysed'), rc=2)
    ev['coverage'] = rep['cov']
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in rep['cov'].get('lines', ()):
        print(l)
    rc = rep.get('rc', 0)
    if rep['viol']:
        rc = 1
        path = os.path.join(ROOT, 'evidence', prop + '.violation.json')
        with open(path, 'w') as f:
            json.dump(rep['viol'], f, indent=1, default=str)
        for v in rep['viol'][:6]:
            print('  ' + v.get('text', '')[:1800])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return rc


def where(it):
    sp = (it.body.span if it.body else None) or it.path
    return sp.rsplit('/repo/', 1)[-1] if isinstance(sp, str) else str(sp)


def run(prop, tier, seed):
    crate = mir.dump()
    ctx = C.Ctx(crate, seed)
    allspecs = specs()
    groups = PROPS[prop]
    viol = []
    rows = []
    agree = part = und = pts = 0
    loops = set()
    und_list = []
    done = set()
    if groups == '*zero':
        todo = [('own', zero_spec(s)) for s in allspecs if s.group in MAPS]
    else:
        todo = [('own', s) for g in groups for s in allspecs if s.group == g]
    seen_groups = set(groups) if groups != '*zero' else set(s.group for r, s in todo)
    n_items = 0
    missing = []
    while todo:
        role, s = todo.pop(0)
        its = ctx.items(s)
        if len(its) < s.floor:
            missing.append('%s (%s): %d found, %d when the check was written' % (s.title or s.group, role, len(its), s.floor))
        for it in its:
            left = 780 - (time.time() - START)
            ctx.limit = max(1, int(min(60 if tier == 'quick' else 200, left)))
            if left < 5:
                missing.append('%s: not analysed, out of time' % it.path)
                continue
            if (it.path, id(s)) in done:
                continue
            done.add((it.path, id(s)))
            R = S.verify(ctx, it, s, tier)
            n_items += 1
            pts += R.points
            for l in R.loops:
                loops.add(str(l[0]))
            for g in sorted(R.groups):
                if g not in seen_groups:
                    seen_groups.add(g)
                    todo += [('contract ' + g, x if groups != '*zero' else zero_spec(x)) for x in allspecs if x.group == g]
            rows.append(dict(function=it.path, role=role, status=R.status, paths=R.outs, loops=len(R.loops), points=R.points,
                             panics=R.panics, undecided_points=R.unknown, contracts=sorted(R.groups)))
            if R.status == 'agrees':
                agree += 1
            elif R.status == 'refuted':
                d = R.detail
                viol.append(dict(kind='summary', function=it.path, at=where(it), role=role, rule=s.title or s.group, detail=d,
                                 text='%s (%s) [%s]: the derived summary disagrees with the specification\n    at arguments %s\n    specified %s\n    derived   %s\n    on path   %s'
                                      % (it.path, where(it), role, d['args'], d['expected'], d['derived'], d['path'])))
            else:
                if R.status == 'partial':
                    part += 1
                else:
                    und += 1
                und_list.append('%s: %s' % (it.path, '; '.join(list(R.why)[:2])))
    lint_rows = []
    for f in LINTS.get(prop, ()):
        r = f(ctx, tier)
        lint_rows.append(r['cov'])
        viol += r['viol']
        n_items += r.get('n', 0)
    if not n_items:
        viol.append(dict(kind='anchor', text='nothing to analyse: none of the functions the property is anchored in was found'))
    cov = dict(
        explanation='Each listed function was summarised from MIR (all paths, loops closed by recurrence/fixpoint solving, called '
                    'specified operations replaced by their contract) and the closed form compared with the specified one by identity '
                    'testing at valuations; "agrees" = the two coincide at every valuation tried, "undecided" = no closed form was derived '
                    '(nothing is claimed for it).',
        functions_analysed=n_items, agree=agree, partial=part, undecided=und, identity_points=pts, loops_closed=len(loops),
        contracts_used=sorted(seen_groups - set(groups if groups != '*zero' else ())), undecided_list=und_list, missing=missing,
        functions=rows, lints=lint_rows,
        lines=['%s: %d functions analysed, %d agree, %d partly decided, %d undecided, %d identity points, %d loops closed'
               % (prop, n_items, agree, part, und, pts, len(loops))] + ['note: ' + m for m in missing] + ['undecided: ' + u[:300] for u in und_list])
    return dict(viol=viol, cov=cov)
