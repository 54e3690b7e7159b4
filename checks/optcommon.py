"""Shared by the checks of the optimizers (C01-C08)."""
from harness import optrun


def edges(ck, n, n_events):
    """Runs in which the largest width is exactly that of some tensor.

    Rounding then decides whether that tensor fits, hence no single sweep is followed.
    """
    return [c for dims in ((2, 3, 5, 6, 7), (2, 3, 6), (3,), (3, 3, 5, 5))
            for c in record(ck, 0, n // 4, n_events, edge=True, many=.7, pickles=.15, looks=.05, only=('many', 'pickle', 'look'),
                            skip=False, sparse=ck.rng.random() < .2, dims=dims, n=8, max_inds=ck.rng.choice([10, 12, 16]))]


def record(ck, n_inf, n_fin, n_events, *, big=0, huge=0, only=None, **over):
    """Record runs of both optimizers; returns the list of trace cases."""
    cases = []
    for finite, n in ((False, n_inf), (True, n_fin)):
        k = tries = 0
        while k < n and tries < 20 * n:
            tries += 1
            kw = dict(over)
            plan_kw = {a: kw.pop(a) for a in ('kinds', 'pickles', 'looks', 'many') if a in kw}
            s = optrun.random_spec(ck.rng, finite=finite, **kw)
            plan = optrun.plan(ck.rng, n_events, finite=finite, **plan_kw)
            case = optrun.Run(s).trace([e for e in plan if not only or e[0].startswith(only)])
            if case['init'] is None:
                if finite and s['skip'] and 'skip_slices' in case['init_error']:
                    continue  # the skipped indices alone do not fit
                ck.report(f'construction fails: {case["init_error"]}', case, event=0, clauses=['construct'])
            else:
                cases.append(case)
            k += 1
    for _ in range(big):
        s = optrun.random_spec(ck.rng, finite=False, big=True, n=ck.rng.randint(8, 16), max_inds=40,
                               dims=(2, 3, 7, 16, 100), ctype='float1024',
                               **{a: b for a, b in over.items() if a in ('share', 'sparse')})
        case = optrun.Run(s).trace(optrun.plan(ck.rng, n_events, finite=False))
        if case['init'] is None:
            ck.report(f'construction fails: {case["init_error"]}', case, event=0, clauses=['construct'])
        else:
            cases.append(case)
    # more than 64 indices; a sweep with a width limit has too many outcomes to be followed
    for j in range(huge):
        finite = j % 2 == 1
        kw = dict(dims=(1,) * 9 + (2,)) if finite else dict(big=True, dims=(2, 3, 7), ctype='float1024')
        s = optrun.random_spec(ck.rng, finite=finite, n=ck.rng.randint(20, 45), max_inds=ck.rng.randint(70, 150), **kw)
        case = optrun.Run(s).trace(optrun.plan(ck.rng, 3, finite=finite, many=1. if finite else .3))
        if case['init'] is not None:
            cases.append(case)
        elif not (finite and s['skip'] and 'skip_slices' in case['init_error']):
            ck.report(f'construction fails: {case["init_error"]}', case, event=0, clauses=['construct'])
    ck.events += sum(len(c['ev']) for c in cases)
    return cases


def strip(c):
    return {k: c[k] for k in ('net', 'cf', 'init', 'ev')}


def describe(c, k):
    s = c['spec']
    e = c['ev'][k - 1] if k else dict(op='construction')
    return (f'{"finite-width" if s["finite"] else "infinite-memory"} optimizer, event {k} ({e["op"]}'
            f'{" " + e["what"] if "what" in e else ""}), ts={s["ts"]} out={s["out"]} dims={s["dims"]} path={s["path"]} '
            f'max_width={s["max_width"]} seed={s["seed"]}')


def decide(ck, cases, relevant):
    bad = ck.validate('OptTrace', [strip(c) for c in cases])
    for c, k, clauses in bad:
        cl = [x for x in clauses if any(x.startswith(r) for r in relevant)]
        if cl:
            ck.report(f'{describe(cases[c], k)}: {", ".join(cl)}', cases[c], event=k, clauses=cl, module='OptTrace')
    for c in cases[:2]:
        ck.sample(dict(net=c['net'], cf=c['cf'], plan=c['plan'][:4], events=len(c['ev'])))
    return bad


MC_INV = dict(valid='ValidTree', cost='ExactCost', fit='Fit', shared='Shared', best='BestIsMin', slices='SlicesGrow',
              moves='Moves', greedy='GreedyDown', rev='Reversible')


def mc(ck, group, finite, best, *invs, want=None):
    """Explore the model of the optimizers exhaustively (in the background)."""
    cfg = '\n'.join(['SPECIFICATION Spec', f'CONSTANTS Group = "{group}"', f' Finite = {str(finite).upper()}',
                     f' Best = {str(best).upper()}', 'VIEW MCView', 'INVARIANTS ' + ' '.join(MC_INV[x] for x in invs),
                     'CHECK_DEADLOCK FALSE', ''])
    ck.model_check('MCOpt', cfg, name=f'MCOpt({group}{", width" if finite else ""}{", best" if best else ""})', want=want)
