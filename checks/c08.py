from harness import netgen, optrun
from checks.optcommon import decide, mc, record


def run(ck):
    mc(ck, 'shared', False, True, 'shared', 'valid', 'best')
    mc(ck, 'shared', True, False, 'shared', 'valid')
    if not ck.quick:
        mc(ck, 'shared-large', True, False, 'shared', 'valid')
        mc(ck, 'shared-large', False, False, 'shared', 'valid')
    ck.load_core()
    cases = record(ck, ck.size(120, 600), ck.size(120, 600), ck.size(14, 40), share=True)
    cases += record(ck, ck.size(60, 300), 0, ck.size(14, 40), share=True, n=ck.rng.randint(5, 9), p_hyper=.1)
    cases += record(ck, ck.size(30, 150), ck.size(30, 150), ck.size(14, 40), share=False)
    # starting contractions with and without the property
    for _ in range(ck.size(240, 1200)):
        finite = ck.rng.random() < .5
        s = optrun.random_spec(ck.rng, finite=finite, share=True, n=ck.rng.randint(2, 6), skip=False)
        if ck.rng.random() < .8:
            s['path'] = netgen.random_path(ck.rng, len(s['ts']))
        cases.append(optrun.Run(s).construct())
    cases += record(ck, ck.size(40, 200), ck.size(60, 300), ck.size(8, 20), share=True, many=.6)
    decide(ck, cases, ['C08', 'C01:sweep', 'C06:error', 'construct'])
