from checks.optcommon import decide, mc, record


def run(ck):
    # 3 + 6 x (15 trees x 2 numberings): every tree is reached
    mc(ck, 'small', False, False, 'valid', 'rev', 'moves', want=183)
    mc(ck, 'small', True, False, 'valid')
    if not ck.quick:
        mc(ck, 'large', False, False, 'valid', 'rev', 'moves', want=1890)
        mc(ck, 'large', True, False, 'valid')
    ck.load_core()
    cases = record(ck, ck.size(105, 700), ck.size(105, 700), ck.size(14, 40), big=ck.size(12, 60))
    cases += record(ck, ck.size(30, 200), ck.size(30, 200), ck.size(14, 40), n=3)
    cases += record(ck, ck.size(30, 200), ck.size(30, 200), ck.size(10, 40), n=ck.rng.randint(8, 12), max_inds=14, p_hyper=.6)
    cases += record(ck, ck.size(30, 200), ck.size(45, 300), ck.size(8, 20), many=.6, big=ck.size(6, 40), huge=ck.size(18, 100))
    decide(ck, cases, ['C01', 'C06:error', 'construct'])
