from checks.optcommon import decide, mc, record


def run(ck):
    mc(ck, 'small', False, False, 'cost')
    mc(ck, 'small', True, False, 'cost')
    if not ck.quick:
        mc(ck, 'large', False, False, 'cost')
        mc(ck, 'large', True, False, 'cost')
    ck.load_core()
    n = ck.size(18, 150)
    cases = []
    for ctype in ('float32', 'float64', 'float128', 'float1024'):
        for sparse in (False, True):
            cases += record(ck, n, n, ck.size(10, 30), ctype=ctype, sparse=sparse)
    cases += record(ck, ck.size(30, 200), ck.size(45, 300), ck.size(8, 20), many=.6)
    cases += record(ck, 0, 0, ck.size(10, 30), big=ck.size(24, 100), huge=ck.size(12, 60))
    decide(ck, cases, ['C02', 'C06:error', 'construct'])
