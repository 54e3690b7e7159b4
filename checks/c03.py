from checks.optcommon import decide, mc, record


def run(ck):
    mc(ck, 'small', False, True, 'best')
    mc(ck, 'three', True, True, 'best')
    mc(ck, 'shared', False, True, 'best')
    if not ck.quick:
        mc(ck, 'shared', True, True, 'best')
    ck.load_core()
    # costs have to go down and up again
    cases = record(ck, ck.size(60, 400), ck.size(90, 600), ck.size(25, 60), pickles=.05, dims=(2, 3, 5))
    cases += record(ck, ck.size(45, 300), ck.size(60, 400), ck.size(25, 60), n=4, kinds=('base', 'base', 'mh'),
                    pickles=.03)
    cases += record(ck, ck.size(30, 200), ck.size(45, 300), ck.size(10, 20), many=.6)
    decide(ck, cases, ['C03', 'C02:best', 'C01:best', 'C06:error', 'construct'])
