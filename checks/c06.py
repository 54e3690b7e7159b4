from checks.optcommon import decide, edges, mc, record


def run(ck):
    mc(ck, 'small', True, False, 'slices', 'fit')
    if not ck.quick:
        mc(ck, 'large', True, False, 'slices', 'fit')
    ck.load_core()
    cases = record(ck, 0, ck.size(60, 800), ck.size(14, 40))
    for maxnew in (0, 1, 2, 50):
        cases += record(ck, 0, ck.size(16, 160), ck.size(14, 40), maxnew=maxnew, kinds=('base', 'mh'))
    cases += record(ck, 0, ck.size(16, 160), ck.size(14, 40), maxnew=50, skip=True, sparse=True)
    cases += record(ck, 0, ck.size(16, 160), ck.size(14, 40), maxnew=3, skip=True, n=8)
    cases += record(ck, 0, ck.size(40, 400), ck.size(8, 20), many=.6, huge=ck.size(8, 60))
    cases += edges(ck, ck.size(80, 800), ck.size(8, 20))
    decide(ck, cases, ['C06', 'C04', 'construct'])
