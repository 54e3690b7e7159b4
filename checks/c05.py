from checks.optcommon import decide, edges, mc, record


def run(ck):
    mc(ck, 'small', True, False, 'fit', 'slices')
    mc(ck, 'three', True, True, 'fit', 'best')
    if not ck.quick:
        mc(ck, 'large', True, False, 'fit', 'slices')
        mc(ck, 'shared-large', True, False, 'fit', 'slices')
    ck.load_core()
    cases = record(ck, 0, ck.size(90, 900), ck.size(12, 40))
    cases += record(ck, 0, ck.size(30, 300), ck.size(12, 40), sparse=True, dims=(2, 2, 4))
    cases += record(ck, 0, ck.size(30, 300), ck.size(12, 40), skip=True, maxnew=2)
    cases += record(ck, 0, ck.size(20, 200), ck.size(12, 40), n=8, kinds=('base',), maxnew=50)
    cases += record(ck, 0, ck.size(40, 400), ck.size(8, 20), many=.6, huge=ck.size(8, 60))
    cases += edges(ck, ck.size(80, 800), ck.size(8, 20))
    decide(ck, cases, ['C05', 'C06:error', 'construct'])
