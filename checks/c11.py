from harness import trees


def swap_case(core, make, t, es):
    """A history of exchanges."""
    tr = make(t)
    c = dict(what='swap', t=t, ev=[])
    for e in es:
        t0 = trees.links(tr)
        ev = dict(e=e, raised=False)
        try:
            tr.swap_with_nn(e - 1)
            ev['t'] = trees.links(tr)
            # back again, on a copy: the sibling of the parent now is below it
            p = t0[0][e - 1] if e <= len(t0[0]) else 0
            a = t0[0][p - 1] if p else 0
            ev['back'] = t0
            if a:
                s = t0[2][a - 1] if t0[1][a - 1] == p else t0[1][a - 1]
                cp = type(tr)(tr)
                cp.swap_with_nn(s - 1)
                ev['back'] = trees.links(cp)
                cp.swap_with_nn(e - 1)
                if trees.links(cp) != ev['t']:
                    ev['back'] = trees.links(cp)
            if not tr.is_valid():
                ev['raised'] = True
        except Exception as x:
            ev.update(raised=True, t=t0, back=t0, error=str(x))
        c['ev'].append(ev)
        if ev['raised']:
            break
    return c


def run(ck):
    ck.model_check('MCTree', 'SPECIFICATION Spec\nCONSTANT n = 4\nINVARIANTS Valid Reversible Local\nCHECK_DEADLOCK FALSE\n')
    ck.model_check('MCTree', 'SPECIFICATION Spec\nCONSTANT n = 5\nINVARIANTS Valid Reversible Local\nVIEW TreeView\n'
                   'CHECK_DEADLOCK FALSE\n', want=105 * 6, name='MCTree(5 leaves)')
    if not ck.quick:
        ck.model_check('MCTree', 'SPECIFICATION Spec\nCONSTANT n = 6\nINVARIANTS Valid Reversible\nVIEW TreeView\n'
                       'CHECK_DEADLOCK FALSE\n', want=945 * 24, name='MCTree(6 leaves)')
    core = ck.load_core()
    rng = ck.rng
    cases = []
    makers = dict(tree=lambda t: core.Tree(trees.nodes(core, t)),
                  ctree=lambda t: core.ContractionTree(trees.nodes(core, t), [[] for _ in t[0]], 2))
    # every tree with up to four leaves, every node (and beyond)
    for n in (1, 2, 3, 4):
        ts = trees.all_trees(n)
        cases.append(dict(what='all', n=n, trees=ts))
        for t in ts:
            for e in range(1, 2 * n + 2):
                cases.append(swap_case(core, makers['tree'], t, [e]))
    for _ in range(ck.size(600, 2000)):
        n = rng.randint(2, 12)
        t = trees.random_tree(rng, n)
        m = rng.choice(['tree', 'ctree'])
        cases.append(swap_case(core, makers[m], t, [rng.randint(1, 2 * n) for _ in range(ck.size(15, 40))]))
    ck.events += sum(len(c.get('ev', ())) for c in cases)
    for c, k, clauses in ck.validate('TreeTrace', cases):
        x = cases[c]
        e = x['ev'][k - 1] if k else {}
        ck.report(f'exchange of node {e.get("e")} in {x.get("t")}, step {k}: {", ".join(clauses)}; gave {e.get("t")}', x,
                  event=k, clauses=clauses, module='TreeTrace')
    ck.sample(cases[-1])
