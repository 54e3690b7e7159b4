"""Runs of optimizers which have to be indistinguishable (C07)."""
import copy
import hashlib
import pickle
import sys
from pathlib import Path


def snapshot(run, opt):
    """Everything observable of an optimizer."""
    from harness.optrun import tree_of
    s = run.spec
    fin = s['finite']

    def tree(c):
        t = tree_of(c)
        return [t['par'], t['c1'], t['c2'], [run._inds(xs) for xs in c.inds[:]]]

    return dict(tree=tree(opt.ctree), best=tree(opt.min_ctree),
                slices=run._inds(opt.slices) if fin else [], bestslices=run._inds(opt.min_slices) if fin else [],
                cost=[str(opt.total_cost), repr(float(opt.log2_total_cost))],
                bestcost=[str(opt.min_total_cost), repr(float(opt.log2_min_total_cost))],
                skip=run._inds(opt.skip_slices) if fin else [], share=not opt.disable_shared_inds,
                model=[str(getattr(opt.cmodel, a, '')) for a in ('cost_type', 'width_type', 'max_width', 'n_projs')]
                + run._inds(getattr(opt.cmodel, 'sparse_inds', None) or ()), valid=bool(opt.is_valid()),
                random=hashlib.sha256(str(opt.prng_state).encode()).hexdigest()[:16])


def play(run, plan, between=None, **over):
    """Snapshots after each update; between(opt, i) may replace the optimizer."""
    opt = run.build(**over)
    out = [snapshot(run, opt)]
    same = True
    for i, (op, kind, beta, reslice) in enumerate(plan):
        if between:
            opt, eq = between(opt, i)
            same = same and eq
        run.update(opt, run.prob(kind, beta), reslice)
        out.append(snapshot(run, opt))
    return out, same


def look(opt, i):
    before = opt.prng_state
    opt.is_valid(), opt.is_valid(return_message=True, atol=1e-3), repr(opt), opt.ctree.path(), opt.min_ctree.path()
    opt.ctree.total_cost() if hasattr(opt.ctree, 'total_cost') else None
    opt.ctree.swap_with_nn(0) if i % 2 and len(opt.ctree.nodes) > 3 and can(opt.ctree.nodes, 0) else None
    return opt, bool(opt == opt) and opt.prng_state == before


def can(nodes, v):
    p = nodes[v].parent
    return p is not None and p >= 0 and nodes[p].parent is not None and nodes[p].parent >= 0


def reload(opt, i):
    if i % 2 == 0:
        new = pickle.loads(pickle.dumps(opt))
    else:
        new = copy.deepcopy(opt)
    return new, bool(new == opt) and bool(opt == new)


def main():
    """Child process: read (work, so, [(spec, plan)]) and print the snapshots."""
    work = pickle.loads(Path(sys.argv[1]).read_bytes())
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
    from harness import core
    from harness.optrun import Run
    core.load(work['so'])
    out = []
    for spec, plan in work['jobs']:
        try:
            out.append(play(Run(spec), plan)[0])
        except Exception as e:
            out.append(f'{type(e).__name__}: {e}')
    Path(sys.argv[2]).write_bytes(pickle.dumps(out))


if __name__ == '__main__':
    main()
