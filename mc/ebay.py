"""Access to the belief-network engine under test, and the basic query-versus-oracle comparison."""
import importlib
import itertools

from .nets import Net, all_dags, diff_marginals, iso_dags, net_from_spec  # noqa: F401


def mod():
    return importlib.import_module("causalnex.ebaybbn")


def bbn_mod():
    return importlib.import_module("causalnex.ebaybbn.bbn")


def check_query(ctx, net, bbn, evidence, what, case=None, rel=1e-9):
    """One query on the real object against the joint.  Returns False on disagreement."""
    ev = net.ev(evidence)
    total, want = net.marginals(evidence)
    ctx.trace()
    case = case or (lambda: {"net": net.describe(), "evidence": repr(ev)})
    ok, got = ctx.guard(lambda: bbn.query(**ev), "%s: query(%r)" % (what, ev), case)
    if not ok:
        return False
    d = diff_marginals(got, want, rel)
    if d:
        ctx.fail("%s: query(%r): %s" % (what, ev, d), case)
        return False
    return True


def walk(ctx, net, bbn, evidences, what, want_possible=None, rel=1e-9, case=None):
    """Check all the evidences on the same object, one after the other."""
    for e in evidences:
        total, _ = net.posterior(e)
        if want_possible is not None and (total > 0) != want_possible:
            continue
        ctx.state()
        ctx.trans()
        if not check_query(ctx, net, bbn, e, what, rel=rel, case=case):
            return False
        if ctx.states % 97 == 1:
            t, want = net.marginals(e)
            ctx.outcome(tuple(round(v, 12) for v in want.values()))
    return True


def specs_small(alphabet_size):
    """Every DAG on 1..3 binary nodes with every assignment of CPT rows from the alphabet."""
    for n in (1, 2, 3):
        for p in all_dags(n):
            yield {"parents": p, "alphabet": ALPHABETS[alphabet_size]}


ALPHABETS = {
    2: [[3, 7], [1, 0]],
    3: [[3, 7], [1, 0], [0, 1]],
    4: [[3, 7], [1, 0], [0, 1], [1, 1]],
}


def nrows(parents):
    return sum(2 ** len(p) for p in parents)


def domain_sizes(n, choices):
    return itertools.product(choices, repeat=n)
