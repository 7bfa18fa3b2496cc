"""Property id -> generator of verification units."""


def registry():
    from . import colloc, nlp, adaptive, grid, post, refine, ocp, isolation
    d = {}
    for m in (colloc, nlp, adaptive, grid, post, refine, ocp, isolation):
        for n, f in vars(m).items():
            if len(n) == 3 and n[0] == "c" and n[1:].isdigit() and callable(f):
                d["C" + n[1:]] = f
    return dict(sorted(d.items()))
