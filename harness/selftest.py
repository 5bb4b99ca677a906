"""Development: numpy expressions on symbolic arrays, compared with the real numpy by witness replay."""


def np_expr(c, expr):
    np = c.np
    x = np.array([c.real(f"x{i}", -2, 2) for i in range(3)])
    y = np.array([[c.real(f"y{i}{j}", -2, 2) for j in range(2)] for i in range(3)])
    n = np.array([c.int(f"n{i}", 0, 3) for i in range(3)])
    k = np.array([[3, 1, 2], [0, 5, 4]])
    m = np.array([c.bool(f"b{i}") for i in range(3)])
    env = dict(np=np, x=x, y=y, n=n, k=k, m=m, lp=c.lp)
    try:
        exec(expr, env)
        r = env["r"]
    except (ValueError, TypeError, IndexError, AttributeError) as e:
        r = type(e).__name__

    def flat(v):
        if isinstance(v, (list, tuple)):
            return [flat(w) for w in v]
        if hasattr(v, "toarray"):
            return flat(v.toarray())
        if hasattr(v, "tolist"):
            return [list(getattr(v, "shape", ())), str(getattr(v, "dtype", "")), v.tolist()]
        return v
    c.observe("r", flat(r))
    c.check(True, "ran")
