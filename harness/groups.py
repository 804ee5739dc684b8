"""Permutation groups of sites (with directions) given to the enumeration code."""
import itertools, json
import crystals as C


def compose(g, h):
    return ([h[0][i] for i in g[0]], [g[1][i] for i in h[1]])


def close(gens, n, m):
    ident = (tuple(range(n)), tuple(range(m)))
    gens = [(tuple(a), tuple(b)) for a, b in gens]
    done, front = {ident}, [ident]
    while front:
        new = []
        for h in front:
            for g in gens:
                c = (tuple(h[0][i] for i in g[0]), tuple(g[1][i] for i in h[1]))
                if c not in done:
                    done.add(c)
                    new.append(c)
        front = new
        if len(done) > 2000:
            return None
    return [ident] + sorted(done - {ident})


def all_subgroups(n):
    """Every subgroup of S_n generated by at most two elements (n <= 5: every subgroup)."""
    ps = list(itertools.permutations(range(n)))
    seen = {}
    ar = (0, 1)
    for a in ps:
        for b in ps:
            if b < a:
                continue
            # close quickly
            ident = tuple(range(n))
            done, front = {ident}, [ident]
            while front:
                new = []
                for h in front:
                    for g in (a, b):
                        c = tuple(h[i] for i in g)
                        if c not in done:
                            done.add(c)
                            new.append(c)
                front = new
            k = tuple(sorted(done))
            seen[k] = 1
    return [list(map(list, k)) for k in seen]


def with_cycles(lens):
    """a permutation with cycles of these lengths"""
    p, o = [], 0
    for l in lens:
        p += [o + (i + 1) % l for i in range(l)]
        o += l
    return p


def random_dirperm(rng, dim):
    if dim == 6:      # signed permutation of the axes
        ax = [0, 1, 2]
        rng.shuffle(ax)
        r = []
        for i in range(3):
            s = rng.random() < .5
            r += [2 * ax[i] + s, 2 * ax[i] + 1 - s]
        return r
    r = list(range(dim))
    rng.shuffle(r)
    return r


def random_group(rng, n, dim=6, lim=200, arrows=True):
    while True:
        gens = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            p = list(range(n))
            if rng.random() < .5:
                k = rng.randint(2, n) if n > 1 else 1
                ix = rng.sample(range(n), k)
                for x, y in zip(ix, ix[1:] + ix[:1]):
                    p[x] = y
            else:
                rng.shuffle(p)
            gens.append((p, random_dirperm(rng, dim) if arrows and rng.random() < .7 else list(range(dim))))
        g = close(gens, n, dim)
        if g and len(g) <= lim:
            return [[list(a), list(b)] for a, b in g]


def affine_group(rng, n, nd, dim=6, lim=300):
    """Sites Z_n x {1..nd}; translations first, then the rest of a group they are normal in."""
    N = n * nd
    T = []
    for t in range(n):
        T.append((tuple(d * n + (z + t) % n for d in range(nd) for z in range(n)), tuple(range(dim))))
    while True:
        gens = [T[1 % n]]
        for _ in range(rng.choice([1, 1, 2])):
            u = rng.choice([x for x in range(1, n + 1) if __import__("math").gcd(x, n) == 1])
            dp = list(range(nd))
            rng.shuffle(dp)
            c = [rng.randrange(n) for _ in range(nd)]
            p = [dp[d] * n + (u * z + c[d]) % n for d in range(nd) for z in range(n)]
            gens.append((p, random_dirperm(rng, dim)))
        g = close(gens, N, dim)
        if g and len(g) <= lim:
            g = [tuple(x) for x in g]
            return [[list(a), list(b)] for a, b in T + [x for x in g if x not in set(T)]]


def _pg(G):
    import math
    det = C.det3(G)
    m = max(G[i][i] for i in range(3))
    adj = [(G[1][1] * G[2][2] - G[1][2] ** 2), (G[0][0] * G[2][2] - G[0][2] ** 2), (G[0][0] * G[1][1] - G[0][1] ** 2)]
    B = [int(math.sqrt(m * a / det) + 1e-9) for a in adj]
    ip = lambda u, v: sum(u[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
    vs = list(itertools.product(*[range(-b, b + 1) for b in B]))
    S = [[v for v in vs if ip(v, v) == G[k][k]] for k in range(3)]
    return [C.transpose([u, v, w]) for u in S[0] for v in S[1] if ip(u, v) == G[0][1]
            for w in S[2] if ip(u, w) == G[0][2] and ip(v, w) == G[1][2]]


_CACHE = {}


def lattice_group(c, h, arrows):
    """Symmetry of a supercell as permutations of its sites (sites numbered i*n + box index) and of
    the six directions, worked out here with integers so that it does not depend on the library."""
    key = (c.name, tuple(h), arrows)
    if key in _CACHE:
        return _CACHE[key]
    D, q, A = c.D, c.q, c.lat.aint
    a, b, cc, d, e, f = h
    n = a * cc * f

    def red(z):
        q1 = z[0] // a
        y = z[1] - q1 * b
        q2 = y // cc
        return ((z[0] - q1 * a) * cc + (y - q2 * cc)) * f + (z[2] - q1 * d - q2 * e) % f
    box = [(x, y, z) for x in range(a) for y in range(cc) for z in range(f)]
    mv = lambda M, v: [sum(M[i][k] * v[k] for k in range(3)) for i in range(3)]
    key2 = lambda p: tuple(x % q for x in p)
    where = {key2(p): i for i, p in enumerate(D)}
    N = n * len(D)

    def perm(U, tau, t):
        p = [0] * N
        for i in range(len(D)):
            im = [x + y for x, y in zip(mv(U, D[i]), tau)]
            j = where[key2(im)]
            w = [(x - y) // q for x, y in zip(im, D[j])]
            for k, z in enumerate(box):
                zz = [x + y + s for x, y, s in zip(mv(U, z), w, t)]
                p[j * n + red(zz)] = i * n + k
        return tuple(p)
    T = [(perm([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0], z), tuple(range(6))) for z in box]
    dirs = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    rots = set()
    H = C.full(h)
    for U in _pg(c.lat.G):
        if not all(red([sum(U[i][k] * H[k][j] for k in range(3)) for i in range(3)]) == 0 for j in range(3)):
            continue
        dp = tuple(range(6))
        if arrows:
            At = C.transpose(A)
            adj = C.transpose([[At[(i + 1) % 3][(j + 1) % 3] * At[(i + 2) % 3][(j + 2) % 3]
                                - At[(i + 1) % 3][(j + 2) % 3] * At[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)])
            dt = C.det3(At)
            R = C.mat_mul(C.mat_mul(At, U), adj)
            try:
                dp = tuple(dirs.index(tuple(x // dt for x in mv(R, v))) for v in dirs)
            except ValueError:
                raise ValueError("lattice %s does not permute the axes" % c.name)
        for tau in {key2([x - y for x, y in zip(p, mv(U, D[0]))]) for p in D}:
            try:
                rots.add((perm(U, tau, (0, 0, 0)), dp))
            except KeyError:
                pass
    rest = {(tuple(r[0][i] for i in t[0]), r[1]) for r in rots for t in T} - set(T)
    g = [[list(x), list(y)] for x, y in T + sorted(rest)]
    _CACHE[key] = g
    return g


def palettes(n, k):
    """Compositions of n into k positive parts."""
    if k == 1:
        yield [n]
        return
    for a in range(1, n - k + 2):
        for r in palettes(n - a, k - 1):
            yield [a] + r


def decorate(cols, concs):
    """colors_w_arrows as the code wants it: a site list [1 or -1, species]."""
    return [[1 if c[1] else -1, c[0]] for c, m in zip(cols, concs) for _ in range(m)]


def encode(surv):
    """[[arrow, species], ...] -> site numbers of Coloring.tla."""
    from engine import as_int
    out = []
    for s in surv:
        row = []
        for a, sp in s:
            a, sp = as_int(a), as_int(sp)
            if not (-1 <= a <= 5 and 0 < sp < 1000):
                row.append(-1)
            else:
                row.append(7 * sp + (a + 1))
        out.append(row)
    return out


def fold(cols, concs, dim):
    import math
    t = math.factorial(sum(concs))
    for c in concs:
        t //= math.factorial(c)
    return t * dim ** sum(m for c, m in zip(cols, concs) if c[1])


def cycles(p):
    seen, out = set(), []
    for s in range(len(p)):
        if s not in seen:
            k, t = 0, s
            while t not in seen:
                seen.add(t)
                t = p[t]
                k += 1
            out.append(k)
    return sorted(out)


def classes_of(G, cols, concs):
    """Number of orbits by Burnside's lemma, exact."""
    cnt = {}
    for p, a in G:
        k = (tuple(cycles(p)), tuple(cycles(a)))
        cnt[k] = cnt.get(k, 0) + 1
    tot = 0
    for (cp, ca), m in cnt.items():
        tab = {tuple(concs): 1}
        for L in cp:
            f = sum(x for x in ca if L % x == 0)
            new = {}
            for r, w in tab.items():
                for j, c in enumerate(cols):
                    if r[j] >= L:
                        s = r[:j] + (r[j] - L,) + r[j + 1:]
                        new[s] = new.get(s, 0) + w * (f if c[1] else 1)
            tab = new
        tot += m * tab.get(tuple([0] * len(concs)), 0)
    assert tot % len(G) == 0
    return tot // len(G)
