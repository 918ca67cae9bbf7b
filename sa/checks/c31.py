"""Value numbering of the seed generators (viscid/seed.py): generators made with symbolic
positions, directions, radii and limits are interpreted; their points, coordinates, meshes and
wrapped values are compared with the documented geometry, point by point."""
from __future__ import annotations
import itertools
from fractions import Fraction
from .. import alg
from ..alg import P, var, fn, pi
from ..interp import A, Obj, symarr, arr, Unsupp, elementwise
from ..vn import VN, Order, differ, matmul, matvec, transpose
from .c16 import sin, cos, cross, generic_close

M = "viscid.seed"
S = M + "."
SRC = '''
def probe(p, more):
    s = viscid.seed.%(make)s
    %(pre)s
    return %(expr)s
'''
ALL = ("s.nr_points, s.get_points(), list(s.iter_points()), s.points(), "
       "[s.get_points(), s.get_points()]")


def allclose(it, a, k):
    r = generic_close(it, [arr(x) if isinstance(x, (list, tuple)) else x for x in a[:2]], k)
    return alg.band(*r.a.reshape(-1)) if isinstance(r, A) else r


HOOKS = {"numpy.allclose": allclose}


def lin(a, b, n, end=True):
    a, b = P.of(a), P.of(b)
    d = (n - 1) if end else n
    if n == 1:
        return [a]
    return [a + (b - a) * Fraction(i, d) for i in range(n)]


def rsq(v):
    return sum((P.of(c) * c for c in v), P.of(0))


def norm(v):
    return alg.sqrt(rsq(v))


def cols(pts):
    """3xN array of a list of points"""
    return arr([[p[d] for p in pts] for d in range(3)])


def grid(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def nested(shape, f, pre=()):
    if len(pre) == len(shape):
        return f(pre)
    return [nested(shape, f, pre + (i,)) for i in range(shape[len(pre)])]


def run(ctx):
    ctx.rule("points", "the points are where the geometry puts them, in the order of the coordinates")
    ctx.rule("values", "values at the points are wrapped at the coordinates of their own point")
    ctx.rule("mesh", "mesh vertices and mesh values belong to the same points, poles and seams closed")
    ctx.rule("transform", "local, 2d and 3d representations of a point agree")
    vn = VN(ctx, 8000000)

    def probe(make, expr, p, more=None, pre="pass", hooks=None, order=None):
        h = dict(HOOKS)
        h.update(hooks or {})
        it = vn.interp(h, None)
        if order:
            it.decider = order
        r = it.probe(M, SRC % dict(make=make, expr=expr, pre=pre), [p, more])
        vn.reached |= it.calls
        return r

    def gen(cls, name, make, p, pts, axes, uv=None, lshape=None, mesh=None, order=None, hooks=None,
            crd=None, vals_shape=None, extra=""):
        """obligations every generator shares.  pts: points in order; axes: [(name, values)] of the
        local coordinates; uv: [(name, values)] of the 2d coordinates"""
        pts = pts if callable(pts) else (lambda q=pts: q)
        nm = "%s %s" % (cls, name)
        q = S + cls

        def points(make=make):
            n, g, it_, pp, again = probe(make, ALL, p, order=order, hooks=hooks)
            w = pts()
            return (differ(n, len(w), "number of points ") or differ(g, cols(w), "points ")
                    or differ(pp, cols(w), "points() ")
                    or differ([list(x) for x in it_], [list(x) for x in w], "iterated points ")
                    or differ(again[1], cols(w), "points asked for again "))
        vn.defer("points", nm, q, points)
        if not make.startswith("to_seeds"):
            vn.defer("points", nm + " cached", q, lambda: points(make[:-1] + ", cache=True)"))

        if axes is not None:
            def wrapped(kind):
                w = pts()
                n = len(w)
                sh = tuple(len(v) for _, v in axes)
                if kind == "scalar":
                    d = symarr("d", (n,))
                    r = probe(make, "(lambda f: (f.crds.axes, [f.get_crd(a) for a in f.crds.axes], f.data))"
                              "(s.wrap_field(more))", p, d, order=order, hooks=hooks)
                    want = arr(nested(sh, lambda i: d.a[flat(i, sh)]))
                else:
                    d = symarr("d", (n, 3))
                    r = probe(make, "(lambda f: (f.crds.axes, [f.get_crd(a) for a in f.crds.axes], "
                              "[f[c].data for c in 'xyz']))(s.wrap_field(more, name='v', fldtype='vector', layout='interlaced'))",
                              p, d, order=order, hooks=hooks)
                    if n == 1:      # components of a single point are numbers
                        r = probe(make, "(lambda f: (f.crds.axes, [f.get_crd(a) for a in f.crds.axes], f.data))"
                                  "(s.wrap_field(more, name='v', fldtype='vector', layout='interlaced'))",
                                  p, d, order=order, hooks=hooks)
                        want = arr(nested(sh + (3,), lambda i: d.a[flat(i[:-1], sh), i[-1]]))
                    else:
                        want = [arr(nested(sh, lambda i, c=c: d.a[flat(i, sh), c])) for c in range(3)]
                return (differ(list(r[0]), [a for a, _ in axes], "axes ")
                        or differ(list(r[1]), [arr(v) for _, v in axes], "coordinates ")
                        or differ(r[2] if kind == "scalar" or n == 1 else list(r[2]), want, "values "))
            for kind in ("scalar", "vector"):
                vn.defer("values", nm + " " + kind, q, lambda kind=kind: wrapped(kind))

            def extent():
                r = probe(make, "s.local_extent", p, order=order, hooks=hooks)
                return differ(r, arr([[v[0], v[-1]] for _, v in axes]), "extent ")
            vn.defer("values", nm + " local_extent", q, extent)
        if uv is not None:
            ush = tuple(len(v) for _, v in uv)

            def uvs():
                us, ax, cr = probe(make, "(lambda c: (s.uv_shape, c.axes, [c.get_crd(a) for a in c.axes]))"
                                   "(s.as_uv_coordinates())", p, order=order, hooks=hooks)
                return (differ(list(us), list(ush), "2d shape ") or differ(list(ax), [a for a, _ in uv], "2d axes ")
                        or differ(list(cr), [arr(v) for _, v in uv], "2d coordinates "))
            vn.defer("transform", nm + " 2d coordinates", q, uvs)

            def to3():
                pu = arr([[uv[0][1][i] for i, j in grid(ush)], [uv[1][1][j] for i, j in grid(ush)]])
                r = probe(make, "s.uv_to_3d(more)", p, pu, order=order, hooks=hooks)
                return differ(r, cols(pts()), "3d points of the 2d grid ")
            if extra != "no uv_to_3d":
                vn.defer("transform", nm + " uv_to_3d", q, to3)

        if lshape is not None:
            vn.defer("transform", nm + " local_shape", q,
                     lambda: differ(list(probe(make, "s.local_shape", p, order=order, hooks=hooks)), list(lshape), "local shape "))
        if mesh is not None:
            def vertices():
                r = probe(make, "s.as_mesh()", p, order=order, hooks=hooks)
                w = pts()
                return differ(r, arr(nested((3,) + tuple(mesh), lambda i: w[flat(i[1:], mesh)][i[0]])), "vertices ")
            vn.defer("mesh", nm + " vertices", q, vertices)

            def values():
                n = len(pts())
                d = symarr("d", (n,))
                r = probe(make, "s.arr2mesh(more)", p, d, order=order, hooks=hooks)
                return differ(r, arr(nested(mesh, lambda i: d.a[flat(i, mesh)])), "mesh values ")
            if cls != "Line":
                vn.defer("mesh", nm + " values", q, values)

    a3, b3, c3 = (symarr(n, (3,)) for n in "abc")
    A3, B3, C3 = ([P.of(x) for x in q.a] for q in (a3, b3, c3))

    # explicit points
    for n in (1, 2, 4):
        pts = symarr("q", (3, n))
        w = [[pts.a[d, i] for d in range(3)] for i in range(n)]
        gen("Point", "3x%d" % n, "Point(p)", pts, w, [("x", [P.of(i) for i in range(n)])], lshape=(3, n))
        if n != 3:
            gen("Point", "%dx3" % n, "Point(p)", arr([list(x) for x in w]), w, [("x", [P.of(i) for i in range(n)])])
            gen("Point", "list %d" % n, "Point(p)", [list(x) for x in w], w, [("x", [P.of(i) for i in range(n)])])
            gen("Point", "to_seeds %d" % n, "to_seeds(p)", [list(x) for x in w], w, None)
        gen("Point", "own coordinates %d" % n, "Point(p[0], local_crds=p[1])", [pts, symarr("t", (n,))], w,
            [("x", [var("t[%d]" % i) for i in range(n)])])
    vn.defer("points", "to_seeds of a generator", S + "to_seeds", lambda: None if probe(
        "Line(p[0], p[1], 3)", "viscid.seed.to_seeds(s) is s", [a3, b3]) is True else "makes another generator")

    # line
    for n in (1, 2, 3, 5):
        w = [[u + (v - u) * t for u, v in zip(A3, B3)] for t in lin(0, 1, n)]
        dist = norm([v - u for u, v in zip(A3, B3)])
        gen("Line", "n=%d" % n, "Line(p[0], p[1], %d)" % n, [a3, b3], w, [("x", lin(0, dist, n))], lshape=(n,), mesh=(n, 1))
        vn.defer("transform", "Line n=%d uv_to_3d" % n, S + "Line", lambda n=n, w=w: differ(
            probe("Line(p[0], p[1], %d)" % n, "s.uv_to_3d(more)", [a3, b3], arr([lin(0, 1, n), [0] * n])), cols(w)))

    # mesh points
    for nu, nv in ((2, 3), (1, 2), (3, 1)):
        g = symarr("g", (3, nu, nv))
        w = [[g.a[d, i, j] for d in range(3)] for i, j in grid((nu, nv))]
        ax = [("x", [P.of(i) for i in range(nu)]), ("y", [P.of(i) for i in range(nv)])]
        gen("MeshPoints", "%dx%d" % (nu, nv), "MeshPoints(p)", g, w, ax, uv=ax, lshape=(nu, nv), mesh=(nu, nv),
            extra="no uv_to_3d")
        # which axes u and v run along
        for ma in ("xy", "yx"):
            e = ["xy".index(m) for m in ma]
            ax = [("x", [g.a[e[0], i, 0] for i in range(nu)]), ("y", [g.a[e[1], 0, j] for j in range(nv)])]
            gen("RectilinearMeshPoints", "%s %dx%d" % (ma, nu, nv), "RectilinearMeshPoints(p, mesh_axes=%r)" % ma, g, w, ax, uv=ax,
                lshape=(nu, nv), mesh=(nu, nv), extra="no uv_to_3d")

    planes(vn, gen, probe, (a3, A3), (b3, B3), (c3, C3))
    volumes(vn, gen, (a3, A3), (b3, B3))
    spheres(vn, gen, probe, (a3, A3), (b3, B3))
    patches(vn, gen, (a3, A3), (b3, B3))
    vn.run_deferred()
    vn.finish()
    ctx.need(ctx.stats.get("functions interpreted", 0), 30, "interpreted functions")


def flat(i, sh):
    k = 0
    for a, n in zip(i, sh):
        k = k * n + a
    return k


def planes(vn, gen, probe, a, b, c):
    """origin a, normal b, L direction c"""
    o = a[1]

    def basis(N, L):
        nn = [x / norm(N) for x in N]
        ll = [x / norm(L) for x in L]
        dot = sum((u * v for u, v in zip(ll, nn)), P.of(0))
        l = [u - dot * v for u, v in zip(ll, nn)]
        l = [x / norm(l) for x in l]
        return l, cross(nn, l), nn
    W = (var("wl"), var("wm"))
    # (name, normal, L, given)
    dirs = [("axes", [0, 0, 2], [3, 0, 0]), ("tilted", [0, 3, 4], [1, 0, 1]), ("oblique", [1, 2, 2], [2, 1, 0]),
            ("permuted", [1, 0, 0], [0, 0, -1])]
    for nm, N, L in dirs:
        N, L = [P.of(x) for x in N], [P.of(x) for x in L]

        def pts(l, m, N=N, L=L):
            el, em, en = basis(N, L)
            return [[o[d] + x * el[d] + y * em[d] for d in range(3)] for x in l for y in m]
        for nl, nmm in ((2, 3), (1, 2)) if nm == "oblique" else ((2, 2),):
            for how in ("float", "list", "points"):
                lm = [-var("wl") / 2, var("wl") / 2] if how != "list" else [var("l0"), var("l1")]
                mm = [-var("wm") / 2, var("wm") / 2] if how != "list" else [var("m0"), var("m1")]
                l, m = lin(lm[0], lm[1], nl), lin(mm[0], mm[1], nmm)
                kw = "len_l=p[3], len_m=p[4], nl=%d, nm=%d" % (nl, nmm)
                p = [a[0], N, L, list(lm) if how == "list" else var("wl"), list(mm) if how == "list" else var("wm")]
                if how == "points":
                    p[1] = arr([u + v for u, v in zip(o, N)])
                    p[2] = arr([u + v for u, v in zip(o, L)])
                    kw += ", NL_are_vectors=False"
                ax = [("x", l), ("y", m)]
                gen("Plane", "%s %s %dx%d" % (nm, how, nl, nmm), "Plane(p[0], p[1], p[2], %s)" % kw, p, lambda l=l, m=m, f=pts: f(l, m),
                    ax + [("z", [P.of(0)])], uv=ax, lshape=(3, nl * nmm), mesh=(nl, nmm))

                def inv(p=p, kw=kw, N=N, L=L):
                    x = symarr("x", (3, 2))
                    lmn, xyz, one = probe("Plane(p[0], p[1], p[2], %s)" % kw, "s.to_local(more), s.to_3d(more), s.to_local(s.to_3d(more))", p, x)
                    B = basis(N, L)
                    w = [[sum((B[e][d] * (x.a[d, i] - o[d]) for d in range(3)), P.of(0)) for i in range(2)] for e in range(3)]
                    w3 = [[o[d] + sum((B[e][d] * x.a[e, i] for e in range(3)), P.of(0)) for i in range(2)] for d in range(3)]
                    return differ(lmn, arr(w), "to_local ") or differ(xyz, arr(w3), "to_3d ") or differ(one, x, "to_local(to_3d) ")
                vn.defer("transform", "Plane %s %s %dx%d to_local" % (nm, how, nl, nmm), S + "Plane", inv)

    def general():
        rot = probe("Plane(p[0], p[1], p[2])", "s.get_rotation()", [a[0], b[0], c[0]])
        return differ(rot, arr(transpose(list(basis(b[1], c[1])))))
    vn.defer("transform", "Plane any N and L, axes", S + "Plane", general)

    for N, L in (([0, 0, 1], [0, 0, 2]), ([1, 2, 3], [-2, -4, -6])):
        def par(N=N, L=L):
            it = vn.interp(dict(HOOKS))
            r = it.probe(M, """
def probe(N, L):
    try:
        viscid.seed.Plane((0, 0, 0), N, L)
    except RuntimeError:
        return 'refused'
    return 'made'
""", [N, L])
            return None if r == "refused" else "a plane is made of parallel N and L"
        vn.defer("points", "Plane parallel N and L %s" % N, S + "Plane", par)


def volumes(vn, gen, a, b):
    """corners a and b"""
    lo, hi = a[1], b[1]
    for n in ((2, 3, 2), (1, 2, 3), (2, 1, 2), (3, 2, 1), (2, 2, 2)):
        axs = [lin(lo[d], hi[d], n[d]) for d in range(3)]
        w = [[axs[d][i[d]] for d in range(3)] for i in grid(n)]
        kw = {}
        if 1 in n:
            k = n.index(1)
            uvx = [axs[d] for d in range(3) if d != k]
            kw = dict(uv=[("x", uvx[0]), ("y", uvx[1])], mesh=tuple(m for d, m in enumerate(n) if d != k))
        gen("Volume", "%dx%dx%d" % n, "Volume(p[0], p[1], n=%r)" % (n,), [a[0], b[0]], w,
            list(zip("xyz", axs)), lshape=n, **kw)


def spheres(vn, gen, probe, a, b):
    """center a; pole b or given"""
    o = a[1]
    R = alg.sqrt(var("R2"))
    deg = pi / 180

    def place(rot, th, ph, r):
        v = [r * sin(th) * cos(ph), r * sin(th) * sin(ph), r * cos(th)]
        return [x + y for x, y in zip(o, matvec(rot, v))]

    def axes(tl, plim, nt, np_, tend="auto", pend="auto", cap=False):
        t0, t1 = tl
        pole = [t in (0, 180) for t in tl]
        if tend == "auto":
            ends = [True, False] if cap else [not x for x in pole]
        else:
            ends = tend if isinstance(tend, list) else [tend] * 2
        if all(ends):
            th = lin(t0, t1, nt)
        elif ends[0]:
            th = lin(t0, t1, nt, False)
        elif ends[1]:
            th = lin(t1, t0, nt, False)[::-1]
        else:
            e = lin(t0, t1, nt + 1)
            th = [(u + v) / 2 for u, v in zip(e, e[1:])]
        spans = plim[1] - plim[0] == 360
        pe = pend if pend != "auto" else not spans
        ph = lin(plim[0], plim[1], np_, pe)
        skipped = [p and not e for p, e in zip(pole, ends)]
        return [x * deg for x in th], [x * deg for x in ph], skipped, spans and not pe

    def sphere(cls, name, args, tl, plim, nt, np_, tp, tend="auto", pend="auto", p=None, roll=None, pole=None, r=R,
               cap=False, hooks=True, theta=True):
        order = POS
        th, ph, skipped, seam = axes(tl, plim, nt, np_, tend, pend, cap)
        hk = ROT if hooks else None
        pole = pole or b[1]

        def rot():
            if hooks:
                return turn(pole, roll if roll is not None else P.of(0))
            n = norm(pole)
            u = [x / n for x in pole]
            ax_ = [-u[1], u[0], P.of(0)]
            sn = norm(ax_)
            k = [[P.of(0), P.of(0), ax_[1]], [P.of(0), P.of(0), -ax_[0]], [-ax_[1], ax_[0], P.of(0)]]
            kk = matmul(k, k)
            f = (1 - u[2]) / (sn * sn) if sn.const() != 0 else P.of(0)
            return [[P.of(int(i == j)) + k[i][j] + f * kk[i][j] for j in range(3)] for i in range(3)]

        def pts():
            m = rot()
            if tp:
                return [place(m, t, f, r) for t in th for f in ph]
            return [place(m, t, f, r) for f in ph for t in th]
        ax = [("theta", th), ("phi", ph)]
        if not tp:
            ax = ax[::-1]
        sh = tuple(len(v) for _, v in ax)
        make = "%s(%s)" % (cls, args)
        p = p if p is not None else [a[0], b[0], R, var("roll")]
        gen(cls, name, make, p, pts, ax, uv=ax, lshape=(1,) + sh, hooks=hk, order=order)

        def mesh(fill, values):
            m = rot()
            d = symarr("d", (nt * np_,))
            if values:
                g = [[d.a[flat((i, j), (nt, np_)) if tp else flat((j, i), (np_, nt))] for j in range(np_)] for i in range(nt)]
                tip = [sum(row, P.of(0)) / np_ for row in (g[0], g[-1])]
            else:
                g = [[place(m, t, f, r) for f in ph] for t in th]
                u = [x / norm(pole) for x in pole]
                tip = [[x + s * r * y for x, y in zip(o, u)] for s in
                       (1 if tl[0] == 0 else -1, 1 if tl[1] == 0 else -1)]
            if fill:
                if skipped[0]:
                    g = [[tip[0]] * np_] + g
                if skipped[1]:
                    g = g + [[tip[1]] * np_]
                if seam:
                    g = [row + [row[0]] for row in g]
            if not tp:
                g = [list(x) for x in zip(*g)]
                if fill:
                    g = g[::-1]
            if values:
                want = arr(g)
            else:
                want = arr([[[q[d_] for q in row] for row in g] for d_ in range(3)])
            for mk, e in ((make, "fill_holes=%s" % fill), (make[:-1] + ", fill_holes=%s)" % fill, "")):
                r_ = probe(mk, ("s.arr2mesh(more%s)" % (e and ", " + e)) if values else "s.as_mesh(%s)" % e, p, d, hooks=hk, order=order)
                dd = differ(r_, want, "mesh values " if values else "vertices ")
                if dd:
                    return dd
        for fill in (True, False):
            for values in (True, False):
                vn.defer("mesh", "%s %s %s%s" % (cls, name, "values" if values else "vertices", " closed" if fill else ""),
                         S + cls, lambda fill=fill, values=values: mesh(fill, values))

        def both():
            d = symarr("d", (nt * np_,))
            v, w = probe(make, "s.as_mesh(), s.arr2mesh(more)", p, d, hooks=hk, order=order)
            return None if tuple(v.dims[1:]) == tuple(w.dims) else "vertices %s, values %s" % (v.dims, w.dims)
        vn.defer("mesh", "%s %s same shape" % (cls, name), S + cls, both)

    base = "p0=p[0], pole=p[1], r=p[2], ntheta=%d, nphi=%d"
    for tp in (False, True):
        for (tl, plim) in (((0, 180), (0, 360)), ((0, 90), (0, 360)), ((90, 180), (0, 360)), ((30, 150), (0, 90)),
                           ((0, 60), (-180, 180)), ((20, 180), (-90, 90)), ((0, 180), (45, 135))):
            nt, np_ = (2, 3) if tl != (0, 90) else (3, 2)
            sphere("Sphere", "theta %s phi %s%s" % (tl, plim, " theta_phi" if tp else ""),
                   base % (nt, np_) + ", thetalim=%r, philim=%r, theta_phi=%r" % (tl, plim, tp), tl, plim, nt, np_, tp)
        for te in (True, False, [True, False], [False, True]):
            sphere("Sphere", "theta_endpoint=%s%s" % (te, " theta_phi" if tp else ""),
                   base % (3, 2) + ", theta_endpoint=%r, theta_phi=%r" % (te, tp), (0, 180), (0, 360), 3, 2, tp, tend=te)
        for pe in (True, False):
            for plim in ((0, 360), (0, 180)):
                sphere("Sphere", "phi_endpoint=%s phi %s%s" % (pe, plim, " theta_phi" if tp else ""),
                       base % (2, 3) + ", phi_endpoint=%r, philim=%r, theta_phi=%r" % (pe, plim, tp), (0, 180), plim, 2, 3, tp, pend=pe)
    # roll and coordinate systems
    for cs in ("gse", "mhd", "GSE"):
        extra = pi if cs.lower() == "gse" else P.of(0)
        sphere("Sphere", "roll crd_system=%s" % cs, base % (2, 2) + ", roll=p[3], crd_system=%r" % cs, (0, 180), (0, 360), 2, 2, False,
               roll=var("roll") * deg - extra)
    for nm, pl in (("+z", [0, 0, 2]), ("tilted", [3, 0, 4]), ("oblique", [2, -1, 2])):
        pl = [P.of(x) for x in pl]
        sphere("Sphere", "pole %s" % nm, "p0=p[0], pole=p[1], ntheta=2, nphi=2", (0, 180), (0, 360), 2, 2, False,
               p=[a[0], pl, R, var("roll")], pole=pl, r=norm(pl), hooks=False)
    # radius of the pole, pole as a point
    sphere("Sphere", "radius of the pole", "p0=p[0], pole=p[1], ntheta=2, nphi=2", (0, 180), (0, 360), 2, 2, False,
           r=norm(b[1]))
    sphere("Sphere", "pole is a point", "p0=p[0], pole=p[1], r=p[2], ntheta=2, nphi=2, pole_is_vector=False", (0, 180), (0, 360), 2, 2,
           False, p=[a[0], arr([x + y for x, y in zip(a[1], b[1])]), R, var("roll")])
    for angs in ((0, 40), (10, 60), (0, 180)):
        for tp in (False, True):
            sphere("SphericalCap", "%s%s" % (angs, " theta_phi" if tp else ""), base % (2, 3) + ", angle0=%r, angle=%r, theta_phi=%r" % (
                angs + (tp,)), angs, (0, 360), 2, 3, tp, tend=[True, False])
        sphere("SphericalCap", "%s auto" % (angs,), base % (2, 2) + ", angle0=%r, angle=%r, theta_endpoint='auto'" % angs, angs,
               (0, 360), 2, 2, False, cap=True)
    for end in (None, True, False):
        sphere("Circle", "endpoint=%s" % end, "p0=p[0], pole=p[1], r=p[2], n=4" + ("" if end is None else ", endpoint=%r" % end),
               (90, 90), (0, 360), 1, 4, False, tend=[True, False], pend="auto" if end is None else end)

    def bounds(tl, plim, tp):
        r = probe("Sphere(p0=p[0], pole=p[1], r=p[2], thetalim=%r, philim=%r, theta_phi=%r)" % (tl, plim, tp),
                  "list(s.pt_bnds), list(s.periodic)", [a[0], b[0], R], order=POS, hooks=ROT)
        w = "0" if tp else "1"
        pt = [w + s for s, t in zip("-+", tl) if t in (0, 180)]
        per = [] if plim[1] - plim[0] != 360 else [False, "1"] if tp else ["1", False]
        return None if list(r) == [pt, per] else "point boundaries and periodicity %s instead of %s" % (list(r), [pt, per])
    for tp in (False, True):
        for tl in ((0, 180), (0, 90), (30, 150), (90, 180)):
            for plim in ((0, 360), (0, 180), (-180, 180)):
                vn.defer("transform", "Sphere bounds theta %s phi %s%s" % (tl, plim, " theta_phi" if tp else ""),
                         S + "Sphere.pt_bnds", lambda tl=tl, plim=plim, tp=tp: bounds(tl, plim, tp))


def turn(to, roll):
    """the rotation of +z to a direction, rolled about it, as a function of both"""
    u = [x / norm(to) for x in to]
    return [[fn("rot%d%d" % (i, j), tuple(u) + (sin(roll), cos(roll))) for j in range(2)] + [u[i]] for i in range(3)]


def a2b(it, args, k):
    kw = dict(zip(("a", "b", "roll", "unit"), args))
    kw.update(k)
    z = [P.of(x) for x in arr(kw["a"]).a]
    if [x.const() for x in z] != [0, 0, 1]:
        raise Unsupp("rotation from another direction")
    roll = P.of(kw.get("roll", 0))
    if str(kw.get("unit", "rad")).strip().lower().startswith("d"):
        roll = roll * pi / 180
    return arr(turn([P.of(x) for x in arr(kw["b"]).a], roll))


def pick(it, a, k):
    """the larger of two values when the assumed values of the symbols decide it"""
    def f(x, y):
        lt = alg.lt(P.of(x), P.of(y))
        if not isinstance(lt, bool) and it.decider:
            lt = it.decider(lt)
        return alg.fn("max", (P.of(x), P.of(y))) if lt is None or not isinstance(lt, bool) else P.of(y) if lt else P.of(x)
    return elementwise(f, *[arr(x) if isinstance(x, (list, tuple)) else x for x in a[:2]])


ROT = {"viscid.rotation.a2b_rot": a2b, "numpy.maximum": pick, "numpy.fmax": pick}
POS = Order({var("R2").key: 2.0}, {var("R2").key: 0.3})


def patches(vn, gen, a, b):
    """center a, direction b"""
    o = a[1]
    R, roll = alg.sqrt(var("R2")), var("roll")
    deg = pi / 180
    for ma, mb in ((45, 45), (30, 20)):
        for na, nb in ((3, 2), (1, 2)):
            for how in ("radius", "length", "point"):
                r = norm(b[1]) if how == "length" else R

                def pts(ma=ma, mb=mb, na=na, nb=nb, r=r):
                    out = []
                    m = turn(b[1], roll * deg)
                    for al in lin(-ma, ma, na):
                        for be in lin(-mb, mb, nb):
                            x, y = r * sin(al * deg), r * sin(be * deg)
                            w = r * r - x * x - y * y
                            out.append([u + v for u, v in zip(o, matvec(m, [x, y, alg.sqrt(w)]))])
                    return out
                p1 = b[0] if how != "point" else arr([u + v for u, v in zip(o, b[1])])
                ax = [("x", [q * deg for q in lin(-ma, ma, na)]), ("y", [q * deg for q in lin(-mb, mb, nb)])]
                gen("SphericalPatch", "%s %s %dx%d" % (how, (ma, mb), na, nb), "SphericalPatch(p0=p[0], p1=p[1], max_alpha=%d, "
                    "max_beta=%d, nalpha=%d, nbeta=%d, roll=p[3]%s%s)" % (ma, mb, na, nb, "" if how == "length" else ", r=p[2]",
                                                                          ", p1_is_vector=False" if how == "point" else ""),
                    [a[0], p1, R, roll], pts, ax, uv=ax, lshape=(na, nb), mesh=(na, nb), order=POS if how != "length" else LEN,
                    hooks=ROT)


LEN = Order({var("b[%d]" % i).key: v for i, v in enumerate((1.0, -2.0, 0.5))},
            {var("b[%d]" % i).key: v for i, v in enumerate((-0.3, 0.2, 4.0))})
