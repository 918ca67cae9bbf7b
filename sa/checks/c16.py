"""Value numbering of viscid/rotation.py: every conversion is interpreted on symbolic angles,
axes, quaternions and matrices; its result must have the same canonical form as the
rotation it is documented to describe, or undo the opposite conversion."""
from __future__ import annotations
from fractions import Fraction
import numpy as _np
from .. import alg
from ..alg import P, B, var, fn
from ..interp import A, symarr, arr, Unsupp, Native
from ..vn import VN, differ, unit, matmul, matvec, transpose, rows, decide, replace, zero

R = "viscid.rotation."
TB = ("zyx", "yxz", "xzy", "xyz", "yzx", "zxy")
PE = ("zyz", "zxz", "yzy", "yxy", "xzx", "xyx")


def sin(x):
    return fn("sin", (P.of(x),))


def cos(x):
    return fn("cos", (P.of(x),))


def elem_rot(ax, t):
    s, c = sin(t), cos(t)
    o, z = P.of(1), P.of(0)
    if ax in ("x", 0):
        return [[o, z, z], [z, c, -s], [z, s, c]]
    if ax in ("y", 1):
        return [[c, z, s], [z, o, z], [-s, z, c]]
    return [[c, -s, z], [s, c, z], [z, z, o]]


def rodrigues(n, t):
    s, c = sin(t), cos(t)
    k = [[P.of(0), -n[2], n[1]], [n[2], P.of(0), -n[0]], [-n[1], n[0], P.of(0)]]
    kk = matmul(k, k)
    return [[P.of(int(i == j)) + s * k[i][j] + (1 - c) * kk[i][j] for j in range(3)]
            for i in range(3)]


def qmat(q):
    """rotation matrix of a unit quaternion"""
    w, x, y, z = q
    return [[1 - 2 * y * y - 2 * z * z, 2 * x * y - 2 * z * w, 2 * x * z + 2 * y * w],
            [2 * x * y + 2 * z * w, 1 - 2 * x * x - 2 * z * z, 2 * y * z - 2 * x * w],
            [2 * x * z - 2 * y * w, 2 * y * z + 2 * x * w, 1 - 2 * x * x - 2 * y * y]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unclip(a):
    """min(1, max(-1, x)) is x for |x| <= 1"""
    if a.kind == "fn" and a.name in ("max", "min"):
        lim = -1 if a.name == "max" else 1
        rest = [x for x in a.args if x.const() != lim]
        if len(rest) == 1 and len(a.args) == 2:
            return replace(rest[0], unclip)
    return None


def generic_close(it, args, kw):
    """isclose in generic position: distinct symbolic values are not close"""
    from ..interp import elementwise

    def f(p, q):
        return alg.same(P.of(p), P.of(q))
    return elementwise(f, args[0], args[1])


def run(ctx):
    ctx.rule("definition", "the canonical form of the result equals that of the documented rotation")
    ctx.rule("roundtrip", "matrix to angles/axis/quaternion and back gives the same canonical matrix")
    ctx.rule("compose", "products and applications agree between representations")
    vn = VN(ctx)
    call = vn.call
    t = var("t")
    deg = alg.pi / 180
    n = unit("n")
    N = arr(n)

    def D(name, fname, got, want, rule="definition", simp=None):
        vn.check(rule, name, R + fname, lambda: differ(got(), want() if callable(want) else want,
                                                       simp=simp))

    def A2(m):
        return arr([list(r) for r in m])

    # angle units
    for fu in ("rad", "deg", " Degrees", "radians"):
        for tu in ("rad", "deg"):
            k = (deg if "d" == fu.strip().lower()[0] else P.of(1)) / (deg if tu == "deg" else P.of(1))
            D("convert_angle %s->%s" % (fu, tu), "convert_angle",
              lambda: call(R + "convert_angle", t, fu, tu), t * k)

    # elementary rotations
    for ax, want in (("x", "x"), ("y", "y"), ("z", "z"), (0, "x"), (1, "y"), (2, "z"), ("Z", "z")):
        for u, k in (("rad", P.of(1)), ("deg", deg)):
            m = elem_rot(want, t * k)
            D("e_rot axis=%s unit=%s" % (ax, u), "e_rot",
              lambda: call(R + "e_rot", t, ax, u), A2(m))
            D("e_dcm axis=%s unit=%s" % (ax, u), "e_dcm",
              lambda: call(R + "e_dcm", t, ax, u), A2(transpose(m)))
        D("e_rot stack axis=%s" % ax, "e_rot",
          lambda: call(R + "e_rot", symarr("q", (2,)), ax),
          A(_np.array([[[P.of(e) for e in r] for r in elem_rot(want, var("q[%d]" % i))]
                       for i in range(2)], dtype=object)))

    # euler angles
    q = symarr("q", (3,))
    qs = [P.of(e) for e in q.a]
    stack = symarr("s", (2, 3))

    def ref(kind, axes, ang):
        m = [elem_rot(a, x) for a, x in zip(axes, ang)]
        mneg = [elem_rot(a, -x) for a, x in zip(axes, ang)]
        return {"angle2rot": lambda: matmul(m[2], m[1], m[0]),
                "eul2rot": lambda: matmul(m[0], m[1], m[2]),
                "angle2dcm": lambda: matmul(mneg[2], mneg[1], mneg[0]),
                "eul2dcm": lambda: matmul(mneg[0], mneg[1], mneg[2])}[kind]()

    for f in ("angle2rot", "eul2rot", "angle2dcm", "eul2dcm"):
        for axes in TB + PE:
            D("%s %s" % (f, axes), f, lambda: call(R + f, q, axes), lambda: A2(ref(f, axes, qs)))
        D("%s zyx deg" % f, f, lambda: call(R + f, q, "zyx", "deg"),
          lambda: A2(ref(f, "zyx", [x * deg for x in qs])))
        D("%s default order" % f, f, lambda: call(R + f, q), lambda: A2(ref(f, "zyx", qs)))

        def stk():
            out = [ref(f, "zxz", [P.of(e) for e in stack.a[i]]) for i in range(2)]
            a = _np.empty((2, 3, 3), dtype=object)
            for i in range(2):
                for j in range(3):
                    for k_ in range(3):
                        a[i, j, k_] = out[i][j][k_]
            return A(a)
        D("%s stack" % f, f, lambda: call(R + f, stack, "zxz"), stk)

    # matrices back to angles: the matrix built from angles q must give angles of the same matrix
    def back(f, g, axes, u, singular):
        k = deg if u == "deg" else P.of(1)
        third = axes[0] != axes[2]
        mid = qs[1]

        def pos(a):
            # the middle angle lies where its cosine (Tait-Bryan) / sine (proper) is >= 0
            if a.kind == "fn" and a.name == "abs":
                x = a.args[0]
                if alg.same(x, cos(mid) if third else sin(mid)) or \
                        alg.same(x, -cos(mid) if third else -sin(mid)):
                    return cos(mid) if third else sin(mid)
            return None

        def simp(p):
            p = replace(p, unclip)
            p = replace(p, pos)
            return p
        ang = list(qs)
        variants = [None]
        if singular:
            variants = [1, -1]
        for s in variants:
            if s is not None:
                ang[1] = alg.pi / 2 * s if third else (P.of(0) if s == 1 else alg.pi)
            m = ref(f, axes, ang)
            got = call(R + g, A2(m), axes, u, bad_matrix="ignore")
            rr = rows(got)
            if not isinstance(rr, list) or len(rr) != 3:
                return "does not return three angles"
            rr = [simp(x) for x in rr]

            def crit(b):
                if b.k[0] == "not":
                    v = crit(b.k[1])
                    return None if v is None else not v
                if b.k[0] == "lt":
                    return False if singular is False else None
                return None
            rr = [simp(decide(x, crit)) * k for x in rr]
            m2 = ref(f, axes, rr)
            for i in range(3):
                for j in range(3):
                    d = simp(simp(m2[i][j]) - m[i][j])
                    if not zero(d):
                        return "order %s: element [%d,%d] of the recovered matrix differs%s: %s" % (
                            axes, i, j, " at the singular orientation" if s else "", alg.show(d, 4)[:200])
            if s is None:
                d = alg.iszero(simp(cos(rr[1]) - cos(mid))) and alg.iszero(simp(sin(rr[1]) - sin(mid)))
                if not d:
                    return "order %s: the middle angle is not recovered" % axes
        return None

    for f, g in (("angle2rot", "rot2angle"), ("eul2rot", "rot2eul"), ("angle2dcm", "dcm2angle"),
                 ("eul2dcm", "dcm2eul")):
        for axes in TB + PE:
            vn.check("roundtrip", "%s %s" % (g, axes), R + g, lambda: back(f, g, axes, "rad", False))
            vn.check("roundtrip", "%s %s singular" % (g, axes), R + g,
                     lambda: back(f, g, axes, "rad", True))
        vn.check("roundtrip", "%s zyx deg" % g, R + g, lambda: back(f, g, "zyx", "deg", False))
    # axis / angle
    for u, k in (("rad", P.of(1)), ("deg", deg)):
        want = rodrigues(n, t * k)
        D("wxyz2rot %s" % u, "wxyz2rot", lambda: call(R + "wxyz2rot", t, N, u), A2(want))
        D("axang2rot %s" % u, "axang2rot",
          lambda: call(R + "axang2rot", arr(n + [t]), u), A2(want))
        half = [cos(t * k / 2)] + [x * sin(t * k / 2) for x in n]
        D("wxyz2quat %s" % u, "wxyz2quat", lambda: call(R + "wxyz2quat", t, N, u), arr(half))
        D("axang2quat %s" % u, "axang2quat", lambda: call(R + "axang2quat", arr(n + [t]), u), arr(half))
    # any length of the axis is accepted
    v = symarr("v", (3,))
    vs = [P.of(e) for e in v.a]
    vn2 = alg.sqrt(sum((e * e for e in vs), P.of(0)))
    vu = [e / vn2 for e in vs]
    D("wxyz2rot axis of any length", "wxyz2rot", lambda: call(R + "wxyz2rot", t, v),
      A2(rodrigues(vu, t)))
    D("wxyz2quat axis of any length", "wxyz2quat", lambda: call(R + "wxyz2quat", t, v),
      arr([cos(t / 2)] + [x * sin(t / 2) for x in vu]))
    st = symarr("t", (2,))
    sv = symarr("u", (2, 3))

    def stk(fun):
        out = [fun(i) for i in range(2)]
        a = _np.empty((2,) + _np.array(out[0], dtype=object).shape, dtype=object)
        for i in range(2):
            a[i] = _np.array(out[i], dtype=object)
        return A(a)

    def uvec(i):
        w = [P.of(e) for e in sv.a[i]]
        h = alg.sqrt(sum((e * e for e in w), P.of(0)))
        return [e / h for e in w]
    D("wxyz2rot stack", "wxyz2rot", lambda: call(R + "wxyz2rot", st, sv),
      lambda: stk(lambda i: rodrigues(uvec(i), P.of(st.a[i]))))
    D("wxyz2quat stack", "wxyz2quat", lambda: call(R + "wxyz2quat", st, sv),
      lambda: stk(lambda i: [cos(P.of(st.a[i]) / 2)] + [x * sin(P.of(st.a[i]) / 2) for x in uvec(i)]))

    # quaternions
    close = {"numpy.isclose": generic_close}
    h = unit("h", 4)
    H = arr(h)
    g4 = unit("g", 4)
    G = arr(g4)
    D("quat2rot", "quat2rot", lambda: call(R + "quat2rot", H, _hooks=close), A2(qmat(h)))
    D("quat2dcm", "quat2dcm", lambda: call(R + "quat2dcm", H, _hooks=close), A2(transpose(qmat(h))))
    hg = [H, G]

    def two(x, y):
        a = _np.empty((2,) + x.a.shape, dtype=object)
        a[0], a[1] = x.a, y.a
        return A(a)
    D("quat2rot stack", "quat2rot", lambda: call(R + "quat2rot", two(H, G), _hooks=close),
      lambda: two(A2(qmat(h)), A2(qmat(g4))))
    q4 = symarr("q", (4,))
    q4s = [P.of(e) for e in q4.a]
    q4n = alg.sqrt(sum((e * e for e in q4s), P.of(0)))
    D("quat2rot any length", "quat2rot", lambda: call(R + "quat2rot", q4, _hooks=close),
      A2(qmat([e / q4n for e in q4s])))
    D("quat2wxyz->rot", "quat2wxyz", lambda: (lambda r: call(R + "wxyz2rot", r[0], r[1]))(
        call(R + "quat2wxyz", H, _hooks=close)), A2(qmat(h)), "roundtrip")
    D("quat2wxyz deg->rot", "quat2wxyz", lambda: (lambda r: call(R + "wxyz2rot", r[0], r[1], "deg"))(
        call(R + "quat2wxyz", H, "deg", _hooks=close)), A2(qmat(h)), "roundtrip")
    D("quat2axang->rot", "quat2axang", lambda: call(R + "axang2rot",
                                                    call(R + "quat2axang", H, _hooks=close)),
      A2(qmat(h)), "roundtrip")
    D("quat2axang deg", "quat2axang", lambda: call(R + "axang2rot", call(
        R + "quat2axang", H, "deg", _hooks=close), "deg"), A2(qmat(h)), "roundtrip")
    # a second quaternion in the stack must not influence the first
    D("quat2axang stack", "quat2axang", lambda: call(R + "axang2rot", call(
        R + "quat2axang", two(H, G), _hooks=close)), lambda: two(A2(qmat(h)), A2(qmat(g4))), "roundtrip")

    # composition
    M1, M2, M3 = symarr("M", (3, 3)), symarr("K", (3, 3)), symarr("L", (3, 3))
    m1, m2, m3 = rows(M1), rows(M2), rows(M3)
    D("rotmul 2", "rotmul", lambda: call(R + "rotmul", M1, M2), A2(matmul(m1, m2)), "compose")
    D("rotmul 3", "rotmul", lambda: call(R + "rotmul", M1, M2, M3), A2(matmul(m1, m2, m3)), "compose")
    D("rotmul 1", "rotmul", lambda: call(R + "rotmul", M1), M1, "compose")
    D("rotate 1", "rotate", lambda: call(R + "rotate", v, M1), arr(matvec(m1, vs)), "compose")
    D("rotate 2", "rotate", lambda: call(R + "rotate", v, M1, M2),
      arr(matvec(matmul(m1, m2), vs)), "compose")
    D("rotate stack of vectors", "rotate", lambda: call(R + "rotate", sv, M1),
      lambda: stk(lambda i: matvec(m1, [P.of(e) for e in sv.a[i]])), "compose")
    SM = symarr("S", (2, 3, 3))
    D("rotate stacks", "rotate", lambda: call(R + "rotate", sv, SM),
      lambda: stk(lambda i: matvec(rows(A(SM.a[i])), [P.of(e) for e in sv.a[i]])), "compose")
    D("rotmul stacks", "rotmul", lambda: call(R + "rotmul", SM, M1),
      lambda: stk(lambda i: matmul(rows(A(SM.a[i])), m1)), "compose")
    D("quatmul vs rotmul", "quatmul", lambda: call(R + "quat2rot", call(R + "quatmul", H, G),
                                                   _hooks=close),
      lambda: A2(matmul(qmat(h), qmat(g4))), "compose")
    p4 = symarr("p", (4,))

    def ham(a, b):
        return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
                a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
                a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]
    p4s = [P.of(e) for e in p4.a]
    r4 = symarr("r", (4,))
    D("quatmul 2", "quatmul", lambda: call(R + "quatmul", q4, p4), lambda: arr(ham(q4s, p4s)), "compose")
    D("quatmul 3", "quatmul", lambda: call(R + "quatmul", q4, p4, r4),
      lambda: arr(ham(ham(q4s, p4s), [P.of(e) for e in r4.a])), "compose")
    D("quatmul stack", "quatmul", lambda: call(R + "quatmul", two(q4, r4), p4),
      lambda: two(arr(ham(q4s, p4s)), arr(ham([P.of(e) for e in r4.a], p4s))), "compose")
    D("quat_rotate 1", "quat_rotate", lambda: call(R + "quat_rotate", v, H),
      lambda: arr(matvec(qmat(h), vs)), "compose")
    D("quat_rotate any length", "quat_rotate", lambda: call(R + "quat_rotate", v, q4),
      lambda: arr(matvec(qmat([e / q4n for e in q4s]), vs)), "compose")
    D("quat_rotate 2", "quat_rotate", lambda: call(R + "quat_rotate", v, H, G),
      lambda: arr(matvec(matmul(qmat(h), qmat(g4)), vs)), "compose")
    D("quat_rotate stack of vectors", "quat_rotate", lambda: call(R + "quat_rotate", sv, H),
      lambda: stk(lambda i: matvec(qmat(h), [P.of(e) for e in sv.a[i]])), "compose")

    # matrix to quaternion: the symmetric matrix given to the eigen solver belongs to the rotation
    def eigh_quat(it, args, kw):
        k = args[0]
        a = k.a
        if a.ndim != 3 or a.shape[1:] != (4, 4):
            raise Unsupp("eigen problem")
        nb = a.shape[0]
        vals = _np.empty((nb, 4), dtype=object)
        vecs = _np.empty((nb, 4, 4), dtype=object)
        for b in range(nb):
            m = [[P.of(a[b, i, j]) for j in range(4)] for i in range(4)]
            qq = [h, g4][b]
            s0, vv = qq[0], qq[1:]
            for w in (vv + [s0], [-x for x in vv] + [s0], [s0] + vv, [s0] + [-x for x in vv]):
                al = alg.simplify(m[0][1] / (w[0] * w[1]))
                if al.const() is None:
                    al = alg.simplify(m[1][2] / (w[1] * w[2]))
                al = al.const()
                if not al:
                    continue
                be = None
                good = True
                for i in range(4):
                    for j in range(4):
                        d = m[i][j] - w[i] * w[j] * al
                        if i == j:
                            be = d if be is None else be
                            d = d - be
                        good = good and zero(d)
                if good and be.const() is not None:
                    break
            else:
                raise Bad("the matrix given to the eigen solver is not that of the rotation")
            col = 3 if al > 0 else 0
            for c in range(4):
                vals[b, c] = be + (al if c == col else 0)
                for i in range(4):
                    vecs[b, i, c] = w[i] if c == col else var("other%d%d" % (c, i))
        return (A(vals), A(vecs))

    class Bad(Exception):
        pass

    def pm(q_, ref_):
        """equal up to the overall sign"""
        d = differ(q_, arr(ref_))
        if d and differ(q_, arr([-x for x in ref_])) is None:
            return None
        return d

    def r2q(f, mats, refs):
        try:
            r = call(R + f, mats, _hooks={"numpy.linalg.eigh": eigh_quat})
        except Bad as e:
            return str(e)
        if len(refs) == 1:
            return pm(r, refs[0])
        if not isinstance(r, A) or r.dims != (2, 4):
            return "a stack of matrices does not give a stack of quaternions"
        return pm(A(r.a[0]), refs[0]) or pm(A(r.a[1]), refs[1])
    vn.check("roundtrip", "rot2quat", R + "rot2quat", lambda: r2q("rot2quat", A2(qmat(h)), [h]))
    vn.check("roundtrip", "dcm2quat", R + "dcm2quat",
             lambda: r2q("dcm2quat", A2(transpose(qmat(h))), [h]))
    vn.check("roundtrip", "rot2quat stack", R + "rot2quat",
             lambda: r2q("rot2quat", two(A2(qmat(h)), A2(qmat(g4))), [h, g4]))

    # matrix to axis/angle: the recovered rotation equals the given one
    def eigh_sym(sign):
        def h_(it, args, kw):
            a = args[0].a
            if a.shape != (1, 3, 3):
                raise Unsupp("eigen problem")
            m = [[P.of(a[0, i, j]) for j in range(3)] for i in range(3)]
            if any(not alg.iszero(m[i][j] - m[j][i]) for i in range(3) for j in range(i)):
                raise Bad("the eigen solver for symmetric matrices is given another matrix")
            im = matvec(m, n)
            if any(not zero(x - y) for x, y in zip(im, n)):
                raise Bad("the rotation axis is not an eigenvector of the matrix given to the solver")
            vecs = _np.empty((1, 3, 3), dtype=object)
            for c in range(3):
                for i in range(3):
                    vecs[0, i, c] = n[i] * sign if c == 2 else var("other%d%d" % (c, i))
            return (A(_np.array([[P.of(0), P.of(0), P.of(1)]], dtype=object)), A(vecs))
        return h_

    def r2w(f, u, thr, quick=True, sign=1):
        k = deg if u == "deg" else P.of(1)
        m = rodrigues(n, t)
        hooks = dict(close)
        hooks["numpy.linalg.eigh"] = eigh_sym(sign)
        try:
            r = call(R + f, A2(m), u, bad_matrix="ignore", quick=quick, _hooks=hooks)
        except Bad as e:
            return str(e)
        if f == "rot2axang":
            if not isinstance(r, A) or r.dims != (4,):
                return "does not return four numbers"
            w, ax = r.a[3], [r.a[i] for i in range(3)]
        else:
            if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], A):
                return "does not return (angle, axis)"
            w, ax = r[0], [r[1].a[i] for i in range(3)]
        def sg(a):
            # representative orientation: sin(t) > 0, and |n_i| <= 1 for a unit vector
            if a.kind == "fn" and a.name == "abs":
                if alg.same(a.args[0], sin(t)):
                    return sin(t)
                for x in n:
                    for y in (1 - x * x, x * x - 1):
                        if alg.same(a.args[0], y):
                            return 1 - x * x
            return None

        eps = fn("abs", (var("positive"),))

        def pos(a):
            if a.kind == "fn" and a.name == "sin" and alg.same(a.args[0], t):
                return eps
            return None

        def crit(b):
            b0 = b.k[1] if b.k[0] == "not" else b
            val = None
            if b0.k[0] == "lt":
                x = alg.simplify(replace(replace(decide(b0.k[1], crit), unclip), sg))
                y = replace(x, pos)
                if alg.nonneg(y) or not y.t:
                    val = False
                elif alg.nonneg(-y):
                    val = True
                elif len(alg.atoms_of(x)) and any("n" in str(alg.show_atom(alg._ATOMS[i]))[:1]
                                                   for i in alg.atoms_of(x)):
                    # nearness of the axis to the helper vector: both choices are looked at
                    val = thr
            elif b0.k[0] == "and":
                val = thr
            if val is None:
                return None
            return val if b0 is b else not val

        def simp(p):
            p = alg.simplify(replace(replace(decide(p, crit), unclip), sg))
            if any(alg._ATOMS[i].kind == "phi" for i in alg.atoms_of(p)):
                raise Unsupp("selection that depends on the orientation")
            return p
        w = simp(P.of(w)) * k
        ax = [simp(P.of(x)) for x in ax]
        m2 = rodrigues(ax, w)
        for i in range(3):
            for j in range(3):
                d = alg.simplify(replace(m2[i][j] - m[i][j], sg))
                if not zero(d):
                    return "element [%d,%d] of the recovered matrix differs: %s" % (
                        i, j, alg.show(d, 4)[:200])
        return None
    for f in ("rot2wxyz", "rot2axang"):
        for u in ("rad", "deg"):
            for thr in (False, True):
                vn.check("roundtrip", "%s %s helper=%s" % (f, u, thr), R + f, lambda: r2w(f, u, thr))
        for sg_ in (1, -1):
            vn.check("roundtrip", "%s eigenvector %+d" % (f, sg_), R + f,
                     lambda: r2w(f, "rad", False, False, sg_))

    # angle between vectors and the rotation taking one to the other
    w = symarr("w", (3,))
    ws = [P.of(e) for e in w.a]
    wn = alg.sqrt(sum((e * e for e in ws), P.of(0)))
    dotn = sum((a * b for a, b in zip(vs, ws)), P.of(0)) / (vn2 * wn)
    for u, k in (("rad", P.of(1)), ("deg", deg)):
        D("angle_between %s" % u, "angle_between",
          lambda: fn("cos", (replace(P.of(call(R + "angle_between", v, w, u)), unclip) * k,)),
          lambda: dotn)
        D("angle_between range %s" % u, "angle_between",
          lambda: P.of(call(R + "angle_between", v, w, u)) * k,
          lambda: fn("arccos", (fn("max", (P.of(-1), fn("min", (P.of(1), dotn)))),)))
    nv = unit("m")

    def gen(c):
        # a roll that is not zero
        if c.k[0] == "not":
            v = gen(c.k[1])
            return None if v is None else not v
        return False if c.k[0] == "eq" else None

    def a2b(k, u, stacked=False):
        ex, ey = [P.of(1), P.of(0), P.of(0)], [P.of(0), P.of(1), P.of(0)]
        a0 = n
        kw = {}
        if k is not None:
            kw = dict(roll=t, unit=u)
            a0 = ex
        a, b = arr(a0), arr(nv)
        if stacked:
            a, b = two(arr(ex), arr(n)), two(arr(nv), arr(ey))
        got = rows(call(R + "a2b_rot", a, b, _hooks=close, **kw))
        for m, x, y in ([(got, a0, nv)] if not stacked else [(got[0], ex, nv), (got[1], n, ey)]):
            m = [[decide(e, gen) for e in r] for r in m]
            im = matvec(m, x)
            for i in range(3):
                d = alg.simplify(im[i] - y[i])
                if not zero(d):
                    return "vector a is not carried onto b (component %d): %s" % (i, alg.show(d, 3)[:200])
            mt = matmul(m, transpose(m))
            for i in range(3):
                for j in range(3):
                    if not zero(alg.simplify(mt[i][j] - int(i == j))):
                        return "the matrix is not orthonormal"
            if k is not None:
                m0 = rows(call(R + "a2b_rot", a, b, _hooks=close))
                want = matmul(rodrigues(y, t * k), m0)
                for i in range(3):
                    for j in range(3):
                        if not zero(alg.simplify(m[i][j] - want[i][j])):
                            return "the roll does not rotate about b by the given angle"
        return None
    vn.check("definition", "a2b_rot", R + "a2b_rot", lambda: a2b(None, "rad"))
    vn.check("definition", "a2b_rot stack", R + "a2b_rot", lambda: a2b(None, "rad", True))
    vn.check("definition", "a2b_rot roll", R + "a2b_rot", lambda: a2b(P.of(1), "rad"))
    vn.check("definition", "a2b_rot roll deg", R + "a2b_rot", lambda: a2b(deg, "deg"))
    neg = [-x for x in n]
    e1 = [P.of(1), P.of(0), P.of(0)]

    def special(a, b):
        m = rows(call(R + "a2b_rot", arr(a), arr(b), _hooks=close))
        m = [[decide(e, gen) for e in r] for r in m]
        for i, (x, y) in enumerate(zip(matvec(m, a), b)):
            if not zero(alg.simplify(x - y)):
                return "vector a is not carried onto b (component %d)" % i
        mt = matmul(m, transpose(m))
        if any(not zero(alg.simplify(mt[i][j] - int(i == j)))
               for i in range(3) for j in range(3)):
            return "the matrix is not orthonormal"
        return None
    vn.check("definition", "a2b_rot opposite", R + "a2b_rot", lambda: special(n, neg))
    vn.check("definition", "a2b_rot equal", R + "a2b_rot", lambda: special(n, n))
    vn.check("definition", "a2b_rot opposite along x", R + "a2b_rot",
             lambda: special(e1, [-x for x in e1]))

    def newx(u, sgn):
        z = [P.of(0), P.of(0), P.of(1)]
        x = [var("x0"), sgn * fn("abs", (var("x1"),)), var("x2")]
        m = rows(call(R + "a2b_rot", arr(z), arr(z), unit=u, new_x=arr(x), _hooks=close))

        def sg(a):
            if a.kind == "fn" and a.name == "sign":
                return P.of(1 if alg.nonneg(replace(a.args[0], sg)) else
                            -1 if alg.nonneg(replace(-a.args[0], sg)) else 0)
            return None
        m = [[alg.simplify(replace(decide(e, gen), sg)) for e in r] for r in m]
        h = alg.sqrt(x[0] * x[0] + x[1] * x[1])
        for i, (p, w) in enumerate(zip([r[0] for r in m], [x[0] / h, x[1] / h, P.of(0)])):
            if not zero(alg.simplify(p - w)):
                return "the x axis is not turned to the projection of new_x: %s" % alg.show(p, 3)[:200]
        return None
    for u in ("rad", "deg"):
        for sgn in (1, -1):
            vn.check("definition", "a2b_rot new_x %s %+d" % (u, sgn), R + "a2b_rot",
                     lambda: newx(u, sgn))
    vn.finish()
    ctx.need(sum(1 for o in ctx.obligations if o[2] != "undecided"), 10, "decided obligations")
