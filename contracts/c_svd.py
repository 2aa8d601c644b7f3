"""SVD splitting (C14).  torch.svd enters by its contract (a = U diag(S) V^H, U and V with
orthonormal columns, S >= 0 descending); everything svd_flex does around it is proved."""
from .spec import *

FN = ("torchmps.utils.svd_flex",)
AS = ("torch.svd: a = U diag(S) V^H, orthonormal columns, singular values non-negative and descending",)


def svd_unit(s, cplx, maxd, right, vec, same=None):
    """s: svd_string; maxd: None / 'any'; vec: None, 'ok' or 'bad' size"""
    s2 = s.replace(" ", "")
    init, post = s2.split("->")
    ls, rs = post.split(",")
    bond = (set(ls) & set(rs)).pop()

    def f(w):
        ut = w.module("torchmps.utils")
        D = {c: dim() for c in init}
        t = sym("T", *[D[c] for c in init], cplx=cplx)
        cut = rfn("cutoff", (), nonneg=True)
        C.add_fact(below(ZERO, cut))
        md = dim() if maxd else None
        sv = None
        if vec is not None:
            n = md if vec == "ok" else dim(0)
            if vec == "bad":
                C.add_fact(bnot(eq(as_ip(n), as_ip(md))))
            sv = sym("SV", n)
        from tvc.values import mk_real
        kw = {} if vec is None else {"sv_vec": sv}
        call = lambda: ut.svd_flex(t, s, md, mk_real(cut), right, **kw)
        lp, rp_ = [c for c in ls if c != bond], [c for c in rs if c != bond]

        def rec():
            if len(X().svds) != 1:
                raise Unsupported("more than one factorization")
            return list(X().svds.items())[0]
        if vec == "bad":
            return raises("wrong singular value vector", call, TypeError)
        try:
            L, R, tr = call()
        except RuntimeError as e:
            if muted():
                return
            nm, (a, m, n, k) = rec()
            S = Sym(nm + "S", False, True)
            return rholds("fails only if every singular value is below the cutoff", below(entry(S, [I(0)]), cut))
        if muted():
            return
        nm, (a, m, n, k) = rec()
        U, V, S = Sym(nm + "U", cplx), Sym(nm + "V", cplx), Sym(nm + "S", False, True)
        dl = [I(as_ip(D[c])) for c in lp]
        dr = [I(as_ip(D[c])) for c in rp_]

        def flat(ix, ds):
            r = I(0)
            for i, d in zip(ix, ds):
                r = r * d + i
            return r
        li, ri = [idx(d) for d in dl], [idx(d) for d in dr]
        env = dict(zip(lp + rp_, li + ri))
        holds("matrix shape", band(eq(m, prod(dl)), eq(n, prod(dr))))
        equal("the factorized matrix is the tensor", a.pel(flat(li, dl), flat(ri, dr)), t.pel(*[env[c] for c in init]))
        tr = I(as_ip(tr))
        size = I(as_ip(md)) if md is not None else tr
        kept = lambda b: band(lt(b, tr), lt(b, k))
        wl = [size if c == bond else I(as_ip(D[c])) for c in ls]
        wr = [size if c == bond else I(as_ip(D[c])) for c in rs]
        # the bond dimension
        by_contradiction("bond dimension at most the number of singular values", le(tr, k), k)
        if not C.consistent():
            raise PathEnd()         # more kept values than there are: impossible
        holds("bond dimension within range", band(le(1, tr), le(tr, k), le(tr, size)))
        b = idx(mk_int(tr))
        instantiate(b)
        rholds("kept singular values are not below the cutoff", bnot(below(entry(S, [b]), cut)))
        top = band(lt(tr, k), lt(tr, size)) if md is not None else lt(tr, k)
        if md is not None or True:
            with C.assume(*(top.args if top.kind == "and" else (top,))):
                if C.consistent():
                    rholds("the first dropped singular value is below the cutoff", below(entry(S, [tr]), cut))

        def lval(*ix):
            e = dict(zip(ls, ix))
            v = entry(U, [flat([e[c] for c in lp], dl), e[bond]])
            if not right:
                v = v * entry(S, [e[bond]])
            return v * ind(kept(e[bond]))

        def rval(*ix):
            e = dict(zip(rs, ix))
            v = pconj(entry(V, [flat([e[c] for c in rp_], dr), e[bond]]))
            if right:
                v = v * entry(S, [e[bond]])
            return v * ind(kept(e[bond]))
        tensor_is("left tensor", L, [mk_int(x) for x in wl], lval)
        tensor_is("right tensor", R, [mk_int(x) for x in wr], rval)
        unchanged("input tensor unchanged", t, lambda *i: entry(Sym("T", cplx), i), [D[c] for c in init])
        if vec == "ok":
            tensor_is("singular values", sv, [md], lambda i: entry(S, [i]) * ind(lt(i, k)))
    return f


def prod(l):
    r = I(1)
    for x in l:
        r = r * x
    return r


def below(p, q):
    return TT.mkrlt(P(p) - P(q))


STR = {"ab->ac,cb": "matrix", "lbor->lbu,uor": "grouped", "lrbo->lbu,uro": "permuted", "olri->oul,uri": "permuted outputs", "abc->ca x,x b".replace("x", "d"): "uneven"}
for _s, _n in STR.items():
    for _md in (None, "any"):
        for _r in (True, False):
            unit("C14", "svd[%s%s %s]" % (_n, " max_D" if _md else "", "right" if _r else "left"), FN, assumes=AS)(svd_unit(_s, False, _md, _r, "ok" if _md else None))
for _md in (None, "any"):
    unit("C14", "svd[complex%s]" % (" max_D" if _md else ""), FN, assumes=AS)(svd_unit("lbor->lbu,uor", True, _md, True, None))
unit("C14", "svd[wrong sv_vec]", FN, assumes=AS)(svd_unit("ab->ac,cb", False, "any", True, "bad"))
