"""Randomised check that every canonicalising constructor preserves meaning."""
import random, sys
import engine.ir as ir


def run(n=3000, seed=1):
    rnd = random.Random(seed)
    bad = 0
    for it in range(n):
        ir.reset(); ir._memo.clear()
        nv = 3
        bounds = []
        env = {}
        vs = []
        for i in range(nv):
            kind = rnd.randrange(4)
            if kind == 0: l, h = 0, (1 << rnd.choice([1, 4, 8, 16, 32])) - 1
            elif kind == 1: l, h = -ir.INF, ir.INF
            elif kind == 2: l, h = 1, ir.INF
            else: l, h = 0, rnd.randrange(1, 300)
            vs.append(ir.var('x%d' % i, l, h))
            bounds.append((l, h))
        def pick(i):
            l, h = bounds[i]
            if l == -ir.INF: return rnd.choice([rnd.randrange(-50, 50), rnd.randrange(-2**40, 2**40)])
            if h == ir.INF: return rnd.choice([rnd.randrange(l, 50), rnd.randrange(l, 2**40)])
            return rnd.choice([l, h, rnd.randrange(l, h + 1)])
        C = [1, 2, 3, 5, 7, 8, 16, 255, 256, 0xffff, 1 << 16, (1 << 32) - 1, 1 << 32, 0xff00ff00, 0x0ffffffc, 0x87, 0x7fff]
        # build paired (term, python closure) expression
        pool = [(v, (lambda e, n=v.a[0]: e[n])) for v in vs] + [(c, (lambda e, c=c: c)) for c in rnd.sample(C, 3)]
        for _ in range(rnd.randrange(2, 9)):
            (a, fa), (b, fb) = rnd.choice(pool), rnd.choice(pool)
            op = rnd.choice(['add', 'sub', 'mul', 'mod', 'div', 'xor', 'and', 'or', 'shl', 'shr', 'modc', 'divc', 'andc', 'orc', 'xorc', 'ite', 'rot', 'inv', 'le', 'eq', 'powk'])
            c = rnd.choice(C); k = rnd.randrange(0, 33)
            if op == 'add': t, f = ir.add(a, b), lambda e, fa=fa, fb=fb: fa(e) + fb(e)
            elif op == 'sub': t, f = ir.sub(a, b), lambda e, fa=fa, fb=fb: fa(e) - fb(e)
            elif op == 'mul': t, f = ir.mul(a, b), lambda e, fa=fa, fb=fb: fa(e) * fb(e)
            elif op == 'mod': t, f = ir.mod(a, b) if not (ir.isconst(b) and b == 0) else a, (lambda e, fa=fa, fb=fb: fa(e) % fb(e)) if not (ir.isconst(b) and b == 0) else fa
            elif op == 'div': t, f = ir.div(a, b) if not (ir.isconst(b) and b == 0) else a, (lambda e, fa=fa, fb=fb: fa(e) // fb(e)) if not (ir.isconst(b) and b == 0) else fa
            elif op == 'xor': t, f = ir.xor(a, b), lambda e, fa=fa, fb=fb: fa(e) ^ fb(e)
            elif op == 'and': t, f = ir.and_(a, b), lambda e, fa=fa, fb=fb: fa(e) & fb(e)
            elif op == 'or': t, f = ir.or_(a, b), lambda e, fa=fa, fb=fb: fa(e) | fb(e)
            elif op == 'shl': t, f = ir.shl(a, k), lambda e, fa=fa, k=k: fa(e) << k
            elif op == 'shr': t, f = ir.shr(a, k), lambda e, fa=fa, k=k: fa(e) >> k
            elif op == 'modc': t, f = ir.mod(a, c), lambda e, fa=fa, c=c: fa(e) % c
            elif op == 'divc': t, f = ir.div(a, c), lambda e, fa=fa, c=c: fa(e) // c
            elif op == 'andc': t, f = ir.and_(a, c), lambda e, fa=fa, c=c: fa(e) & c
            elif op == 'orc': t, f = ir.or_(a, c), lambda e, fa=fa, c=c: fa(e) | c
            elif op == 'xorc': t, f = ir.xor(a, c), lambda e, fa=fa, c=c: fa(e) ^ c
            elif op == 'rot': t, f = ir.or_(ir.and_(ir.shl(a, k), 2**32 - 1), ir.shr(a, 32 - k) if k <= 32 else a), (lambda e, fa=fa, k=k: ((fa(e) << k) & (2**32 - 1)) | (fa(e) >> (32 - k))) if k <= 32 else None
            elif op == 'inv': t, f = ir.inv(a), lambda e, fa=fa: ~fa(e)
            elif op == 'ite': t, f = ir.ite(ir.le(a, b), a, b), lambda e, fa=fa, fb=fb: fa(e) if fa(e) <= fb(e) else fb(e)
            elif op == 'le': t, f = ir.b2i(ir.le(a, b)), lambda e, fa=fa, fb=fb: int(fa(e) <= fb(e))
            elif op == 'eq': t, f = ir.b2i(ir.eq(a, b)), lambda e, fa=fa, fb=fb: int(fa(e) == fb(e))
            elif op == 'powk':
                if bounds and ir.is_term(a): t, f = ir.pow_(a, 3), lambda e, fa=fa: fa(e) ** 3
                else: continue
            if f is None: continue
            pool.append((t, f))
            if rnd.random() < .6: pool.append((t, f))
        t, f = pool[-1]
        for _ in range(6):
            env = {'x%d' % i: pick(i) for i in range(nv)}
            try:
                want = f(env)
            except (ZeroDivisionError, OverflowError):
                continue
            if abs(want) > 1 << 4000: continue
            try:
                got = ir.evaluate(t, env)
            except ZeroDivisionError:
                continue
            if got != want or not (ir.lo(t) <= got <= ir.hi(t)):
                bad += 1
                print('MISMATCH', ir.show(t), env, got, want, ir.lo(t), ir.hi(t), bounds)
                if bad > 5: return bad
        # substitution keeps meaning
        m = {vs[0]: ir.add(vs[1], 3)}
        if bounds[0][0] == -ir.INF:
            try:
                e2 = dict(env); e2['x0'] = env['x1'] + 3
                w = ir.evaluate(t, e2)
                g = ir.evaluate(ir.subst(t, m), env)
                if w != g:
                    bad += 1; print('SUBST MISMATCH', t, ir.subst(t, m), env, w, g)
            except ZeroDivisionError:
                pass
    return bad


if __name__ == '__main__':
    b = run(int(sys.argv[1]) if len(sys.argv) > 1 else 3000, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    print('mismatches', b)
    sys.exit(1 if b else 0)
