def reduce_from(f, xs, acc):
    for x in xs:
        acc = f(acc, x)
    return acc


def reduce_nonempty(f, xs):
    if len(xs) == 0:
        raise TypeError('reduce() of empty sequence with no initial value')
    return reduce_from(f, xs[1:], xs[0])
