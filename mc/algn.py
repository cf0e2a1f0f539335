"""Alignment expressions as syntax trees, with an independent semantics.

An expression is a list of selections [(delim, id, spans)], delim None for the
first one and ',' or '+' otherwise; spans is None or [(delim, start, end)]."""
import itertools

JOIN = {None: '', ',': ' ', '+': ''}


def text(e):
    out = []
    for d, i, sp in e:
        out.append(d or '')
        out.append(i)
        if sp is not None:
            out.append('[')
            for sd, s, t in sp:
                out.append(sd or '')
                out.append('%d:%d' % (s, t))
            out.append(']')
    return ''.join(out)


def ids(e):
    return [i for _, i, _ in e]


def resolve(e, values):
    """values: id -> string or None; KeyError for an unknown id."""
    out = []
    for d, i, sp in e:
        out.append(JOIN[d])
        v = values[i]
        v = '' if v is None else v
        if sp is None:
            out.append(v)
        else:
            for sd, s, t in sp:
                out.append(JOIN[sd])
                out.append(''.join(v[k] for k in range(*slice(s, t).indices(len(v)))))
    return ''.join(out)


def spans(e):
    """[(delim, text)] one per span."""
    out = []
    for d, i, sp in e:
        if sp is None:
            out.append((d, i))
        else:
            for n, (sd, s, t) in enumerate(sp):
                out.append((d if n == 0 else sd, '%s[%d:%d]' % (i, s, t)))
    return out


def expand(e):
    """The same expression with one span per selection."""
    out = []
    for d, i, sp in e:
        if sp is None:
            out.append((d, i, None))
        else:
            for n, (sd, s, t) in enumerate(sp):
                out.append((d if n == 0 else sd, i, [(None, s, t)]))
    return out


def compress(e):
    """The same expression with neighbouring ranges on one id grouped."""
    out = []
    for d, i, sp in e:
        if (sp is not None and out and out[-1][1] == i and out[-1][2] is not None):
            prev = out[-1]
            more = [(d if n == 0 else sd, s, t) for n, (sd, s, t) in enumerate(sp)]
            out[-1] = (prev[0], i, prev[2] + more)
        else:
            out.append((d, i, None if sp is None else list(sp)))
    return out


def dec(x):
    """From JSON."""
    return [(d, i, None if sp is None else [tuple(p) for p in sp]) for d, i, sp in x]


def span_lists(bounds, n, delims=(',', '+')):
    """All span lists with exactly n spans over the given (start, end) pairs."""
    for ps in itertools.product(bounds, repeat=n):
        for ds in itertools.product(delims, repeat=n - 1):
            yield [(None if k == 0 else ds[k - 1],) + tuple(p)
                   for k, p in enumerate(ps)]


def expressions(idlist, bounds, nsel, nspan, delims=(',', '+')):
    """All expressions with exactly nsel selections, each with 0..nspan spans."""
    sels = [None]
    for n in range(1, nspan + 1):
        sels += list(span_lists(bounds, n, delims))
    for ii in itertools.product(idlist, repeat=nsel):
        for ds in itertools.product(delims, repeat=nsel - 1):
            for ss in itertools.product(sels, repeat=nsel):
                yield [(None if k == 0 else ds[k - 1], ii[k], ss[k])
                       for k in range(nsel)]
