"""One resolution for all parts: documents whose parts redefine their divisions, read by the real reader and validated
against spec/Reader.tla with the resolution the reader chose."""
import reader_common as R
import c05
from math import lcm


def random_doc(rng):
    pool = rng.choice([[1, 2, 4], [2, 3], [1, 3, 5, 7], [4, 6, 8, 12], [8, 10], [16, 24], [480, 96], [1, 2, 3, 4, 5, 6], [256], [420, 8], [9, 15, 10]])
    L = lcm(*pool)
    parts = []
    n = 0
    exact = rng.random() < .7
    for _ in range(rng.randint(1, 4)):
        ms = []
        for m in range(rng.randint(1, 4)):
            ev = []
            if m == 0: ev.append(R.attr(div=rng.choice(pool)))
            elif rng.random() < .4: ev.append(R.attr(div=rng.choice(pool)))
            for _ in range(rng.randint(0, 9)):
                k = rng.random()
                den = 1 if exact or rng.random() < .5 else rng.choice([2, 4, 8, 5, 10])
                num = rng.randint(1, 24)
                if k < .45:
                    ty = rng.choice(['', '', 'quarter', 'half', 'eighth', 'breve', 'dur256th'])
                    if rng.random() < .5:     # a length with a name
                        d = next((e['div'] for e in reversed(ev) if e['k'] == 'attr' and e['div']), 0)
                        if d:
                            num, den = rng.choice([(4, 1), (2, 1), (1, 1), (1, 2), (1, 4), (1, 8)])
                            num *= d
                            if den > 1 and num % den == 0: num, den = num // den, 1
                    for q in range(rng.choice([1, 1, 2])): ev.append(R.note(0, num, den, q > 0, rng.choice(['normal'] * 9 + ['grace']) if q == 0 else ev[-1]['kind'], 0, '', ty))
                elif k < .6: ev.append({'k': 'backup', 'n': num, 'd': den})
                elif k < .7: ev.append({'k': 'forward', 'n': num, 'd': den, 'st': 0})
                elif k < .85: ev.append(R.attr(div=rng.choice(pool)))
                else: ev.append(dict(c05.other(rng)))
            ms.append(ev)
        parts.append(ms)
    # a decimal fraction that falls exactly between two ticks is not represented exactly: leave these out
    G = lcm(*[e['div'] for p in parts for m in p for e in m if e['k'] == 'attr' and e['div']])
    for p in parts:
        div = G
        for m in p:
            for e in m:
                if e['k'] == 'attr' and e['div']: div = e['div']
                if e.get('d', 1) in (5, 10) and (2 * e['n'] * G) % (e['d'] * div) == 0: e['d'] = 1
    flat = R.number([m for p in parts for m in p])
    out, k = [], 0
    for p in parts:
        out.append({'ms': [R.measure(q + 1, flat[k + q]) for q in range(len(p))]}); k += len(p)
    return {'parts': out}


def run(ctx):
    D = R.defaults(ctx)
    ctx.model('MCReader', R.MODEL % ('time', ctx.pick(2, 3), 'FALSE'), name='timing rule')
    docs = [random_doc(ctx.rng) for _ in range(ctx.pick(1500, 40000))]
    # every pair of divisions values, in two parts and within one
    for a in range(1, 13):
        for b in range(1, 13):
            n = [R.note(1, a), R.note(2, 2 * a), R.note(3, 1)]
            w = [R.note(4, b), R.note(5, 2 * b), R.note(6, 1), {'k': 'dir', 'id': 7, 'st': 0, 'off': 1, 'pl': 'unspecified'}]
            docs.append({'parts': [{'ms': [R.measure(1, [R.attr(div=a)] + n)]}, {'ms': [R.measure(1, [R.attr(div=b)] + w)]}]})
            docs.append({'parts': [{'ms': [R.measure(1, [R.attr(div=a)] + n + [R.attr(div=b)] + w), R.measure(2, [R.note(8, b), R.attr(div=a), R.note(9, a)])]}]})
    ctx.conform('TReader', R.items(docs), R.make_case(D), env={'ASPECT': 'scale'}, chunk=1000)
    ctx.assumptions += ['durations have at most a few binary or decimal places', 'every part states its divisions in its first measure', 'chord symbols and directions have whole offsets']
