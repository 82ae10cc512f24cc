"""Reading and writing documents again and again."""
import json


def script(xml, rounds=2):
    return rounds_of([{'f': 'createStream', 'xml': xml}, {'f': 'get', 'ref': 0}], 0, rounds)


def of_score(score, rounds=2):
    """a score written once is a document"""
    return rounds_of([{'f': 'createScore', 'score': score}, {'f': 'reparse', 'ref': 0}, {'f': 'get', 'ref': 1}], 1, rounds)


def rounds_of(st, at, rounds):
    for _ in range(rounds):
        n = len(st)
        st += [{'f': 'createFromGet', 'ref': at}, {'f': 'write', 'ref': n}, {'f': 'reparse', 'ref': n}, {'f': 'get', 'ref': n + 2}]
        at = n + 2
    return {'op': 'dm', 'script': st}


def case(it, r):
    rs = r.get('r')
    if rs is not None and not readable(rs, next(k for k, x in enumerate(it['script']['script']) if x['f'] == 'get')): return {'trace': [] if it.get('may') else [{'f': 'read', 'ok': False, 'score': {}}]}
    if rs is None: return {'trace': [{'f': 'read', 'ok': False, 'score': {}}]}
    tr, texts = [], []
    for s, x in zip(it['script']['script'], rs):
        if s['f'] == 'get': tr.append({'f': 'read', 'ok': 'score' in x, 'score': x.get('score', {})})
        if s['f'] == 'write':
            if x.get('xml') not in texts: texts.append(x.get('xml'))
            tr.append({'f': 'write', 'ok': 'xml' in x, 'text': texts.index(x.get('xml')) + 1})
    return {'trace': tr}


def readable(rs, k):
    """a score of parts was read, in groups of parts"""
    first = rs[k].get('score', {})
    return bool(first.get('parts')) and all(g.get('firstPartIndex', -1) <= g.get('lastPartIndex', -1) for g in first.get('partGroups', []))


def diff(a, b, p=''):
    if type(a) is not type(b): yield p, a, b; return
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a: yield p + '.' + k, None, b[k]
            elif k not in b: yield p + '.' + k, a[k], None
            else: yield from diff(a[k], b[k], p + '.' + k)
    elif isinstance(a, list):
        if len(a) != len(b): yield p + '#', len(a), len(b)
        else:
            for x, y in zip(a, b): yield from diff(x, y, p)
    elif a != b: yield p, a, b
