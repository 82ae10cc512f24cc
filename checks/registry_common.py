"""Replay of registry call histories emitted by spec/GRegistry.tla, and their validation with spec/TRegistry.tla."""
import json, os, re, glob
import xml.etree.ElementTree as ET
from vlib import sha

NOTE = '<note><pitch><step>{}</step><octave>4</octave></pitch><duration>{}</duration><type>quarter</type></note>'


def part_list(n): return '<part-list>' + ''.join(f'<score-part id="P{k}"><part-name>part {k}</part-name></score-part>' for k in range(1, n + 1)) + '</part-list>'


def meas(k, body): return f'<measure number="{k}">{body}</measure>'


ATT = '<attributes><divisions>4</divisions></attributes>'
BEYOND = '<attributes><clef number="7"><sign>G</sign></clef></attributes>'   # there is no such staff


def partwise(title, parts):
    return f'<?xml version="1.0" encoding="UTF-8"?><score-partwise version="3.0"><work><work-title>{title}</work-title></work>{part_list(len(parts))}' + ''.join(
        f'<part id="P{k + 1}">' + ''.join(meas(m + 1, b) for m, b in enumerate(p)) + '</part>' for k, p in enumerate(parts)) + '</score-partwise>'


def timewise(title, nparts, measures):
    """measures: list of {part index: body}"""
    return f'<?xml version="1.0" encoding="UTF-8"?><score-timewise version="3.0"><work><work-title>{title}</work-title></work>{part_list(nparts)}' + ''.join(
        f'<measure number="{m + 1}">' + ''.join(f'<part id="P{k}">{b}</part>' for k, b in me.items()) + '</measure>' for m, me in enumerate(measures)) + '</score-timewise>'


def score(title, kind, nparts=2):
    return {'workTitle': title, 'musicXmlType': kind, 'ticksPerQuarter': 4, 'parts': [
        {'uniqueId': f'P{k}', 'name': f'part {k}', 'measures': [
            {'staves': [{'clefs': [{}], 'voices': [{'k': 0, 'v': {'notes': [{'userRequestedVoiceNumber': 1, 'pitchData': {'step': 'efg'[k % 3]}, 'durationData': {'durationName': 'quarter', 'durationTimeTicks': 4}, 'tickTimePosition': 4 * t} for t in range(k + m)]}}]}]}
            for m in range(1, 3)]} for k in range(nparts)]}


def inputs():
    """what a creation may be given: (record for the specification, driver step)"""
    r = []
    def add(tok, via, kind, readable, ok, step, **kw):
        r.append(({'tok': tok, 'via': via, 'kind': kind, 'readable': readable, 'ok': ok}, step))
    a = NOTE.format('C', 4); b = NOTE.format('D', 4) * 2; e = NOTE.format('E', 2)
    for via, f in (('stream', 'createStream'), ('file', 'createFile')):
        def x(tok, kind, readable, ok, xml):
            add(tok, via, kind, readable, ok, {'f': f, 'xml': xml})
        x('alpha', 'partwise', True, True, partwise('alpha', [[ATT + a, b], [ATT + e, a]]))
        x('beta', 'timewise', True, True, timewise('beta', 2, [{1: ATT + a, 2: ATT + b}, {1: e, 2: a}]))
        x('gamma', 'partwise', True, True, partwise('gamma', [[ATT + a, b, e], [ATT + e]]))                 # parts of unequal length
        x('delta', 'timewise', True, True, timewise('delta', 2, [{1: ATT + a, 2: ATT + b}, {2: a}, {1: e}]))  # a part missing here and there
        x('eps', 'timewise', False, True, timewise('eps', 2, [{1: ATT + a, 2: ATT + BEYOND + b}, {1: e}]))  # cannot be read as a score
        x('zeta', 'partwise', False, True, partwise('zeta', [[ATT + BEYOND + a]]))
        x('', 'partwise', True, False, '<score-partwise version="3.0"><part-list>')                            # malformed
        x('', 'partwise', True, False, '')
        x('', 'partwise', True, False, '<html><body/></html>')
        x('', 'partwise', True, False, 'not xml at all')
        x('', 'partwise', True, False, partwise('omega', [[ATT + a]]).replace('</measure></part>', '</part>'))
        x('', 'partwise', True, False, partwise('omega', [[ATT + a]]).replace('</score-partwise>', ''))
    add('', 'file', 'partwise', True, False, {'f': 'createFile', 'path': 'no/such/file.xml'})
    add('sigma', 'score', 'partwise', True, True, {'f': 'createScore', 'score': score('sigma', 'partwise')})
    add('tau', 'score', 'timewise', True, True, {'f': 'createScore', 'score': score('tau', 'timewise', 3)})
    bad = score('omega', 'partwise'); bad['parts'][1]['measures'][1]['staves'][0]['directions'] = [{'tempos': [{'tempoType': 'metricModulation'}]}]
    add('', 'score', 'partwise', True, False, {'f': 'createScore', 'score': bad})
    bad2 = dict(bad, musicXmlType='timewise')
    add('', 'score', 'timewise', True, False, {'f': 'createScore', 'score': bad2})
    return r


def to_script(hist, inp, item):
    """history of the specification -> driver script. Ids are named by the step that created them."""
    script, made = [], []     # made[k] = step index of the creation of model id k+1
    def ident(i):
        if i <= 0 or not made: return {'id': -7 if i <= 0 else 999999000 + i}
        if i <= len(made): return {'ref': made[i - 1]}
        return {'ref': made[-1], 'plus': i - len(made)}
    live_readable = {}        # model id -> readable
    live = set()
    for q, h in enumerate(hist):
        f = h['f']
        if f == 'create':
            rec, st = inp[h['input'] - 1]
            st = dict(st)
            if st['f'] == 'createFile' and 'xml' in st:
                st['write'] = True
            script.append(st)
            if rec['ok']: made.append(q); live_readable[len(made)] = rec['readable']; live.add(len(made))
        elif f in ('createFromGet', 'reparse'):
            script.append({'f': f, **ident(h['id'])})
            rd = live_readable[h['id']] if h['id'] in live else True
            if f == 'reparse' or rd: made.append(q); live_readable[len(made)] = rd; live.add(len(made))
        else:
            if f == 'destroy': live.discard(h['id'])
            script.append({'f': f, **({k: v for k, v in h.items() if k == 'h'}), **(ident(h['id']) if 'id' in h else {})})
    return script


TITLE = re.compile(r'<work-title>([^<]*)</work-title>')


def text_view(t):
    if not t: return {'tok': '', 'kind': 'none', 'dig': ''}
    m = TITLE.search(t)
    kind = 'partwise' if '<score-partwise' in t else 'timewise' if '<score-timewise' in t else 'other'
    try: ET.fromstring(t.encode())
    except ET.ParseError as e: kind = 'malformed'
    return {'tok': m.group(1) if m else '', 'kind': kind, 'dig': sha(t)}


def to_case(hist, inp, result, markers=True):
    """history + what the real calls returned -> a case of TRegistry"""
    if 'r' not in result: return {'base': 1, 'uid0': 0, 'trace': [{'f': 'crash', 'what': json.dumps(result)[:300]}]}
    rs = result['r']
    ids = [r['id'] for r in rs if 'id' in r]
    base = ids[0] if ids else 1
    trace, made = [], []
    def ident(i):
        if i <= 0 or not made: return -7 if i <= 0 else 999999000 + i
        if i <= len(made): return made[i - 1]
        return made[-1] + i - len(made)
    for h, r in zip(hist, rs):
        f = h['f']
        e = {'f': f}
        if 'id' in h: e['id'] = ident(h['id'])
        if 'h' in h: e['h'] = h['h']
        o = {'err': 'err' in r, 'tok': '', 'kind': 'none', 'dig': ''}
        if 'id' in r: o['id'] = r['id']; made.append(r['id'])
        else: o['id'] = -1
        if f == 'create':
            rec = inp[h['input'] - 1][0]
            e.update(tok=rec['tok'] if markers else '', via=f"{rec['via']}{h['input']}", kind=rec['kind'], readable=rec['readable'], ok=rec['ok'], argSame=r.get('argSame', True))
        elif f in ('get', 'getKeep', 'kept') and 'score' in r:
            s = r['score']
            o.update(tok=s.get('workTitle', ''), kind=s.get('musicXmlType') or 'partwise', dig=sha(s))
        elif f in ('write', 'writeFile') and 'xml' in r: o.update(text_view(r['xml']))
        elif f == 'handleWrite' and 'core' in r: o.update(text_view(r['core']))
        elif f == 'kind': o['kind'] = r.get('kind')
        elif f == 'hold': o['none'] = r.get('null')
        elif f == 'handleSame': o['same'] = r.get('same')
        elif f == 'uid': o['uid'] = r.get('uid')
        if not markers: o['tok'] = ''
        e['out'] = o
        trace.append(e)
    return {'base': base, 'uid0': 0, 'trace': trace}
