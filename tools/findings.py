"""Development tool: writes KNOWN_FINDINGS.json from the entries here, the keys of data/findings_c18.json and the fix: commits of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = []
keys = json.load(open(V + '/tools/data/findings_c18.json'))
left = set(keys)
def take(pid, fid, what, test):
    ks = sorted(k for k in left if test(k))
    left.difference_update(ks)
    assert ks, fid
    OPEN.append({'id': fid, 'property': pid, 'status': 'open', 'what': what, 'keys': ks})
take('C18', 'attributes-not-held', 'the attributes color, valign and dir of some elements are not held by the typed tree and are lost', lambda k: k.split(' | ')[0].split('@')[-1] in ('color', 'valign', 'dir'))
take('C18', 'one-of-several', 'dynamics, play, interchangeable and sound hold one child of each kind and lose or regroup the others, a sound loses its offset, a metronome holds one note after its relation', lambda k: k.split('/')[0] in ('dynamics', 'play', 'interchangeable', 'sound', 'metronome') and '/ |' not in k)
take('C18', 'empty-content', 'an empty dynamics, play, key, slash or beat-repeat, and a key of key-octaves alone, gains a child', lambda k: '/ |' in k or k.startswith('key/'))
take('C18', 'ornament-accidental-order', 'accidental marks between ornaments are printed behind all of them', lambda k: k.startswith('ornaments/'))
take('C18', 'unknown-instrument-sound', 'a document with an instrument sound outside the standard list is refused', lambda k: k.startswith('instrument-sound'))
assert not left, left
OPEN += json.load(open(V + '/tools/data/findings_more.json')) if os.path.exists(V + '/tools/data/findings_more.json') else []
WORDS = [('C17', ['left without its content', 'past its last one', 'parts of a timewise measure', 'texts of a notehead could not be']), ('C21', ['a tuplet without dots', 'multiple measure rest', "clef's place", 'continued wedge', 'metronome other than', 'articulations, ornaments and technical', 'metronome that relates', 'midi instrument did not point', 'not in the order of their times']),
         ('C04', ['partwise to timewise', 'timewise document']), ('C06', ['note type derived', 'offsets of directions']), ('C08', ['non-traditional keys']), ('C09', ['damp-all']),
         ('C10', ['lost their order when', 'grace notes and chord notes', 'chord of notes of unequal', 'keys lost their staff', 'between the notes of a chord']), ('C11', ['chord symbol of a lower staff']),
         ('C12', ['display position of a rest', 'parenthetical', 'font, color and visibility', 'without a note type', 'a dot lengthened', 'type of a time mod', 'normal type equal', 'sharp-sharp', 'position and font of a fermata'] ),
         ('C13', ['fingernails', 'a note that is tied', 'arpeggio', 'tuplet without numbers', 'placement of a tuplet', 'second bezier', 'fonts and colors of dynamics']),
         ('C14', ['wedges', 'hook and the end', 'bracket stops', 'color of words', 'have a color', 'rehearsal marks, segnos', 'chord symbol is placed', 'metronome mark', 'pedal marks', 'times of tempos', 'processing instructions of a harmony']),
         ('C15', ['arranger', 'top system distance', 'other appearances', 'staff distance of a measure', 'page layout without']),
         ('C16', ['display abbreviation of a part', 'sound of an instrument', 'of a part group', 'bracket type of a new', 'display name of a part', 'transposition without', 'part group that stops']),
         ('C19', ['text element type', 'parent of the root', 'beside the root', 'to an element which has text', 'value of a processing', 'an empty text hid', 'removing a child element', 'a document type after']),
         ('C20', ['not escaped', 'carriage return', 'CDATA']), ('C22', ['2^64 or more', 'tiny value was rounded', 'spaced at random', 'other as a custom type']), ('C23', ['compare '])]
FIXED = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep', '^fix']).decode().splitlines():
    h, _, s = l.partition(' ')
    # the later entries of a commit that several properties would show go to the one that found it
    if s.startswith('fix: compare'): WORDS_ = [('C23', ['compare'])]
    else: WORDS_ = WORDS
    p = next((p for p, ws in sorted(WORDS_, key=lambda x: x[0] == 'C13') if any(w in s for w in ws)), 'C18')
    FIXED.append({'id': h, 'property': p, 'status': 'fixed', 'what': f'fixed: property={p} {h} {s[5:]}'})
json.dump(OPEN + FIXED, open(V + '/KNOWN_FINDINGS.json', 'w'), indent=1)
print(len(OPEN), 'open', len(FIXED), 'fixed')
for f in FIXED: print(f['what'])
