"""Development tool: writes MANIFEST.json. A property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'C01': ('TLA+ registry specification checked with TLC; TLC-generated call histories replayed on DocumentManager and validated against it',
         'The specification is exhaustive for 2-3 documents; the code is bound to it on the replayed histories. Contents are compared by digest and marker, not understood.'),
 'C02': ('TLA+ linearizability specification of the registry (and a refinement model of the lock) checked with TLC; programs of two to four threads run in the real code under a scheduler that decides every change of thread, recorded histories validated by TLC',
         'One change of thread at every place where threads meet (sampled when there are many) and random schedules with several; sequentially consistent memory. Each recorded history is decided exactly.'),
 'C03': ('TLA+ registry specification: histories of reads over awkward, random and repository documents validated by TLC',
         'Every read of the replayed histories is compared with the first one of the same content.'),
 'C04': ('TLA+ specification of both arrangements; every small shape enumerated by TLC and converted by the real code, prints validated by TLC',
         'Exhaustive for 3 parts and 3 measures including ragged shapes and permutations; larger shapes are sampled.'),
 'C05': ('TLA+ specification of the reading cursor, compared with the MusicXML timing rule by TLC; every small measure and random ones read by the real reader and validated by TLC',
         'Exhaustive for measures of up to 3 events over 12 kinds (4 in the model, thorough); larger measures are sampled.'),
 'C06': ('TLA+ specification of rescaling; documents with redefined divisions read by the real reader and validated by TLC for the resolution it chose',
         'All pairs of divisions up to 12, random combinations beyond. Decimal fractions that fall exactly between two ticks are left out.'),
 'C07': ('TLA+ specification of runs, staves and voice numbering; every small measure and random ones read by the real reader and validated by TLC',
         'Exhaustive in the model for measures of up to 4 events over 9 kinds; larger measures are sampled.'),
 'C08': ('TLA+ specification of attributes along a part; every small measure and random documents read by the real reader and validated by TLC',
         'One time signature of whole beats per measure; clefs name existing staves.'),
 'C10': ('TLA+ specification of stating a measure in MusicXML, checked for reachability by TLC; every small score and random ones written by the real writer and the text validated by TLC as a way of stating them',
         'Exhaustive for measures of up to 3 notes over 2 staves and 2 voices; larger scores are sampled.'),
 'C11': ('TLA+ specification of stating a measure in MusicXML; every small combination of notes and events and random scores written by the real writer and the text validated by TLC',
         'Exhaustive for two notes and one event; larger scores are sampled. Events of one kind and staff are listed in time order.'),
 'C12': ('TLA+ specification of what a note keeps; every small voice enumerated by TLC, every value of every property and random voices written and read by the real code and validated by TLC',
         'Exhaustive over small property domains and pairs of notes (triples thorough); combinations beyond are sampled.'),
 'C13': ('TLA+ specification of what attachments keep; combinations enumerated by TLC, every kind of mark and random voices written and read by the real code and validated by TLC',
         'Exhaustive over small attachment domains; combinations beyond are sampled. Fonts and colors of marks are not promised.'),
 'C14': ('TLA+ specification of what directions keep; small directions enumerated by TLC, every kind in all detail and random staves written and read by the real code and validated by TLC',
         'Exhaustive over small direction domains and pairs of kinds; combinations beyond are sampled. Only dynamics and pedal marks, and tempos in beats per minute.'),
 'C15': ('TLA+ specification of the fields of a score and what a document states of them; small headers enumerated by TLC, random ones written and read by the real code and validated by TLC field by field',
         'Exhaustive over small groups of fields, sampled in combination.'),
 'C16': ('TLA+ specification of walking a part list; every short list enumerated by TLC, written lists and lists that are read validated by TLC against the groups and parts of the score',
         'Exhaustive for lists of 3 parts and 2 groups (4 and 3 thorough); larger ones are sampled.'),
 'C17': ('TLA+ specification of an element that holds others (slots with bounds, flags and choices), checked with TLC; every short history of edits of every slot and random ones made on the real elements, what each shows and prints after every step validated by TLC',
         'All 136 containers of the table, every slot; all histories of three edits of a slot (sampled in the quick check) and random ones. Children are marks that print themselves; what is inside them is under C18.'),
 'C18': ('TLA+ specification of the MusicXML schema as automata checked with TLC; every attribute, pair of children, short word of children and value, and random trees read and printed by the real code, and the events of what was given and printed validated against it by TLC',
         'Exhaustive for one attribute, one pair of neighbours and words of 2 children (3 thorough) at a time; combinations are sampled. Known findings stand aside of the random trees.'),
 'C19': ('TLA+ specification of an XML tree and its edits checked with TLC; every history of two edits and random ones made on a real document, what every iteration shows validated by TLC after each step; loads compared with an independent parser',
         'Exhaustive for two edits of two small trees (three in the model, thorough); longer histories are sampled. Text and elements are not mixed.'),
 'C20': ('TLA+ specification of writing and reading text in XML, checked with TLC for every short text; texts in every place of scores, element trees and documents written and read by the real code, and the written text lexed character by character by TLC',
         'Every character class alone, every pair and triple of markup characters, and random texts in each place. One finding stands aside: text of white space alone.'),
 'C21': ('TLA+ specification of when two scores and two texts say the same; documents read, written, read and written again by the real code, and both scores and both texts walked and validated by TLC',
         'Every attribute, child and value of the schema one at a time, random trees, generated scores and the documents of the repository (up to 30 kB in the quick check). Spellings of one meaning are named in the specification.'),
 'C22': ('TLA+ specification of every value type (its range, text form and operations) and of the calendar, checked with TLC; every enumeration name, boundaries and random histories of sets, parses and copies run on the real types and validated by TLC',
         'Every type of MusicXML values; every enumeration literal against the schema; numbers at boundaries and sampled within. Decimals whose rounding side is unclear to a double are left out.'),
 'C23': ('TLA+ specification of equality as comparison of all fields, checked with TLC; pairs of score values that differ in one place, anywhere in the model, compared by the real operators and validated by TLC',
         'Every field of every record of the score model reached from a score; random bigger values; copies and assignments. Differences of numbers below 1e-6 are not generated.'),
 'C09': ('TLA+ specification of placed events; every small measure and random documents read by the real reader and validated by TLC',
         'Placement only: content kinds are decided under C14.'),
}
CHECKS = sorted(f[:-3].upper() for f in os.listdir(V + '/checks') if f.startswith('c') and f[1:3].isdigit())
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/na.json')) if os.path.exists(V + '/tools/na.json') else {}
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS and p not in NA:
        t, n = NOTES[p]
        m['checks'].append({'property': p, 'quick_cmd': f'python3 tools/check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tools/check.py {p}',
                            'evidence_file': f'evidence/{p}.json', 'technique': t, 'level': 'model_checking', 'level_note': n})
    else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
