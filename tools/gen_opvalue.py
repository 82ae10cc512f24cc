"""Development tool: writes harness/op_value_list.h, the value types that op_value.cpp drives."""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = '/repo/Sourcecode/private/mx/core/'
ints = re.findall(r'class (\w+) : public IntRange', open(H + 'Integers.h').read())
decs = re.findall(r'class (\w+) : public DecimalRange', open(H + 'Decimals.h').read())
enums = re.findall(r'std::optional<(\w+)> tryParse', open(H + 'Enums.h').read())
others = re.findall(r'explicit (\w+)\( const std::string& value \);', open(H + 'Enums.h').read())
out = '// written by tools/gen_opvalue.py\n'
for name, l in (('INTS', ints), ('DECIMALS', decs), ('ENUMS', enums), ('OTHERS', others)):
    out += f'#define MX_VALUE_{name}( X ) ' + ' '.join(f'X( {x} )' for x in l) + '\n'
open(V + '/harness/op_value_list.h', 'w').write(out)
sounds = re.findall(r'MX_ENUM_VALUE\( \w+, "([^"]+)" \)', open(H + 'PlaybackSound.h').read())
import json
json.dump({'sounds': sounds}, open(V + '/tools/data/sounds.json', 'w'), indent=0)
print(len(ints), len(decs), len(enums), others, len(sounds))
