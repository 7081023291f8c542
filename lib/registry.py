"""What decides each property: contract units, companion search, assumptions."""

COMMON_ASSUMPTIONS = [
    'Verus, Z3 and rustc are correct; macro expansion by the nightly compiler yields the code that runs',
    'vx performs only the rewrites listed at the top of vx/src/main.rs (renaming to shims of the same meaning, for-loop expansion, closure inlining, formatting macros)',
    'shims in contracts/common.rs (external_body, ax_*) state what std does: iterators, collections, UTF-8, Duration, SystemTime',
    'slices and buffers are at most isize::MAX bytes long; memory exhaustion is not modelled',
    'Eq, Ord and Hash of map keys and set elements agree with the mathematical value (model) of the key',
    'impls outside the crate (user types) satisfy the same trait contracts',
]

BIN_ASM = ['floats are treated as their bit patterns (to_le_bytes / from_le_bytes are inverse on bits)']

TXT_ASM = ['characters are read through a ghost sequence standing for the &mut Chars argument (VChars)', 'parsing of decimal text is exact (u64, i64) or an uninterpreted function (floats); axioms ax_fmt32/ax_fmt64: a finite float prints as decimal text that parses back to the same bits; ax_pf: digits with optional sign, fraction, exponent parse as a float',
           'derived PartialEq and Clone of the token types are structural; Default of the reader state is the declared one', 'the nesting-depth argument d of the writers does not overflow (d + 1 is taken as a function v_deeper)']
JSON = dict(units=['cjson'], level='proof', assumptions=TXT_ASM, bounded=['derived code: bounded search over the catalogue of shapes'])

RON = dict(units=['cron'], level='proof', assumptions=TXT_ASM, bounded=['derived code: bounded search over the catalogue of shapes'])

TOML = dict(units=['ctoml'], level='proof', assumptions=['characters are read through a ghost sequence standing for the &mut Chars argument (VChars)', 'parsing of decimal text is exact (i64) or an uninterpreted function (f64); casts of integers to floats are the uninterpreted function f_int', 'axiom ax_tv: the value of a Toml is that of its parts (finite trees)', 'shims for BTreeMap::get_mut/contains_key, str::strip_prefix/starts_with, String slicing of ASCII text', 'derived PartialEq of TomlTok is structural; Default of TomlParser is the declared one'], bounded=[])

DER_ASM = ['the derive macro treats every input of a shape like the catalogue member of that shape (the catalogue enumerates the shapes and attributes the generator distinguishes)', 'Default, From and Into of the types used are as std and the catalogue define them (shims)']
DER_BND = ['recursive types (Tree, Rec), a 13-field struct (Many) and a 301-variant enum (Big): bounded search']

PROPS = {
    'C01': dict(units=['bin'], level='proof', assumptions=BIN_ASM, bounded=[]),
    'C02': dict(units=['bin'], level='proof', assumptions=BIN_ASM + ['a call to a with_capacity/reserve is charged by element count'], bounded=[]),
    'C03': dict(units=['bin'], level='proof', assumptions=BIN_ASM, bounded=[]),
    'C04': dict(units=['bin'], level='proof', assumptions=BIN_ASM, bounded=[]),
    'C05': JSON, 'C06': JSON, 'C07': JSON, 'C08': JSON, 'C09': JSON, 'C10': JSON,
    'C11': RON, 'C12': RON, 'C13': RON, 'C14': RON,
    'C15': TOML, 'C16': TOML,
    'C17': dict(units=['derbin'], level='proof', assumptions=BIN_ASM + ['contracts of the SerBin/DeBin impls of the field types: discharged by the unit bin (checks C01 to C04)', 'Default, From and Into of the types used are as std and the catalogue define them', 'the derive macro treats every input of a shape like the catalogue member of that shape (the catalogue enumerates the shapes the generator distinguishes)'], bounded=['recursive types (Tree, Rec) and a 301-variant enum: bounded search']),
    'C18': dict(units=['derjson'], level='proof', assumptions=TXT_ASM + DER_ASM + ['contracts of the runtime (lexer, field readers and writers, impls of the field types) and the lemmas on written text: discharged by the unit cjson (checks C05 to C10)'], bounded=DER_BND),
    'C19': dict(units=['derron'], level='proof', assumptions=TXT_ASM + DER_ASM + ['contracts of the runtime (lexer, field readers and writers, impls of the field types) and the lemmas on written text: discharged by the unit cron (checks C11 to C14)'], bounded=DER_BND),
    'C20': dict(units=['bin', 'cjson', 'cron'], level='proof', assumptions=BIN_ASM + TXT_ASM[:1] + ['MaybeUninit is modelled by shims (VMu, VMuArr) with a ledger of initialised raw slots: a value in a raw slot is never dropped by itself, assume_init takes it out, writing a slot forgets what was there, a bitwise read moves all values out', 'Rust drops every value it owns exactly once (safe code; mem::forget, ManuallyDrop and the like are not accepted by the extraction)', 'the element decoder does not panic'], bounded=[]),
    'C22': dict(units=['cjson', 'cron', 'ctoml'], level='proof', assumptions=TXT_ASM + TOML['assumptions'], bounded=[]),
    'C21': dict(units=['bin', 'cjson', 'cron'], level='proof', assumptions=BIN_ASM + TXT_ASM, bounded=[]),
}

GROUPS = [['C01', 'C02', 'C03', 'C04', 'C21', 'C20'], ['C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C21', 'C22', 'C20'], ['C11', 'C12', 'C13', 'C14', 'C21', 'C22', 'C20'], ['C15', 'C16', 'C22']]

SAFETY = ('possible arithmetic', 'precondition not satisfied', 'decreases not satisfied', 'could not show termination', 'possible division', 'possible bit shift', 'value may be out of range')
TOTAL = {'bin': 'C02', 'cjson': 'C08', 'cron': 'C13', 'ctoml': 'C15', 'derbin': 'C17', 'derjson': 'C18', 'derron': 'C19'}


def siblings(prop):
    out = []
    for g in GROUPS:
        if prop in g:
            out += [q for q in g if q != prop and q in PROPS and q not in out]
    return out


def concerns(prop, unit, f):
    """does the failed obligation f (of unit) bear on prop?"""
    tags = [t for t in f['tags'] if t.startswith('C') and t[1:].isdigit()]
    if prop == 'C20':
        return 'C20' in tags or '[T;N]' in f['function']
    if tags == ['C20']:
        return False
    if f['message'].startswith(SAFETY) or 'CAP' in f['tags']:
        if not tags:
            # only the totality property
            return prop == TOTAL.get(unit.split('_')[0], prop)
    if tags:
        return prop in tags
    return True


def trusted(vres, R):
    t = ['Verus 0.2026.09.13', 'Z3', 'rustc nightly (macro expansion)', 'vx (extraction)', 'contracts/common.rs shims and axioms']
    for r, a in vres:
        by = {}
        for k, i in a.fn_info.items():
            if i['trusted']:
                by.setdefault(i['trusted'], []).append(k)
        for why, ks in by.items():
            if len(ks) > 12:
                t.append('contracts of %d functions assumed here: %s' % (len(ks), why))
            else:
                t += ['contract of %s assumed: %s' % (k, why) for k in ks]
    return t
NA = {}
