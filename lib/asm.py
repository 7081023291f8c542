"""Assembler: puts contracts on the functions that vx extracted from /repo's expanded source.

The executable text comes from vx (mechanical, from the current tree); everything here only adds
specification text (requires/ensures, loop invariants, ghost code, lemmas) at slot markers.
"""
import json, re, os, subprocess, hashlib, time, sys

MARK = re.compile(r'/\*@(.*?)@\*/', re.S)


class FnC:
    """contract of one function"""
    def __init__(self, spec='', slots=None, trusted=None, props=None, attrs='', bounded=None):
        self.spec = spec            # requires/ensures/decreases text
        self.slots = slots or {}    # slot -> text
        self.trusted = trusted      # reason: body not verified (external_body)
        self.props = props          # property ids this function serves
        self.attrs = attrs


class Unit:
    """one Verus file: an ordered collection of contracts"""
    def __init__(self, name, modules):
        self.name = name
        self.modules = modules
        self.prelude = []           # text
        self.epilogue = []          # text (lemmas)
        self.traits = {}            # name -> dict(bounds, members, methods{name: FnC})
        self.impls = {}             # (trait, self_ty) -> dict(members, where, fns{name: FnC}, skip)
        self.fns = {}               # free fn name -> FnC
        self.skip = set()           # (trait, self_ty) or names not emitted at all
        self.derived_ok = {'Clone', 'Copy', 'PartialEq', 'Default', 'Debug'}
        self.struct_attrs = {}
        self.crate_dir = None
        self.crates = None          # several crates: list of dict(dir, modules, pre)
        self.trust_modules = {}     # module -> where its contracts are discharged
        self.only_traits = None     # impls of other crates that are looked at
        self.only_types = None
        self.only_fns = set()
        self.derived = None         # items of the crates after the first go into a module of their own: dict(module, prelude, epilogue)
        self.verus_args = ()
        self.min_verified = 1
        self.broadcast = ''         # ghost text at the start of every verified function
        self.loop_broadcast = ''
        # the kinds of the loops the contracts were written for (lib/mkloops.py)
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'loops.json')
        self.loop_kinds = json.load(open(p)).get(name) if os.path.exists(p) else None
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'signatures.json')
        self.signatures = json.load(open(p)).get(name) if os.path.exists(p) else None
        self.text_subs = []         # (regex, repl) mechanical rewrites of bodies, documented

    def impl(self, trait, ty, members='', where='', fns=None, before='', after='', inherent=False):
        # inherent: the method of an operator trait of std, with its own contract, as a method of the type (associated types written out)
        self.impls[(trait, ty)] = dict(members=members, where=where, fns=fns or {}, before=before, after=after, inherent=inherent)


def subst(text, f):
    ps = f['params']
    lets = f.get('lets') or []
    def r(m):
        k = m.group(1); n = int(m.group(2))
        if k == 'l':
            return lets[n] if n < len(lets) else '__missing_local_%d' % n
        return ps[n] if n < len(ps) else '__missing_param_%d' % n
    def key(m):  # $kN:key; the local that the arm for "key" in loop N fills (a hint for ghost code)
        b = f['body'] or ''
        i = b.find('/*@L%s.start@*/' % m.group(1))
        x = re.compile(r'v_seq\(__s, "%s"\) => (?:\{|(?=\w)).*?(\w+) = Some\(' % re.escape(m.group(2)), re.S).search(b, i) if i >= 0 else None
        return x.group(1) if x else '__missing_local'
    text = re.sub(r'\$k(\d+):([^;]*);', key, text)
    return re.sub(r'\$(l?)(\d+)', r, text)


def shape(f):
    """structure of a function that contracts rely on"""
    return dict(loops=[l['kind'] for l in (f.get('loops') or [])], params=len(f['params']))


def signature(f):
    """the head of a function without its name, as one string"""
    h = re.sub(r'^(.*?\bfn\s+)\w+', r'\1_', f['head'], flags=re.S)
    return re.sub(r'\s+', ' ', '%s -> %s %s' % (h, f['ret'], f['where']))


class Assembled:
    def __init__(self):
        self.lines = []
        self.regions = []    # (first, last, fn id)
        self.structural = [] # reasons why contracts do not fit
        self.fns = {}        # id -> extracted function
        self.fn_info = {}    # id -> dict(trusted=..., props=...)

    def add(self, text):
        self.lines.extend(text.split('\n'))


def emit_fn(a, u, f, c, fid, vis='pub ', in_trait_impl=False, forced=None, baseline=None):
    """emit one function with contract c"""
    head = f['head']
    name = f['name']
    a.fns[fid] = f
    spec = subst(c.spec, f) if c else ''
    ret = ''
    if f['ret']:
        ret = ' -> (__r: %s)' % f['ret']
    wh = ''
    if f['where']:
        wh = ' ' + f['where'].rstrip().rstrip(',')
    if not forced and not (c.trusted if c else None) and any('closure' in x for x in f.get('unsup') or []):
        forced = 'closure without contract'
        a.structural.append('%s: %s' % (fid, forced))
    trusted = (c.trusted if c else None) or (forced or None)
    attrs = (c.attrs if c else '')
    start = len(a.lines) + 1
    a.fn_info[fid] = dict(name=name, contract=bool(c), trusted=trusted, props=(c.props if c else None))
    if trusted:
        a.add('#[verifier::external_body]')
    if attrs:
        a.add(attrs)
    a.add('%s%s%s%s' % (vis, head, ret, wh))
    if spec.strip():
        a.add(spec)
    if trusted:
        a.add('{ unimplemented!() }')
    else:
        body = f['body']
        slots = dict((k, subst(v, f)) for k, v in (c.slots if c else {}).items())
        if u.broadcast:
            slots['start'] = u.broadcast + ' ' + slots.get('start', '')
            for l in f.get('loops') or []:
                k = 'L%d.start' % l['id']
                slots[k] = (u.loop_broadcast or u.broadcast) + ' ' + slots.get(k, '')
        # what is argued at the end of a function without result is argued at an early return as well
        if not f['ret'] and 'end' in slots:
            for k in range(f.get('nrets') or 0):
                slots.setdefault('ret%d.open' % k, '{ ' + slots['end'])
                slots.setdefault('ret%d.close' % k, '}')
        # invariants are about the loops the contract was written for
        for l, k in zip(f.get('loops') or [], (u.loop_kinds.get(fid) if u.loop_kinds else None) or []):
            if l['kind'] != k and 'L%d.spec' % l['id'] in slots:
                a.structural.append('%s: loop %d has become a %s (contract written for a %s)' % (fid, l['id'], l['kind'], k))
        used = set()
        def r(m):
            k = m.group(1)
            if k in slots:
                used.add(k)
                t = slots[k]
                if '\n' not in t:
                    return ' ' + t + ' '
                return '\n' + t + '\n'
            return ''
        # the last tail marker in the text is the function's own tail
        if 'tail' in slots:
            i = body.rfind('/*@tail@*/')
            if i >= 0:
                body = body[:i] + '/*@TAIL@*/' + body[i + 10:]
                slots['TAIL'] = slots.pop('tail')
            body = body.replace('/*@tail@*/', '')
        body = MARK.sub(r, body)
        missing = [k for k in slots if k not in used]
        if missing:
            a.structural.append('%s: no place for %s' % (fid, ', '.join(missing)))
        for rx, rp in u.text_subs:
            body = re.sub(rx, rp, body)
        # contracts speak about loops by number: loops without a spec slot are unannotated
        for l in f.get('loops') or []:
            if 'L%d.spec' % l['id'] not in slots:
                a.structural.append('%s: loop %d (%s) has no invariant' % (fid, l['id'], l['kind']))
        a.add(body)
    a.fn_info[fid]['loops'] = [l['kind'] for l in f.get('loops') or []]
    a.regions.append((start, len(a.lines), fid))


def hoist(u, it, f, c, fid):
    """a method that handles raw slots, as a free function with the same body, contract and a ledger that must balance"""
    ty = it['self_ty']
    self_ = lambda t: re.sub(r'\bSelf::', '<%s as %s>::' % (ty, it['trait']), t or '')
    all_ = lambda t: re.sub(r'\bSelf\b', ty, self_(t))
    m = re.match(r'impl\s*(<.*?>)\s*%s\b.*?\bfor\b(?:.*?)(?:\bwhere\b(.*))?$' % it['trait'], it['header'].strip(), re.S)
    head = re.sub(r'^fn\s+\w+\s*\((.*)\)$', lambda x: 'fn v_raw_%s%s(%s, __led: &mut VLed)' % (f['name'], m.group(1), x.group(1).rstrip().rstrip(',')), f['head'].strip(), flags=re.S)
    spec = u.traits[it['trait']]['methods'][f['name']].spec
    spec = all_(subst(spec, f)).rstrip().rstrip(',') + ', final(__led).n@ == old(__led).n@ /*#C20*/'
    h = dict(f, name='v_raw_' + f['name'], head=head, ret=all_(f['ret']), body=all_(f['body']), where=('where ' + m.group(2)) if m.group(2) else '')
    return h, FnC(spec, (c.slots if c else {})), fid


def assemble(u, items, forced=None):
    """forced: dict fid -> reason for functions to be trusted (not verifiable in the current text)"""
    forced = forced or {}
    a = Assembled()
    a.add('\n'.join(u.prelude))
    seen = set()
    inner = False
    for it in items:
        if it['path'] not in u.modules:
            continue
        k = it['kind']
        if u.derived and not inner and it.get('crate', 0) > 0:
            inner = True
            a.add('\n'.join(u.epilogue))
            a.add('pub mod %s { use super::*;' % u.derived['module'])
            a.add('\n'.join(u.derived['prelude']))
        if u.only_types is not None and it.get('crate', 0) > 0:
            nm = it['self_ty'].split('<')[0] if k == 'impl' else it.get('name')
            if k == 'fn' and nm in u.only_fns:
                pass
            elif nm not in u.only_types or k not in ('struct', 'enum', 'impl') or (k == 'impl' and it['trait'] not in u.only_traits):
                continue
        elsewhere = u.trust_modules.get(it['path'])
        if k in ('struct', 'enum'):
            if it['name'] in u.skip:
                continue
            seen.add(it['name'])
            a.add(u.struct_attrs.get(it['name'], ''))
            a.add(it['text'])
        elif k == 'const':
            if it['name'] in u.skip:
                continue
            seen.add(it['name'])
            a.add(it['text'])
        elif k == 'fn':
            if it['name'] in u.skip:
                continue
            fid = it['name']
            seen.add(fid)
            c = u.fns.get(it['name'])
            fz = forced.get(fid) or elsewhere
            if c is None:
                a.structural.append('%s: function without contract' % fid)
                fz = fz or 'no contract'
            emit_fn(a, u, it['fn'], c, fid, forced=fz)
        elif k == 'trait':
            if it['name'] in u.skip:
                continue
            tp = u.traits.get(it['name'])
            seen.add(it['name'])
            sup = it.get('supertraits') or ''
            b = tp.get('bounds', '') if tp else ''
            allb = ' + '.join(x for x in (sup, b) if x)
            a.add('pub trait %s%s%s {' % (it['name'], it.get('generics') or '', (': ' + allb) if allb else ''))
            if tp:
                a.add(tp.get('members', ''))
            for f in it['fns']:
                c = (tp or {}).get('methods', {}).get(f['name'])
                fid = '%s::%s' % (it['name'], f['name'])
                seen.add(fid)
                if f['has_body']:
                    fz = forced.get(fid) or elsewhere
                    if c is None:
                        a.structural.append('%s: function without contract' % fid)
                        fz = fz or 'no contract'
                    emit_fn(a, u, f, c, fid, vis='', forced=fz)
                else:
                    ret = ' -> (__r: %s)' % f['ret'] if f['ret'] else ''
                    st = len(a.lines) + 1
                    a.add(f['head'] + ret + ' ' + (f['where'] or ''))
                    a.add(subst(c.spec, f) if c else '')
                    a.add(';')
                    a.regions.append((st, len(a.lines), fid))
            a.add('}')
        elif k == 'impl':
            key = (it['trait'], it['self_ty'])
            if key in u.skip or (it['trait'] in ('Debug', 'Display', 'Error')) or (it['trait'] == 'StructuralPartialEq'):
                continue
            if 'automatically_derived' in (it.get('attrs') or []):
                dv = u.impls.get(key)
                if dv:
                    a.add(dv['before'])
                continue
            ip = u.impls.get(key)
            seen.add(key)
            if ip:
                a.add(ip['before'])
            hdr = it['header'].rstrip().rstrip(',')
            if ip and ip['where']:
                hdr += (', ' if ' where ' in hdr or '\nwhere' in hdr else ' where ') + ip['where']
            other, own = it.get('other', []), bool(it['trait'])
            if ip and ip.get('inherent'):
                hdr, own = 'impl ' + it['self_ty'], False
                assoc = [m for o in other for m in re.findall(r'type\s+(\w+)\s*=\s*(.*?);', o, re.S)]
                other = []

                def written(t):
                    for n, ty in assoc:
                        t = re.sub(r'\bSelf::%s\b' % n, ty, t) if t else t
                    return t
                it = dict(it, fns=[dict(f, head=written(f['head']), ret=written(f['ret']), body=written(f['body'])) for f in it['fns']])
            a.add(hdr + ' {')
            for o in other:
                a.add(o)
            if ip:
                a.add(ip['members'])
            hoisted = []
            for f in it['fns']:
                fid = '%s::%s' % ('%s for %s' % key if it['trait'] else it['self_ty'], f['name'])
                seen.add(fid)
                c = (ip or {}).get('fns', {}).get(f['name']) if ip else None
                if c is None and ip is None and it['trait'] is None:
                    c = u.impls.get((None, it['self_ty']), {}).get('fns', {}).get(f['name'])
                fz = forced.get(fid) or elsewhere
                if c is None:
                    a.structural.append('%s: function without contract' % fid)
                    fz = fz or 'no contract'
                if f.get('ledger') and it['trait'] and not fz and not (c and c.trusted):
                    hoisted.append(hoist(u, it, f, c, fid))
                    f = dict(f, body='{/*@start@*/ let mut __led = VLed::new(); v_raw_%s(%s, &mut __led) }' % (f['name'], ', '.join(f['params'])), loops=[])
                    c = FnC(c.spec if c else '')
                emit_fn(a, u, f, c, fid, vis='' if own else 'pub ', forced=fz)
            a.add('}')
            for (h, hc, fid) in hoisted:
                emit_fn(a, u, h, hc, fid)
            if ip:
                a.add(ip['after'])
        elif k == 'other':
            a.structural.append('item not extracted: %s' % it['text'][:60])
    # contracts whose function disappeared
    for (tr, ty), ip in u.impls.items():
        for n in ip['fns']:
            fid = '%s::%s' % ('%s for %s' % (tr, ty) if tr else ty, n)
            if fid not in seen:
                a.structural.append('%s: contract without function' % fid)
    for n in u.fns:
        if n not in seen:
            a.structural.append('%s: contract without function' % n)
    for t, tp in u.traits.items():
        for n in tp.get('methods', {}):
            if '%s::%s' % (t, n) not in seen:
                a.structural.append('%s::%s: contract without function' % (t, n))
    if inner:
        a.add('\n'.join(u.derived['epilogue']))
        a.add('}')
    else:
        a.add('\n'.join(u.epilogue))
    a.add('} // verus!\nfn main() {}')
    return a
