#!/usr/bin/env python3
"""writes catalogue/src/lib.rs and harness/src/cat.rs from spec.py"""
import os, sys, re
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from spec import TYPES, HAND, F, T, V, rlit, jlit

DER = dict(b='SerBin, DeBin', j='SerJson, DeJson', r='SerRon, DeRon')


def at(a, ind):
    return '%s#[nserde(%s)]\n' % (ind, a) if a else ''


def rty(ty, sub):
    for g, x in sub.items():
        ty = re.sub(r'\b%s\b' % g, x, ty)
    return ty


def lib():
    o = ['//! generated by catalogue/gen.py from spec.py', '#![allow(clippy::all)]', 'use nanoserde::*;', 'use std::collections::*;', HAND]
    for x in TYPES:
        g = '<%s>' % (x.decl or x.generics) if x.generics else ''
        o.append('#[derive(Clone, Debug, PartialEq, %s)]' % ', '.join(DER[f] for f in x.fmts))
        wh = ' ' + x.where if x.where else ''
        if x.doc:
            o.append(x.doc.rstrip())
        if x.attr:
            o.append('#[nserde(%s)]' % x.attr)
        if x.kind == 'named':
            o.append('pub struct %s%s%s {\n%s}' % (x.name, g, wh, ''.join('%s%s    pub %s: %s,\n' % ('    ' * bool(f.doc) + f.doc, at(f.attr, '    '), f.name, f.ty) for f in x.fields)))
        elif x.kind == 'tuple':
            o.append('pub struct %s%s(%s)%s;' % (x.name, g, ', '.join(('#[nserde(%s)] ' % f.attr if f.attr else '') + 'pub ' + f.ty for f in x.fields), wh))
        elif x.kind == 'unit':
            o.append('pub struct %s;' % x.name)
        else:
            vs = ''
            for v in x.variants:
                vs += at(v.attr, '    ')
                if v.kind == 'unit':
                    vs += '    %s%s,\n' % (v.name, ' = %d' % v.disc if v.disc is not None else '')
                elif v.kind == 'tuple':
                    vs += '    %s(%s),\n' % (v.name, ', '.join(f.ty for f in v.fields))
                else:
                    vs += '    %s {\n%s    },\n' % (v.name, ''.join('%s        %s: %s,\n' % (at(f.attr, '        '), f.name, f.ty) for f in v.fields))
            o.append('pub enum %s%s%s {\n%s}' % (x.name, g, wh, vs))
    return '\n'.join(o) + '\n'


def insts(x):
    """(type text, substitution)"""
    if not x.generics:
        return [(x.name, {})]
    gs = [g.strip() for g in x.generics.split(',')]
    return [('%s<%s>' % (x.name, i), dict(zip(gs, [p.strip() for p in i.split(',')]))) for i in x.insts]


def binders(fs, tup):
    return ['f%s' % f.name if tup else f.name for f in fs]


def pat(ctor, fs, kind, names):
    if kind == 'unit':
        return ctor
    if kind == 'tuple':
        return '%s(%s)' % (ctor, ', '.join(names))
    return '%s { %s }' % (ctor, ', '.join('%s: %s' % (f.name, n) for f, n in zip(fs, names)))


def ctors(x):
    if x.kind == 'enum':
        return [('%s::%s' % (x.name, v.name), v.kind, v.fields, v) for v in x.variants]
    return [(x.name, x.kind, x.fields, None)]


def jname(s):
    return '"%s"' % s


def isf(f, sub):
    """is-check of one field value: expression over &field named n"""
    return ''


def cat():
    o = ['//! generated by catalogue/gen.py: generators and oracles for the catalogue types', '#![allow(unused_variables, unused_mut, non_snake_case, clippy::all)]',
         'use crate::bin::Wire;', 'use crate::derived::*;', 'use crate::gen::*;', 'use crate::textfmt::JVal;', 'use crate::{chk, Ctx, Res, Sub};',
         'use catalogue::*;', 'use nanoserde::*;', 'use serde_json::Value;', 'use std::collections::*;', '''
impl Gen for Inner { fn gen(r: &mut Rng, s: usize) -> Self { Inner { hi: u8::gen(r, s), lo: u8::gen(r, s) } } }
impl Same for Inner { fn same(&self, o: &Self) -> bool { self == o } }
impl Wire for Px { fn wire(&self, o: &mut Vec<u8>) { self.v.wire(o) } }
impl JVal for Px { fn is(&self, v: &Value) -> bool { v.as_object().is_some_and(|a| a.len() == 1 && a.get("v").is_some_and(|x| self.v.is(x))) } }
impl Wire for PxC { fn wire(&self, o: &mut Vec<u8>) { self.n.wire(o) } }
impl JVal for PxC { fn is(&self, v: &Value) -> bool { v.as_object().is_some_and(|a| a.len() == 1 && a.get("n").is_some_and(|x| self.n.is(x))) } }
''']
    tabs = dict(b=[], j=[], r=[])
    for x in TYPES:
        g = '<%s>' % ', '.join(x.generics.split(', ')) if x.generics else ''
        gs = [q.strip() for q in x.generics.split(',')] if x.generics else []
        def hd(tr):
            return 'impl%s %s for %s%s' % ('<%s>' % ', '.join('%s: %s + Clone + PartialEq + Send' % (q, tr) for q in gs) if gs else '', tr, x.name, g)
        cs = ctors(x)
        # Gen
        arms = []
        for (c, k, fs, v) in cs:
            vals = []
            for f in fs:
                if f.skip:
                    vals.append(f.dflt)
                elif f.opt and (f.dflt or 'None') != 'None':
                    vals.append('Some(Gen::gen(r, s))')  # None would be read as the default
                else:
                    vals.append('Gen::gen(r, s / 2)' if 'Tree' in f.ty or 'Rec' in f.ty else 'Gen::gen(r, s)')
            arms.append(pat(c, fs, k, vals))
        if x.name == 'Big':
            body = 'let k = if r.b() { 250 + r.n(51) } else { r.n(301) }; '
        elif x.name == 'Rec':
            body = 'let k = if s == 0 { 0 } else { r.n(3) }; '
        else:
            body = 'let k = r.n(%d); ' % len(arms)
        body += 'match k { %s _ => %s }' % (' '.join('%d => %s,' % (i, a) for i, a in enumerate(arms[:-1])), arms[-1])
        o.append('%s { fn gen(r: &mut Rng, s: usize) -> Self { %s } }' % (hd('Gen'), body))
        # Same
        arms = []
        for (c, k, fs, v) in cs:
            n1 = ['a%d' % i for i in range(len(fs))]
            n2 = ['b%d' % i for i in range(len(fs))]
            arms.append('(%s, %s) => %s,' % (pat(c, fs, k, n1), pat(c, fs, k, n2), ' && '.join('%s.same(%s)' % p for p in zip(n1, n2)) or 'true'))
        if len(cs) > 1:
            arms.append('_ => false,')
        o.append('%s { fn same(&self, o: &Self) -> bool { match (self, o) { %s } } }' % (hd('Same'), ' '.join(arms)))
        # Wire
        if 'b' in x.fmts:
            arms = []
            for i, (c, k, fs, v) in enumerate(cs):
                n = ['a%d' % j for j in range(len(fs))]
                st = '%du16.wire(o); ' % i if x.kind == 'enum' else ''
                for f, m in zip(fs, n):
                    if f.skip:
                        continue
                    st += ('%s::from(%s).wire(o); ' % (f.proxy, m)) if f.proxy else '%s.wire(o); ' % m
                if x.name == 'ProxyC':
                    st = 'PxC::from(self).wire(o);'
                arms.append('%s => { %s }' % (pat(c, fs, k, n), st))
            o.append('%s { fn wire(&self, o: &mut Vec<u8>) { match self { %s } } }' % (hd('Wire'), ' '.join(arms)))
            for (tt, sub) in insts(x):
                nv = len(cs) if x.kind == 'enum' else 0
                tabs['b'].append('("%s", bin_case::<%s>, %d)' % (tt, tt, nv))
        # JVal: also used as the bound of RON values
        if x.fmts == 'b':
            continue
        arms = []
        for (c, k, fs, v) in cs:
            n = ['a%d' % j for j in range(len(fs))]
            if k == 'unit':
                e = 'v.as_object().is_some_and(|a| a.is_empty())' if x.kind == 'unit' else 'v.as_str() == Some("%s")' % rlit(v.rn)
            elif k == 'tuple':
                if x.transparent:
                    e = 'a0.is(w)'
                elif x.name == 'ProxyC':
                    e = 'PxC::from(self).is(w)'
                else:
                    e = 'w.as_array().is_some_and(|l| l.len() == %d%s)' % (len(fs), ''.join(' && %s.is(&l[%d])' % (m, j) for j, m in enumerate(n)))
            else:
                st = 'w.as_object().is_some_and(|l| { let mut n = 0; '
                conds = []
                for f, m in zip(fs, n):
                    if f.skip:
                        continue
                    key = '"%s"' % rlit(f.rn)
                    val = m
                    if f.proxy and f.opt:
                        val = '%s.as_ref().map(|q| %s::from(q))' % (m, f.proxy)
                    elif f.proxy:
                        val = '%s::from(%s)' % (f.proxy, m)
                    if f.opt and not f.null:
                        st += 'if %s.is_some() { n += 1; } ' % m
                        conds.append('match l.get(%s) { None => %s.is_none(), Some(q) => %s.is_some() && %s.is(q) }' % (key, m, m, val))
                    else:
                        st += 'n += 1; '
                        conds.append('l.get(%s).is_some_and(|q| %s.is(q))' % (key, val))
                st += 'l.len() == n%s })' % ''.join(' && (%s)' % c2 for c2 in conds)
                e = st
            if x.kind == 'enum' and k != 'unit':
                e = 'v.as_object().is_some_and(|o| o.len() == 1 && o.get("%s").is_some_and(|w| %s))' % (rlit(v.rn), e)
            else:
                e = e.replace('w.', 'v.', 1) if e.startswith('w.') else e.replace('(w)', '(v)')
            arms.append('%s => %s,' % (pat(c, fs, k, n), e))
        o.append('%s { fn is(&self, v: &Value) -> bool { match self { %s } } }' % (hd('JVal'), ' '.join(arms)))
        # documents
        for fm in 'jr':
            if fm not in x.fmts or x.name == 'ProxyC':
                continue
            for (tt, sub) in insts(x):
                o.append(doc(x, tt, sub, fm))
                tabs[fm].append('("%s", %s_case::<%s>, %s_doc_%s)' % (tt, fm, tt, fm, ident(tt)))
        if x.name == 'ProxyC':
            tabs['j'].append('("ProxyC", j_case::<ProxyC>, j_doc_none)')
    o.append('pub static BIN: &[(&str, fn(&mut Ctx, usize) -> Res, usize)] = &[%s];' % ',\n'.join(tabs['b']))
    jt, rt = [], []
    for x in TYPES:
        for (tt, sub) in insts(x):
            if 'j' in x.fmts:
                jt.append('jtotal::<%s>' % tt)
            if 'r' in x.fmts:
                rt.append('rtotal::<%s>' % tt)
    o.append('pub static JTOTAL: &[fn(&str)] = &[%s];' % ', '.join(jt))
    o.append('pub static RTOTAL: &[fn(&str)] = &[%s];' % ', '.join(rt))
    o.append('pub static JSON: &[(&str, fn(&mut Ctx) -> Res, fn(&mut Ctx) -> Res)] = &[%s];' % ',\n'.join(tabs['j']))
    o.append('pub static RON: &[(&str, fn(&mut Ctx) -> Res, fn(&mut Ctx) -> Res)] = &[%s];' % ',\n'.join(tabs['r']))
    return '\n'.join(o) + '\n'


def ident(tt):
    return re.sub(r'\W+', '_', tt)


SER = dict(j='serialize_json', r='serialize_ron')


def named(ctor, tt, fs, sub, fm):
    """code building a document of named fields: items, want (Result<T, Vec<missing names>>)"""
    s = ''
    live = [f for f in fs if not f.skip]
    for f in fs:
        s += 'let mut v_%s: Option<%s> = None; ' % (f.name, rty(f.ty, sub))
    s += 'let mut items: Vec<(String, String)> = vec![]; let mut unknown = false;'
    s += 'let complete = c.r.one_in(2); '
    s += 'let mut todo: Vec<usize> = (0..%d).collect(); if !complete { todo.retain(|_| !c.r.one_in(4)); } ' % len(live)
    s += 'if c.r.one_in(2) { let m = c.r.n(3); for _ in 0..m { if %d > 0 { todo.push(c.r.n(%d)); } } } ' % (len(live), max(1, len(live)))
    s += 'if c.r.b() { shuffle(&mut c.r, &mut todo); } if c.r.one_in(%d) { let m = 1 + c.r.n(3); for _ in 0..m { let k = c.r.n(todo.len() + 1); todo.insert(k, 99); } } ' % (2 if fm == 'j' else 6)
    s += 'for k in todo { match k { '
    for i, f in enumerate(live):
        ty = rty(f.ty, sub)
        if f.proxy:
            ser = ('match &x { Some(q) => %s::from(q).%s(), None => "null".to_string() }' if f.opt else '%s::from(&x).%s()') % (f.proxy, SER[fm])
        else:
            ser = 'x.%s()' % SER[fm]
        g = 'Some(Gen::gen(&mut c.r, c.size.min(5)))' if f.proxy and f.opt else 'Gen::gen(&mut c.r, c.size.min(5))'
        s += '%d => { let x: %s = @G@; items.push(("%s".to_string(), %s)); v_%s = Some(x); } ' .replace('@G@', g) % (i, ty, rlit(jlit(f.rn) if fm == 'j' else f.rn), ser, f.name)
    names = ', '.join('"%s"' % rlit(f.rn) for f in live)
    s += '_ => { let k = unknown_name(&mut c.r, &[%s]); items.push((k, unknown_%s(&mut c.r, 4))); unknown = true; } } } ' % (names, fm)
    s += 'let mut missing: Vec<&str> = vec![]; '
    vals = []
    for f in fs:
        if f.skip:
            vals.append(f.dflt)
        elif f.dflt is not None:
            vals.append('match v_%s { Some(x) => x, None => %s }' % (f.name, f.dflt))
        elif f.opt:
            vals.append('match v_%s { Some(x) => x, None => None }' % f.name)
        else:
            s += 'if v_%s.is_none() { missing.push("%s"); } ' % (f.name, f.name)
            vals.append('v_%s.unwrap()' % f.name)
    s += 'let want: Want<%s> = if unknown && %s { Want::Fail } else if !missing.is_empty() { Want::Missing(missing) } else { Want::Value(%s) }; ' % (tt, 'false' if fm == 'j' else 'true', pat(ctor, fs, 'named', vals))
    return s, 'fields_%s(&mut c.r, &items)' % fm


def doc(x, tt, sub, fm):
    nm = '%s_doc_%s' % (fm, ident(tt))
    head = 'fn %s(c: &mut Ctx) -> Res { set_finite(true); ' % nm
    ser = SER[fm]
    if x.kind == 'named':
        s, t = named(x.name, tt, x.fields, sub, fm)
        return head + s + 'let text = %s; %s_judge::<%s>(c, &text, want) }' % (t, fm, tt)
    if x.kind in ('tuple', 'unit'):
        return head + 'let x: %s = Gen::gen(&mut c.r, c.size.min(5)); let text = x.%s(); let text = respace(&mut c.r, &text); %s_judge::<%s>(c, &text, Want::Value(x)) }' % (tt, ser, fm, tt)
    arms = []
    for i, v in enumerate(x.variants):
        rn = rlit((jlit(v.rn) if fm == 'j' else v.rn).replace('{', '{{').replace('}', '}}'))
        ctor = '%s::%s' % (x.name, v.name)
        if v.kind == 'unit':
            arms.append('%d => (%s, Want::Value(%s)),' % (i, '"\\"%s\\"".to_string()' % rlit(jlit(v.rn)) if fm == 'j' else '"%s".to_string()' % rn, ctor))
        elif v.kind == 'tuple':
            st = ''.join('let a%d: %s = Gen::gen(&mut c.r, c.size.min(5)); ' % (k, rty(f.ty, sub)) for k, f in enumerate(v.fields))
            st += 'let mut parts: Vec<String> = vec![%s]; ' % ', '.join('a%d.%s()' % (k, ser) for k in range(len(v.fields)))
            st += 'let short = c.r.one_in(8); if short { if c.r.b() { parts.pop(); } else { parts.push(parts[0].clone()); } } let t = parts.join(","); '
            st += 'let body = %s; ' % ('format!("{{\\"%s\\":[{}]}}", t)' % rn if fm == 'j' else 'format!("%s({})", t)' % rn)
            st += '(body, if short { Want::Fail } else { Want::Value(%s) })' % pat(ctor, v.fields, 'tuple', ['a%d' % k for k in range(len(v.fields))])
            arms.append('%d => { %s }' % (i, st))
        else:
            s, t = named(ctor, tt, v.fields, sub, fm)
            st = s + 'let t = %s; sp = false; ' % t
            st += '(%s, want)' % ('format!("{{\\"%s\\":{}}}", t)' % rn if fm == 'j' else 'format!("%s{}", t)' % rn)
            arms.append('%d => { %s }' % (i, st))
    names = ', '.join('"%s"' % rlit(v.rn) for v in x.variants)
    kinds = ', '.join('"%s"' % v.kind for v in x.variants)
    arms.append('_ => (wrong_variant_%s(&mut c.r, &[%s], &[%s]), Want::Fail)' % (fm, names, kinds))
    return head + 'let k = c.r.n(%d); let mut sp = true; let (text, want): (String, Want<%s>) = match k { %s }; let text = if sp { respace(&mut c.r, &text) } else { text }; %s_judge::<%s>(c, &text, want) }' % (len(x.variants) + 1, tt, ' '.join(arms), fm, tt)


if __name__ == '__main__':
    open(os.path.join(H, 'src', 'lib.rs'), 'w').write(lib())
    open(os.path.join(H, '..', 'harness', 'src', 'cat.rs'), 'w').write(cat())
