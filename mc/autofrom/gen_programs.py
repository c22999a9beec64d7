#!/usr/bin/env python3
"""Writes src/programs.rs: one pair of types per derive input explored for C16 (all records,
tuple structs and enum variants of up to N members over the kinds of member the derive
distinguishes), with the values to convert and the expected counterparts."""
import itertools, sys

KINDS = {
    # kind: (type in the annotated item, type in the target)
    'P': ('i64', 'W'),
    'V': ('Vec<i64>', 'Vec<W>'),
    'O': ('Option<i64>', 'Option<W>'),
    'B': ('Box<i64>', 'Box<W>'),
    'N': ('Sub', 'SubW'),          # another derived type
}
SPELLED = {'P': 'i64', 'V': '::std::vec::Vec<i64>', 'O': 'std::option::Option<i64>', 'B': 'std::boxed::Box<i64>', 'N': 'self::Sub'}

def mk(k, i, left):
    """expression of the value with index `x` (usize) for member i"""
    w = '' if left else 'W'
    c = (lambda e: e) if left else (lambda e: f'W({e})')
    b = i * 100
    if k == 'P': return c(f'{b} + x as i64')
    if k == 'V': return f'(0..x % 3).map(|j| {c(f"{b} + 10 * x as i64 + j as i64")}).collect()'
    if k == 'O': return f'if x % 2 == 0 {{ None }} else {{ Some({c(f"{b} + x as i64")}) }}'
    if k == 'B': return f'Box::new({c(f"{b} + 7 + x as i64")})'
    if k == 'N': return f'Sub{w} {{ s: {c(f"{b} + x as i64")}, t: {c(f"{b} + 50 - x as i64")} }}'

out = ['// Written by gen_programs.py.', 'use super::*;', '']
names = []
NAMES = ['b', 'a', 'd', 'c']

def members(ks, left, named, spelled=False):
    r = []
    for i, k in enumerate(ks):
        t = SPELLED[k] if spelled and left else KINDS[k][0 if left else 1]
        r.append(f'{NAMES[i]}: {t}' if named else t)
    return r

def values(ks, left, named):
    return [(f'{NAMES[i]}: ' if named else '') + '{ let x = x[%d]; %s }' % (i, mk(k, i + 1, left)) for i, k in enumerate(ks)]

DER = '#[derive(Debug, Clone, PartialEq)]'
def item(n, ks, named, spelled=False, two=False):
    op, cl, end = ('{', '}', '') if named else ('(', ')', ';')
    l = members(ks, True, named, spelled)
    r = members(ks, False, named)
    rt = list(reversed(r)) if named else r   # the target declares its fields in another order
    attr = f'#[auto_from(R{n})]' + (f'\n#[auto_from(Q{n})]' if two else '')
    out.append(f'{DER}\n#[derive(AutoFrom)]\n{attr}\npub struct L{n} {op} {", ".join(l)} {cl}{end}')
    out.append(f'{DER}\npub struct R{n} {op} {", ".join(rt)} {cl}{end}')
    if two:
        out.append(f'{DER}\npub struct Q{n} {op} {", ".join(r)} {cl}{end}')
    for side, left in (('L', True), ('R', False)) + ((('Q', False),) if two else ()):
        out.append(f'impl Make for {side}{n} {{ const MEMBERS: usize = {len(ks)}; fn make(_v: usize, x: &[usize]) -> Self {{ {side}{n} {op} {", ".join(values(ks, left, named))} {cl} }} }}')
    names.append((f'L{n}', f'R{n}'))
    if two:
        names.append((f'L{n}', f'Q{n}'))

n = 0
MOST = 3
for size in range(1, MOST + 1):
    for ks in itertools.product('PVOBN' if size < 3 else 'PVOB', repeat=size):
        for named in (True, False):
            item(n, ks, named, spelled=(n % 3 == 2), two=(n % 5 == 4))
            n += 1
for ks in ('PPPP', 'VOBP', 'BOVP', 'PBBV'):
    for named in (True, False):
        item(n, ks, named)
        n += 1

# enums: groups of variants
def enum(n, variants):
    for side, left in (('L', True), ('R', False)):
        vs = []
        for i, (ks, named) in enumerate(variants):
            if ks is None: vs.append(f'V{i}')
            elif named: vs.append(f'V{i} {{ {", ".join(members(ks, left, True))} }}')
            else: vs.append(f'V{i}({", ".join(members(ks, left, False))})')
        if not left: vs.reverse()
        d = f'#[derive(AutoFrom)]\n#[auto_from(R{n})]\n' if left else ''
        out.append(f'{DER}\n{d}pub enum {side}{n} {{ {", ".join(vs)} }}')
        arms = []
        for i, (ks, named) in enumerate(variants):
            if ks is None: arms.append(f'{i} => {side}{n}::V{i}')
            else:
                op, cl = ('{', '}') if named else ('(', ')')
                arms.append(f'{i} => {side}{n}::V{i} {op} {", ".join(values(ks, left, named))} {cl}')
        out.append(f'impl Make for {side}{n} {{ const VARIANTS: usize = {len(variants)}; const MEMBERS: usize = {max(len(k or "") for k, _ in variants)}; fn make(v: usize, x: &[usize]) -> Self {{ match v {{ {", ".join(arms)}, _ => unreachable!() }} }} }}')
    names.append((f'L{n}', f'R{n}'))

bodies = [(None, False)]
for size in range(1, MOST + 1):
    for ks in itertools.product('PVOBN' if size < 3 else 'PVOB', repeat=size):
        bodies.append((ks, True)); bodies.append((ks, False))
for i in range(0, len(bodies), 8):
    enum(n, ([(None, False)] if i else []) + bodies[i:i + 8]); n += 1
enum(n, [(None, False)]); n += 1
enum(n, [(None, False)] * 3); n += 1

out.append('pub fn all(ctx: &Ctx) -> usize {')
for l, r in names:
    out.append(f'    pair::<{l}, {r}>(ctx, "{l}/{r}");')
out.append(f'    {len(names)}\n}}')
open('src/programs.rs', 'w').write('\n'.join(out) + '\n')
