#!/usr/bin/env python3
"""Generates lists.h: argument lists that mean the same in C and in C++ (run once; lists.h is committed)."""
import random
r = random.Random(25)
T = {   # expression -> conversions
 'v->b': ['%u'], 'v->c': ['%d'], 'v->sc': ['%d'], 'v->uc': ['%u', '%x'], 'v->sh': ['%d'], 'v->us': ['%u', '%X'],
 'v->i': ['%d', '%i'], 'v->ci': ['%d'], 'v->u': ['%u', '%x', '%X'], 'v->l': ['%ld'], 'v->ul': ['%lu', '%lx'], 'v->ll': ['%lld', '%ld'], 'v->ull': ['%llu', '%lx'],
 'v->i8': ['%d'], 'v->u8': ['%u'], 'v->i16': ['%d'], 'v->u16': ['%u'], 'v->i32': ['%d'], 'v->u32': ['%u'], 'v->i64': ['%ld'], 'v->u64': ['%lu'], 'v->z': ['%lu'],
 'v->f': ['%f'], 'v->d': ['%f'], '1.25': ['%f'], '-0.5f': ['%f'], '42': ['%d'], '-7': ['%d'], '7u': ['%u'], '8ul': ['%lu'], '-9ll': ['%lld'], '10ull': ['%llu'],
 'v->p': ['%p'], 'v->ip': ['%p'], 'v->sp': ['%p'], 'v->vp': ['%p'], 'v->dp': ['%p'], 'hogl_pointer(v->ip)': ['%p'], 'hogl_pointer(v->s)': ['%p'],
 'v->s': ['%s', '%s', '%10s', '%-7s'], 'v->cs': ['%s'], 'v->t': ['%s'], 'v->nul': ['%s'], '"text"': ['%s'], '""': ['%s'], 'hogl_string(v->us8)': ['%s'],
 'un': ['%d'], 'more(v)': ['%d'], 'v->i + v->sh': ['%d'], 'v->u * 2': ['%u'], 'v->i > 3': None, '(v->b ? v->s : v->cs)': ['%s'], 'v->s + 1': ['%s'], '(uint8_t) v->i': ['%u'], '(bool) v->l': ['%u'], '(char) v->i': ['%d'],
}
del T['v->i > 3']   # int in C, bool in C++
del T['""']
K = list(T)
out, n = [], 0
def emit(a):
    global n
    out.append(f'L({n}, {", ".join(a)})'); n += 1
for k in K: emit([k])                       # each alone
for k in K: emit([f'"a {r.choice(T[k])} z"', k])
for size in range(2, 17):
    for j in range(4):
        a = [r.choice(K) for _ in range(size)]
        a = ['v->u' if x == 'more(v)' and 'more(v)' in a[:i] else x for i, x in enumerate(a)]   # evaluated in no particular order in C++
        if j < 2: a[0] = '"' + ' '.join(w for x in a[1:] for w in ([r.choice(['x', 'y:', '100%%'])] if r.random() < .3 else []) + [r.choice(T[x])]) + '"'
        emit(a)
print('/* Generated by lists.py: lists of arguments that mean the same in C and in C++; PART selects an eighth of them */')
for p in range(8): print('\n'.join([f'#if !defined(PART) || PART == {p}'] + out[p::8] + ['#endif']))
print(f'#define LISTS {n}')
