"""Schemas for the entity store checks."""
import itertools

M = ['1', '?', '*']
NAMES = [(True, True), (True, False), (False, True)]


def assoc(f, t, fm, tm, fn, tn):
    return {'f': f, 't': t, 'fm': fm, 'tm': tm, 'fn': fn, 'tn': tn}


def single():
    return [{'n': 2, 'a': [assoc(1, 2, fm, tm, fn, tn)]} for fm in M for tm in M for fn, tn in NAMES]


def selfs():
    return [{'n': 1, 'a': [assoc(1, 1, fm, tm, fn, tn)]} for fm in M for tm in M for fn, tn in NAMES
            if not (fm == '1' or tm == '1')] + \
           [{'n': 1, 'a': [assoc(1, 1, '1', '1', True, True)]}]


def chain(fm1, tm1, fm2, tm2, names=((True, True), (True, True))):
    return {'n': 3, 'a': [assoc(1, 2, fm1, tm1, *names[0]), assoc(2, 3, fm2, tm2, *names[1])]}


def pairs():
    """two associations between the same two sets"""
    return [{'n': 2, 'a': [assoc(1, 2, a, b, True, True), assoc(1, 2, c, d, True, True)]}
            for a, b, c, d in [('1', '*', '?', '*'), ('?', '?', '*', '*'), ('?', '*', '*', '?')]]


def chains():
    return [chain('1', '*', '1', '*'), chain('1', '*', '1', '*', ((True, True), (False, True))),
            chain('1', '*', '1', '?'), chain('?', '*', '1', '1'), chain('1', '?', '*', '1')]
