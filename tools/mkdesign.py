#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in: fills in the per-property part (check modules + the oracles below), the not-applicable list, the repaired
defects (known-findings.txt) and the planted bugs (seeded/*/meta.json, caught.txt written by tools/catch.sh)."""
import ast, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
'P01': 'The std::function members of the problem classes are the sinks; every query of every solver and every evaluator of an eigenfunction is a source. The one allowed path is construction (Legendre sampling in the sector constructors, the pieces of a Liouville transformation and its V, which the inner Schroedinger problem samples while it is constructed).',
'P02': 'Per query: set of written locations up to locals and values the call returns must be empty; no mutable statics except constants initialised from constants; mutable members are allowed only where the class is used as a local (Legendre).',
'P03': 'Throw condition of each entry point as a decision diagram over comparisons of symbolic end points (NaN: every comparison false) must equal not(min<=a<=max and min<=b<=max); in the remaining states every index into the sectors is inside.',
'P04': 'Tiling invariant over the calls the builders make to the sector constructor: neighbours share the *same* end (equality with rounding, not merely in exact arithmetic), first begin = min, last end = max, jumps are ends, direction by position relative to the matching index.',
'P05': 'Loop invariant of the work list: the interval holds requested crossings (per recorded angle counts); after the step, the intervals pushed and results together hold the same crossings, each once. Start interval: bounded unrolling of the doubling loops from symbolic angle functions that are monotone.',
'P06': 'Wronskian of the two recorded propagation calls, which must be for the given conditions, at one common end point, same energy and mode; any basis of start data of a periodic problem.',
'P07': 'Formal derivative d/dE of the value expression (eta_i\' = eta_{i+1}/2 as rewrite rule).',
'P08': 'The returned list is the sorted permutation of the results; calls with Imin<0 or Imin>Imax have no normal return.',
'P09': 'Composition law: product of the opaque flows of the sectors between a and b, each between the clamped points, relative to the anchor of the sector; angle: signed sum. Inverse flows cancel by T^-1 T = 1 in the normal form.',
'P10': 'Picard recursion with exact rationals generates the power series of the fundamental solutions; compared monomial by monomial (several thousand coefficients). Matscs: 12-digit tables compared with tolerance 1e-10; the inner formula of Matscs lacks the term delta^9 eta_5 that is beyond its order.',
'P11': 'Exact moments of the shifted Legendre polynomials; wider types: literals read from the syntax tree as rationals, so that a literal without suffix is seen as rounded to double.',
'P12': 'Definition as power series; remainder bounded by exact rational arithmetic; recursion identity for large arguments.',
'P13': 'Reflection laws f(-x) = +-f(x), f\'(-x) = -+f\'(x), factor sqrt(1/2); parity by index; error by the same parity.',
'P14': 'Union of the even list under 2i and the odd list under 2i+1, in index order; ranges asked from the full-range solver must cover exactly the indices of the range.',
'P15': 'All overloads reach the implementation with the same arguments, on every dynamic type; throw condition = left != right.',
'P17': 'z2y after y2z is the identity; formal derivative of (p w)^(-1/4) z(x(r)) with respect to r; V against formal second derivative; bisection invariant r2x(low) <= x <= r2x(high); tiling of pieces.',
'P18': 'Recorded calls to the inner problem: conditions transformed at their own ends, everything else unchanged; the results handed on unchanged.',
'P19': 'Row i of the array form = single form at x_i, for every order of the x_i relative to each other and to the sector boundaries; an exception is allowed only for unsorted half-range arrays.',
'P20': 'List laws (indices, multiplicities, ranges) on every path for every answer of the search; eigenpairs against eigenvalues of the same query.',
'P21': 'Every new-expression is the argument of an owner in the same full expression; every polymorphic class deleted through a base has a virtual destructor.',
'P22': 'Lifetime rules per construct; captures of closures that escape; fields of reference, pointer or view type outside of an allow-list derived from the documented rule (evaluators refer to their problem).',
'P23': 'End data of each eigenfunction call = (start data of the matching error) times kernel vector; for double eigenvalues independent.',
'P24': 'Nothing reachable refers to stdout.',
'P25': 'Polynomial arithmetic written down independently on coefficient lists.',
'P26': 'Coefficients (-1)^(i [direction = backward]) v_i in the eigenvector basis; the table function must have been applied to exactly these, last.',
'P27': 'C^1 matching at the common point up to the proportionality factor, norm = d/dE of the matching error of the same chains; whenever that norm is positive it must be used.',
'P28': 'Types of both sides of every floating conversion, compound assignment and converting constructor of the wide instantiations; exact rational value of every constant expression that is converted.',
'P29': 'Lifted angle model: start angle, end angle mod pi, zeros passed upwards only, nearest to uniform rotation.',
'P30': 'Floquet ladder: bands and gaps in alternation, the true list of eigenvalues known by construction; result must equal it for the range asked.',
'P31': 'cos^2 + sin^2 = 1 for the eta functions; angles compared as products of complex numbers with that argument.',
'P32': 'the documented interface of the module (a table of names, parameters, defaults, library methods and argument places), against recorded library calls.',
'P33': 'the documented interface (matslise.d.ts, transcribed), against recorded library calls and a table of JavaScript values.',
'P34': 'the arguments themselves; known roots of straight-line matching errors; the order in which the averages were put.',
}
FIXNOTE = {}
out = open(R + '/DESIGN.in').read()
props = {p['id']: p for p in map(json.loads, open(R + '/properties.jsonl'))}
ev = {}
t = []
for f in sorted(glob.glob(R + '/checks/P*.py')):
    pid = os.path.basename(f)[:-3]
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'LEVEL_NOTE'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    t.append('**%s – %s** (`checks/%s.py`)\n\n* Decided by: %s.\n* Oracle: %s\n* Bounds: %s\n' % (
        pid, props[pid]['title'], pid, v['TECHNIQUE'], ORACLE.get(pid, 'see the header of the check.'), v['LEVEL_NOTE']))
out = out.replace('PERPROPERTY', '\n'.join(t))
out = out.replace('\nNA\n', '\n' + '\n'.join('* **%s – %s**: %s' % (n['property'], props[n['property']]['title'], n['reason'])
                                               for n in json.load(open(R + '/not-applicable.json'))) + '\n')
fx = []
for l in open(R + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        fx.append('* %s, `%s`: %s' % m.groups())
    m = re.match(r'finding: property=(\w+) (.*)', l)
    if m:
        fx.append('* %s, **not repaired**: %s' % m.groups())
out = out.replace('\nFIXES\n', '\n' + '\n'.join(fx) + '\n')
caught = {}
if os.path.exists(R + '/caught.txt'):
    for l in open(R + '/caught.txt'):
        w = l.split(None, 1)
        caught[w[0]] = w[1].strip() if len(w) > 1 else ''
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    sd.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, '?')))
out = out.replace('\nSEEDS\n', '\n' + '\n'.join(sd) + '\n')
open(R + '/DESIGN.md', 'w').write(out)
