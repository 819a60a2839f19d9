"""Problems of known status run with reporting options (shared by C10 and C22)."""
import json, os, random
import fol, probs, run as R
from harness import VERIF
from checks import c04 as ground

CORPUS = os.path.join(VERIF, 'corpus', 'theorems.json')
SEARCH = ['', '-completeness', '-sateq', '-eagereq', '-inner', '-preinner', '-dmt', '-flatten', '-noeq']


def theorems(r, n):
    out = []
    xs = json.load(open(CORPUS))
    for x in r.sample(xs, min(n, len(xs))):
        out.append((x['text'], r.choice([m for m in x['modes'] if m in SEARCH] or ['']), True))
    return out


def refuted(r, n):
    """ground non-theorems: NOT VALID is the only right answer and is always reached"""
    out = []
    while len(out) < n:
        ax, cj = ground.gen(r)
        if fol.z3_status(ax + ([fol.Not(cj)] if cj is not None else []), 2000) != 'sat': continue
        out.append((fol.problem(ax, cj), r.choice(['', '-sateq', '-inner', '-preinner', '-completeness', '-flatten', '-one_step', '-eagereq']), False))
    return out


def reporting(r, d, quiet=True):
    """a random combination of options that only change what is reported; d: scratch directory of the run"""
    o = []
    pick = lambda p: r.random() < p
    if quiet and pick(0.2): o.append('-quiet')
    if pick(0.2): o.append('-silent')
    if pick(0.2): o.append('-show_trace')
    if pick(0.25): o.append('-print-id')
    if pick(0.25): o.append('-pretty')
    if pick(0.2): o.append('-quoted_pred')
    if pick(0.15): o.append('-type_proof')
    if pick(0.15): o.append('-chrono')
    if pick(0.15): o += ['-cpuprofile', os.path.join(d, 'cpu.prof')]
    if pick(0.15): o += ['-memprofile', os.path.join(d, 'mem.prof')]
    if pick(0.25): o += ['-wlogs', '-log', 'out']
    if pick(0.05): o += ['-debug', r.choice(['search', 'unif', 'all', 'search', 'ast', 'parser', 'sko,unif', 'equality'])]
    return o


PROOFS = ['-proof', '-otptp', '-osctptp', '-orocq', '-orocq -context', '-proof -otptp']   # -olp: unfinished in goeland, see DESIGN.md


def proof_opts(r, mode):
    if '-dmt' in mode or 'inner' in mode or '-flatten' in mode: return ['-proof']   # proof output of these modes: recorded findings of C17
    return r.choice(PROOFS).split()
