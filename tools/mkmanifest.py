#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
AI = 'abstract interpretation of the SSA form with a shape domain for red-black trees (summarised subtrees and paths with content words, colours and black heights), run to a fixpoint over all heaps, keys and paths'
RX = 'abstract interpretation of the SSA form with a shape domain for radix trees (summarised subtrees and paths with content words, common-prefix lengths with the searched key, difference constraints between bit positions), recursion by tabulated summaries, run to a fixpoint over all trees, keys and prefix lengths'
NOTE = 'Every path of the operations is covered for trees of any size and any keys, starting from any tree that satisfies the representation invariants; the same run proves that every operation keeps them. Trusted: go/ssa, the interpreter in absint, its models of the few library calls. Loss of precision is reported as a violation, never as success.'
EFF = 'interprocedural effect (ownership) analysis over SSA: every store, append, copy and map update in the call graph of each lookup must reach only memory made during the call'
ENOTE = 'Flow-insensitive origins of all memory (made here, reachable from an argument, elsewhere) with callee summaries to a fixpoint; covers every path, any tree and any schedule, since a function that writes nothing older than itself cannot race. Trusted: go/ssa and the list of library functions which do not write their arguments.'
IPX = 'abstract interpretation of the SSA form over trees taken as content words split by their relation to the given network (contains it, equal, inside, other), radix tree methods by their verified contracts, addresses as symbolic bytes, run over all shapes of arguments (address lengths, mask sizes, prefix lengths) to a fixpoint'
INOTE = 'Every path is covered for trees of any content, any address bytes and any prefix length, both two-level layouts (generic and sized). The radix trees are taken at the contracts which C08 to C12 prove for the same instances; net.IPMask.Size, net.CIDRMask, net.IP.Mask, To4 and To16 are modelled by their documentation. Loss of precision is reported as a violation, never as success.'
DOM = 'abstract interpretation of the SSA form over domain trees taken as the nodes on the way down the labels of the name and the rest of their children as a whole, label trees by their verified contracts, for each number of labels (0 to 8 and 127 in quick, 0 to 127 in thorough), run over all trees and names'
DNOTE = 'Every path is covered for trees of any content and any labels; loops over labels and depths are followed as they are for each number of labels, so nothing is approximated there. Domain.Name.GetLabels is taken as an iteration over the labels (last first) until the callback returns an error; label trees at the contracts which C03 to C07 prove. Enumeration is by induction on the tree. Trusted: go/ssa and the interpreter in absint.'
TXT = 'abstract interpretation of the SSA form over a text of unknown bytes and length: each byte read is split by value only as far as the code tells values apart, a reader automaton for the syntax of names runs along as a ghost and says which byte is to come out next, positions and lengths are symbols under difference constraints, run to a fixpoint over all texts'
TNOTE = 'Every path is covered for texts of any length and any bytes. The automaton (states: in a label, after a backslash, after one and two digits; value so far) is the specification; the bytes the code puts out, their number, the length bytes, the limits and the choice between error and success are compared with it at every store, copy and exit. Trusted: go/ssa, the interpreter in absint, its models of copy, string conversion and reflect.Value. Loss of precision is reported as a violation, never as success.'
ALL = 'Obligations of all trees (red-black, radix, IP and domain trees) in one run: %s. '
claimed = {
 'C01': (AI.split(' with a shape')[0] + ' with shape domains for all trees of the library: every store of a non-in-place operation must reach only memory made during the call', ALL % 'no path of Insert, Delete or DeleteSubdomains writes to a node which existed before the call' + NOTE),
 'C26': (AI.split(' with a shape')[0] + ' with shape domains for all trees of the library, receiver fixed to nil', ALL % 'the same exit conditions as for an empty tree, with the receiver nil' + NOTE),
 'C27': (AI.split(' with a shape')[0] + ' with shape domains for all trees of the library: no path may dereference nil, index or shift out of range or fail a type assertion', ALL % 'no instruction which may panic is reached in a state in which it panics' + NOTE),
 'C22': (DOM, DNOTE), 'C23': (DOM, DNOTE), 'C24': (DOM, DNOTE), 'C25': (DOM, DNOTE),
 'C18': (TXT, TNOTE), 'C19': (TXT, TNOTE), 'C20': (TXT, TNOTE),
 'C21': (TXT + '; every index, slice, store and panic checked, every loop shown to come nearer to a bound', TNOTE + ' Termination: at each loop head some variable strictly rises to a bound or falls to one on every way round (the variable is the same on all of them).'),
 'C02': (EFF, ENOTE),
 'C28': ('path-sensitive dataflow over SSA with inlining: terms for paths, facts about equalities and errors, requirements at every file operation and at the end', 'Every path from main of the generator is explored with symbolic terms for strings and paths (loops to a fixpoint with widened terms). Trusted: go/ssa, the list of functions which create or read files. Paths are compared as text, as the generator does.'),
 'C29': ('typestate analysis of channels with interprocedural summaries: one producer, closed once, nothing after closing, inner enumerations read to their end', 'Every path of every function which returns or receives from a channel; callees by summaries to a fixpoint. That the entries sent are the right ones, and finitely many, is C07, C12, C16 and C25.'),
 'C03': (AI, NOTE), 'C04': (AI, NOTE), 'C05': (AI, NOTE), 'C06': (AI, NOTE), 'C07': (AI, NOTE),
 'C08': (RX, NOTE), 'C09': (RX, NOTE), 'C10': (RX, NOTE), 'C11': (RX, NOTE), 'C12': (RX, NOTE),
 'C13': (IPX, INOTE), 'C14': (IPX, INOTE), 'C15': (IPX, INOTE), 'C16': (IPX, INOTE), 'C17': (IPX, INOTE),
}
reasons = {
 'C30': 'wall-clock time, allocation counts and goroutines of abandoned consumers are run-time quantities which depend on scheduler, allocator and consumer; no static argument in reach bounds them',
}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                 'technique': claimed[p][0], 'level': 'proof', 'level_note': claimed[p][1]} for p in props if p in claimed],
     'not_applicable': [{'property': p, 'reason': reasons[p]} for p in props if p not in claimed],
     'notes': 'One analyser (absint) decides every property from the type-checked program; check.sh builds it and runs the obligations of one property against /repo. Nothing of /repo is executed.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
