"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('runtime monitoring: crash/hang/stack watch over generated and deep inputs', 'Each input runs in a watched process (panic, signal, CPU and memory limits); deep inputs run on 1 MB stacks. Holds for the inputs generated; lexer and depth sweeps cover every scanner rule and every recursive construct.'),
 'C02': ('runtime monitoring: losslessness monitor on every observed tree', 'Every leaf range and text is compared with the input on every accepted case.'),
 'C03': ('runtime monitoring against a reference LALR model of gram.y', 'Every observed tree is compared node by node with the derivation of an LR driver over bison tables of the pinned gram.y; the workload consults every live cell of that automaton.'),
 'C04': ('runtime monitoring against a reference LALR model of gram.y', 'The verdict is compared on every (state, terminal) pair of the automaton, on a sentence for every live cell, and on random and mutated sentences.'),
 'C05': ('runtime monitoring against a precedence oracle written from the documentation', 'The oracle is a separate precedence-climbing parser; all operator triples and pairs in context are enumerated, longer chains sampled.'),
 'C06': ('runtime monitoring against a reference scanner model of scan.l', 'Token kinds, extents and lexical errors are compared with a scanner written by hand from scan.l; glyph sequences, keywords and string continuations are enumerated.'),
 'C07': ('runtime monitoring: trivia accounting and metamorphic respacing', 'Comments and whitespace are accounted for on every tree, and the tree of a respaced variant is compared with the original.'),
 'C08': ('runtime monitoring against a reference LALR model and scanner', 'Reported ranges, message positions and lexical error reports are compared with the model for every automaton error cell and random inputs.'),
 'C09': ('runtime monitoring against a reference lookahead model', 'Every context word is tried before partner and other words in every LR state that can see it.'),
 'C10': ('runtime monitoring: repetition, history, thread and process comparison', 'Results are compared across repetitions, histories, up to 32 threads and processes; shared trees are read, cloned and dropped concurrently.'),
 'C11': ('sanitizers (ASan, TSan, LSan), Miri and an allocation ledger', 'Memory and race errors are reported by instrumented builds (std included) on workloads covering scanner, grammar and errors; leaks by a counting allocator on every case.'),
 'C12': ('runtime monitoring: differential run of the two scanner builds', 'Fingerprints of complete results are compared case by case.'),
 'C13': ('runtime monitoring: differential run of the two tree builds', 'Fingerprints of pruned trees and errors are compared; the keep-empty tree is checked against the exact productions.'),
 'C14': ('runtime monitoring of the CLI process and the wasm entry point', 'Real processes and the real entry function are compared with a rendering written independently from the tree.'),
 'C15': ('runtime monitoring: differential run of the regenerated library', 'Both generators run on the sources in /repo; the library built from their output is compared case by case with the checked-in one, and a second generation byte by byte with the first.'),
 'C16': ('runtime monitoring of the automata crate against a derivative-based matcher', 'Random pattern sets, start conditions and inputs; the longest match and rule choice are compared with an independent matcher, and for all strings up to a length.'),
 'C17': ('runtime monitoring of generated parsers against bison', 'Random conflict-free grammars go through the real generator and template; the parsers built are run and compared with an LR driver over bison tables.'),
 'C18': ('runtime monitoring of generated scanners against a reference interpreter', 'Random flex files go through the real generator; the scanners built are run and compared with an independent interpretation of the file.'),
 'C19': ('runtime monitoring: metamorphic composition of scripts', 'Trees and errors of joined scripts are compared with those of the parts.'),
 'C20': ('runtime monitoring: metamorphic case folding', 'Verdict, kinds, ranges and structure of respelled inputs are compared; non-ASCII look-alikes must not fold.'),
 'C21': ('runtime monitoring: metamorphic replacement of opaque bodies', 'Kinds and nesting are compared after replacing literal, quoted and comment bodies.'),
 'C22': ('runtime monitoring: instruction counts (cachegrind) and an allocation ledger', 'Instruction and allocation counts at n, 2n, 4n, 8n decide, not wall-clock time; large sizes are watched by CPU time with a generous bound.'),
 'C23': ('runtime monitoring against the keyword categories of kwlist.h', 'Every keyword in every role is tried: the space is enumerated.'),
}
claimed = sys.argv[1:] or sorted(T)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append(dict(property=i, quick_cmd=f'VERIF_TIER=quick python3 run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}', evidence_file=f'evidence/{i}.json',
                                technique=T[i][0], level='exploration', level_note=T[i][1]))
    else:
        m['not_applicable'].append(dict(property=i, reason='The check is still being built.'))
m['notes'] = 'No hooks: all monitors observe the public API, real processes and generated code. /repo carries fix: commits only.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
