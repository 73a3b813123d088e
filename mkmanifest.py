"""Writes MANIFEST.json from the list of claimed properties (run by hand)."""
import json
C = {
 'C01': ('model_checking', 'explicit N/M/S lexer model, exhaustive bounded strings x catcode tables x live changes on the real tokenizer',
         'Every string/table/schedule within the stated bounds agrees with the reference lexer; outside the alphabets and lengths nothing is claimed.'),
 'C02': ('model_checking', 'exhaustive bounded programs (parameter texts, calls, nested definitions, token sequences, definition sequences) on the real parser against an independent TeX expander',
         'Every program of the stated grammars and bounds; the expander covers the constructs named in the property, validated against pdflatex at development time.'),
 'C03': ('model_checking', 'exhaustive bounded programs (operand pairs, \\ifcase shapes, meanings, conditional trees, places, token sequences with side effects) on the real parser against an independent TeX expander',
         'Every program of the stated grammars and bounds; side effects of untaken branches are observed through counters, switches and definitions.'),
 'C04': ('model_checking', 'explicit-state exploration of operation histories on the real context stack against a stack-of-frames model, plus exhaustive scope/change/probe programs against an independent TeX expander',
         'Every history and program of the stated grammars and bounds; every built-in construct that opens a scope, alone and nested in every other, around every kind of local change.'),
 'C05': ('model_checking', 'exhaustive signatures x values x texts behind, and exhaustive number, dimension and glue forms, on the real argument reader against the bindings they were generated from',
         'Every signature, value combination and number form of the stated alphabets; bindings, left-over text, context stack and parameter switches are compared.'),
 'C06': ('model_checking', 'explicit-state exploration of edit histories on the real DOM objects against a list-of-lists model, all invariants and derived views in every state',
         'Every operation sequence to depth 2 (all operations and indices) and 3 (4-5 on small pools) over eight initial pools; periodic histories of length 40.'),
 'C07': ('model_checking', 'exhaustive bounded sequences, triples and nestings of block constructs, sections and text separators on the real parser, against a reference document tree built from the generating structure',
         'Every sequence, triple and nesting of the stated families; the tree is compared paragraph by paragraph, including where every piece of text lies.'),
 'C17': ('model_checking', 'exhaustive histories of documents (pairs, bounded sequences, strided long histories) processed in one interpreter, on the real parser and renderers, against the result in a fresh interpreter; a snapshot of all class and module state after every document',
         'Every ordered pair of the stated documents and every sequence of the stated subset; documents that end in an exception are no history.'),
 'C12': ('model_checking', 'exhaustive products of text position, adversarial text (and all bounded strings over markup pieces) and rendering configuration through the real pipeline; the parsed HTML trees must equal those of the same document with a neutral word, with the text in its place',
         'Every (position, text, configuration) of the stated products; the tree of every produced file is compared completely (elements, attributes, text, comments), so that both escaping too little and too much are seen.'),
 'C13': ('model_checking', 'exhaustive bounded section trees x split levels, contents x places x renderers and themes, filename templates x forbidden characters, and hash seeds, through the real pipeline; the files and the file of every marker word are compared with a model computed from the generating structure',
         'Every document and configuration of the stated products; every marker word must be shown exactly once, in the file the model gives it, in document order.'),
 'C08': ('model_checking', 'exhaustive bounded documents (histories of numbered constructs and counter commands, declarations, lists, rows, nesting, depths) on the real parser against an independent model of LaTeX counters',
         'Every document of the stated families; the model was compared with pdflatex at development time; final values of all counters are compared as well as all printed numbers.'),
 'C09': ('model_checking', 'exhaustive bounded documents (labelled objects x placements of labels and references x orders, places, spellings, citations) on the real parser and exhaustive call sequences on the real label table, against a model of \\@currentlabel and of the counters',
         'Every document of the stated families and every call sequence of the label table up to the stated length; the printed numbers come from the C08 counter model.'),
 'C10': ('model_checking', 'exhaustive bounded tables (column specifications, rules, spanning cells, cell contents), nested trees and lists on the real parser, against a model that computes rows, cells, spans, borders and items from the generating structure',
         'Every table, tree and list of the stated families; token sequences up to the stated length.'),
 'C11': ('model_checking', 'exhaustive enumeration of verbatim bodies, \\verb delimiters and formula trees on the real parser; contents are compared character for character and reconstructed sources token for token with the generating structure',
         'Every body up to the stated length over the stated alphabets and every formula of the grammar up to the stated nesting.'),
 'C15': ('model_checking', 'exhaustive request histories x filename templates x configurations on the real generator, against a set/counter model of name issuing',
         'Every request history up to the stated length over the stated templates and values.'),
 'C16': ('model_checking', 'exhaustive layer combinations (default, files, command line) over every declared option on the real ConfigManager, against a last-writer model',
         'Every option and every pair of layers; value alphabets per type are finite.'),
 'C18': ('model_checking', 'exhaustive enumeration of index entry sequences (levels, displayed forms, formats, ranges, places) on the real package against a reference index built from the entries', 'Keys, levels and formats from finite alphabets; letters come from the scripts listed.'),
 'C20': ('model_checking', 'exhaustive enumeration of every truncation, bit flip and damaged window of saved label files, of all save/damage/restore histories to a depth and of all run sequences of the real pipeline against a model of the file', 'Files of two documents; histories over 12 steps, runs over 6.'),
 'C19': ('model_checking', 'exhaustive enumeration of test expressions, atom pairs, branch sequences and loops on the real ifthen package against a recursive-descent evaluator and a counter/flag state model',
         'All well-formed expressions up to the stated number of tokens; operands from a finite alphabet.'),
}
checks = []
for p, (lvl, tech, note) in sorted(C.items()):
    checks.append({'property': p, 'quick_cmd': './run %s quick' % p, 'thorough_cmd': './run %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': lvl, 'level_note': note})
na = [{'property': 'C%02d' % i, 'reason': 'not covered: the check that crawls all produced links and ids was not built in the time available'} for i in range(1, 21) if 'C%02d' % i not in C]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Bounded exhaustive exploration of the real code against reference models; see DESIGN.md.'},
          open('MANIFEST.json', 'w'), indent=1)
