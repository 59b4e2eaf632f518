"""Writes MANIFEST.json from the table of claimed properties (vlib/props/*.py and NOTES below)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ specification checked with TLC; conformance by trace validation of recorded executions of the real code'
NOTES = {
    'C01': 'Lower/MC_Lower refines structured programs to jump programs (exhaustive small programs); every nesting shape to depth 3 and random '
           'programs executed by the real code and validated step by step against the structured machine (Machine, Trace_Run).',
    'C02': 'MC_Grammar (precedence climbing against the declarative definition, all short chains); every operator chain to length 3, every short token '
           'sequence, every character at every kind of place, random trees in any layout and edited texts: tree or error window against the character '
           'level grammar (Grammar, Trace_Expr).',
    'C03': 'Every operator over every pair of pool values, short-circuit and ordered evaluation with logging calls, random expressions; values '
           'matched against the typed operator semantics of Machine/Values/F64 (exact IEEE-754 arithmetic in TLA+).',
    'C04': 'MC_Scope (scoping and calling convention laws, exhaustive small programs); random programs over shadowed names, parameters, trailing '
           'array parameters, host globals and library overrides, executed and validated step by step with the final caller globals.',
    'C05': 'Library x argument matrix, failing and non-failing calls in and out of debug mode, error programs: only the documented outcomes of '
           'the machine are accepted, any other escaping exception or hang is a violation.',
    'C06': 'MC_Blocks (block discipline: no open block is accepted, exhaustive short line sequences); every short sequence of block lines, edited scripts, '
           'faults in every statement and column, long lines, arbitrary text: model items, error line, column window, caret and shift relation against '
           'Grammar (Trace_Parse).',
    'C07': 'MC_Labels (labels numbered by a shared counter are well formed in every nesting with functions inside, with a negative configuration); every '
           'nesting to depth 3 (4) with break/continue, in functions and between them, random deeper ones and user labels: label discipline, lint label '
           'warnings, run-time label errors and the published schema (Schema, Trace_Labels).',
    'C08': 'MC_Jump (jump level statement semantics, exhaustive small models); random hand-built and parsed jump-level models, executed and '
           'validated statement by statement, including re-execution of the same model object.',
    'C09': 'MC_Jump budget invariants; programs that run statements in every way (calls, callbacks, partials, data expressions, includes) '
           'executed under many limits: each run against the machine (statement counts) and against each other (Trace_Budget).',
    'C10': 'MC_Layout (layout rewrites preserve the reading, with a negative configuration); generated programs, shipped script pieces and expressions in many '
           'layouts, chunkings and line ends with other parses in between: layouts with one reading have one model (Grammar, Trace_Layout).',
    'C11': 'MC_Compare (laws of the value order, all triples of a universe of every type); universes of near-equal values of every type compared '
           'pairwise by systemCompare and the six operators, sorted, searched and reduced by the real code; every comparison, law and consumer validated.',
    'C12': 'MC_Spelling (normalising at the border simulates one number type, with negative configurations); every library function, operator, built-in '
           'and whole programs run with integral numbers held as int, float and mixed: runs equal (Trace_Spelling) and behaviours of the machine.',
    'C13': 'MC_Number (reading and rounding of decimal texts, with a negative configuration); doubles of every exponent, boundary and short-decimal numbers and '
           'whole scripts through every place that makes text of a number: the exact reader of the specification (F64 over big integers) reads the text back '
           'as the same double (Trace_Numbers).',
    'C14': 'MC_Json (writing and reading are inverse for every short text over JSON punctuation, with a negative configuration); every short string over JSON '
           'punctuation, every character, random trees, numbers and key sets in every indentation: the character-level reader of the specification (JSONRead) '
           'reads the same value back, keys in order and once (Trace_Json).',
    'C15': 'MC_Heap (shared containers against a history model, exhaustive short histories); library call histories over aliased arrays and '
           'objects, wrong-typed/missing/surplus/out-of-range arguments, every result and the whole heap validated after each call by the machine.',
    'C16': 'MC_Calendar and MC_Zone (calendar bijection, local time and offsets, with negative configurations); components in and out of range, every day of '
           'boundary years, ISO texts and instants around the changes of real time zones: exact calendar arithmetic and zone tables of the specification '
           '(Calendar, Zone, Trace_Datetime).',
    'C17': 'MC_Include (machine against direct recursive reading of the include tree); random include trees with relative, absolute, URL and '
           'system includes run through execute_script and the command line, fetch order and final globals validated.',
    'C18': 'MC_Lint (acting on a justified warning changes no run, exhaustive small programs); warnings of random, structured, edge and shipped '
           'models validated against the scope sets of Lint.tla, and the edited models executed against the originals.',
    'C19': 'MC_Tables (laws of the relational operators over all small tables, with negative configurations); random tables with colliding names, mixed keys and nulls '
           'through every data function, from scripts and from the host: exact relational operators (Data, Machine), statistics as exact rationals; typed tables '
           'written as CSV (CSV, MC_Csv) read back (Trace_Csv).',
    'C20': 'MC_Diff (the look-ahead rebuilds both sides for all short line lists; any way of taking blocks is accepted by the relation; with a negative '
           'configuration); diffLines run on all pairs of line lists up to renaming (sampled beyond seven lines in quick), random longer ones in every form of '
           'line ends, through execute_script and the command line: block lists walked through both sides (Diff, Trace_Diff); the shipped models against '
           'Schema and Lint (Trace_Shipped).',
}
PENDING = 'check under construction in this session'


def main():
    checks = []
    pending = []
    for i in range(1, 21):
        p = f'C{i:02d}'
        if p in NOTES and os.path.exists(os.path.join(HERE, 'vlib', 'props', p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': f'/opt/venv/bin/python check.py {p}',
                'thorough_cmd': f'VERIF_TIER=thorough /opt/venv/bin/python check.py {p}',
                'technique': TRACE,
                'level': 'model_checking',
                'level_note': NOTES[p],
            })
        else:
            pending.append({'property': p, 'reason': PENDING})
    manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup_check.py', 'checks': checks, 'not_applicable': pending}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
