"""Write DESIGN.md: the text below, with bounds and assumptions taken from
the check modules and the planted bugs from seeded/*/meta.json.
Run with /opt/venv/bin/python."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(V, 'mc'), '/repo', HERE]
from techniques import TECH  # noqa: E402

HEAD = '''# Model checking tomnor/channelpack

(Generated by `tools/gen_design.py`; the bounds are those the checks use.)

## Method

channelpack is a sequential, in-memory Python library with readers for text,
dbf, xls and xlsx files.  Its executions are determined by the history of
operations on packs, by the shape of the input files and by the answers of
the environment (I/O errors).  Those are what is enumerated.  Every check is
explicit-state exploration of the **real code** imported from /repo's working
tree (nothing is compiled, nothing is cached between runs):

* an alphabet (operations, records, cell kinds, fields, faults), a bound and
  an oracle are fixed per property;
* the whole bounded space is enumerated - breadth first with state hashing
  for packs (`mc/packmodel.py`), all words up to a length, all products, all
  permutations, all positions of a fault.  Nothing is sampled: `VERIF_SEED`
  only rotates the order in which work is handed to the worker processes;
* every element is executed through public entry points (ChannelPack methods,
  `textpack`, `lazy_textpack`, `dbfpack`, `sheetpack`, the vendored xlrd's
  `open_workbook`) and the result is compared with a reference model written
  from the documentation and the file format specifications, not from the
  code.  The model is bound to the code by construction: each model
  transition is executed in lockstep on the implementation and compared in
  every state, so every model trace *is* replayed against the implementation
  (`traces_validated` in the evidence equals the number of cases run);
* where a state space has a data dimension that is not finite (sizes), the
  exhaustive small scope is completed by *scale tasks*: listed sizes on both
  sides of every power of two, every block size and every format limit (up to
  70001 rows, 100001 elements, 65536 shared strings, 1048576 rows ...) times
  all listed patterns, and by *de Bruijn histories*: one long history that
  contains every pair (thorough: triple, quadruple) of operations, so faults
  that need many operations before they show are in scope too;
* evidence (`evidence/<id>.json`) reports states, transitions, traces and
  distinct outcomes; a violation is written as a replay file that
  `check.sh <ID> quick --replay FILE` executes again in isolation.

Layout: `check.sh` (entry), `mc/run.py` and `mc/core.py` (work distribution
over 8 processes, evidence, replay, known findings), models and file
generators (`packmodel`, `bigpack`, `textmodel`, `dbfmodel`, `gridmodel`,
`xlsgen`, `biffgen`, `xlsxgen`), one module `mc/cNN.py` per property.
A check exits 0/1; a crash of the harness itself exits 2.  An exception that
comes from the code under test where the model expects a value is a violation.
A quick check takes 3-25 s here, a thorough one 10 s to about 30 min.

What the family cannot do here: statements about all sizes are decided up to
the bounds only.  No property is listed as not applicable.

The checks judge behaviour: they use only documented attributes and functions
(plus `channelpack.pullxl`, `pulltext` and `pulldbf` helper functions where
the property names them), compare values and not identities or texts of
messages, and never look at source text.  No hooks are used in /repo; C23
substitutes `open`, `io.open`, `mmap.mmap` in the process of the check.

## Properties

Per property: what is enumerated (quick, and thorough where it differs), what
it is compared with, and why tests cannot settle it.
'''

# id -> (oracle, why)
TXT = {
'C01': ('packmodel: a pack is lists of values and a list of booleans; parts, filtered, nan and ignore reads are computed by list comprehension for every channel after every step, and the pack is compared before and after reading.',
        'parts are cached between calls; whether a cache is stale depends on the order of operations, of which tests have a handful.'),
'C02': ('the runs of a boolean list; required length = exact decimal product of duration and samplerate as written, compared as fractions.',
        'persistent mindur has to be reapplied by every operation that touches the mask, and the float product is wrong only for some pairs (0.29 x 100).'),
'C03': ('quantified definition: True at i iff not stop[i] and there is j<=i with start[j] and no stop in [j,i].',
        'a latch is a state machine; all words over its four inputs up to the bound are run, in 19 containers and kinds of truth values.'),
'C04': ('list of True of the length of the lowest key, minus short runs.',
        'depends on data types, insertion order of keys and every route that resets.'),
'C05': ('list concatenation; a deep snapshot of both packs where ValueError is due.',
        'partial failure leaves states no test looks at.'),
'C06': ('value semantics: each model pack owns copies; after each step all packs and all arrays the caller holds are compared.',
        'aliasing needs a transfer followed by a particular operation on either side.'),
'C07': ('the lookup rule as stated: data key, name, fallback pattern (fullmatch with ASCII digits), KeyError.',
        'names, prefixes and keys interact; all combinations are tried.'),
'C08': ('zip of the selected channels in key order.',
        'collisions between names and fallback names occur only for certain dicts.'),
'C09': ('a plain dict with the key/shape test in front.',
        'dict has many ways in; each is driven with every argument form, also several bad/good items in each order.'),
'C10': ('the table the text was written from.',
        'delimiters, decimal marks, header modes, column orders, sources, line ends interact; exhaustive product for small tables, and every character position and size edge.'),
'C11': ('the table and an explicit `textpack` read of the same file.',
        'the detection is heuristic; within the stated domain all small files are tried.'),
'C12': ('the records written by dbfmodel.',
        'layouts x deletion patterns are an exponential space with offsets depending on all of them.'),
'C13': ('restriction of the table and of the full read, compared with each other.',
        'skipping of unselected fields goes wrong only for certain orders and deletions.'),
'C14': ('slices of the generated grid.', 'corner combinations of start, stop, header and columns.'),
'C15': ('typing rules by counting kinds in a column.', 'type of a column depends on all of its cells and on their order; all columns to a length are run.'),
'C16': ('the grid; the xlsx package is written by xlsxgen with every encoding option.', 'ordering, missing addresses and sparse rows steer a stateful parser.'),
'C17': ('the grid; records written by xlsgen from the published layouts.', 'record order and number encodings (2^32 compressed numbers; all exponents and edges are run).'),
'C18': ('the strings.', 'every break position times every width choice: a state machine across records.'),
'C19': ('the same grid in every layout, plus the bare stream.', 'permutations of sectors and directory trees.'),
'C20': ('strict: an exception, or the cells of the undamaged file; termination by CPU and memory limits in a child process.', 'every field and every truncation of 17 documents; a test cannot try all of them.'),
'C21': ('calendar built by counting days one by one.', 'all 5.9 million days and every rounding edge of sampled days are run (the day domain is complete).'),
'C22': ('counting in bijective base 26.', 'domain complete for letters; the same numbering through five entry points.'),
'C23': ('accounting of every file object and descriptor opened during the call; identity of the error.', 'a fault at every single I/O operation, transient and persistent.'),
'C24': ('an independent tokenizer of number formats.', 'all short token strings and all style tables.'),
'C25': ('Python list slicing on the grid.', 'all start/end arguments on all small grids.'),
'C26': ('one grid.', 'full option product, all histories of loading and unloading.'),
'C27': ('the grid; records written by biffgen for BIFF2, 3, 4, 4W, 5, 7.', 'no test file of most of these versions exists.'),
'C28': ('packmodel with the refused operation as the identity.', 'each refusal in each reachable state, followed by observers and by further operations.'),
'C29': ('the annotations as encoded.', 'records steer the parser; all short sequences are run.'),
'C30': ('an evaluator of formulas over Python numbers, booleans, texts and areas.', 'all operand/operator pairs, chains, cycles and scopes.'),
'C31': ('the values encoded into the records from the published layouts.', 'bit fields: all values singly and in pairs show any shift, mask or overlap error.'),
'C32': ('the pack itself, after evaluating its printed form.', 'quoting, order and formatting characters interact.'),
'C33': ('the table the files were written from.', 'all orders of file kinds; state kept between readers or aliasing shows only in sequences.'),
'C34': ('the values encoded into the records and parts from the published layouts.', 'every order of the records: what is decoded early or late shows only in some.'),
'C35': ('the result of each piece of work run alone.', 'the one is left at every call and at lines and the other runs through; a trace function in the thread hands over at the chosen point, so every schedule is run exactly once and can be replayed. A schedule that cannot happen (the other waits for a lock) is given up after 2 s and both run to the end.'),
}

TAIL = '''
## Genuine defects found and repaired

All were found by the checks on the original tree, shown on the real code and
repaired in one `fix:` commit each in /repo (44 commits); the list with
commits is `known_findings.json` (`fixed`).  No known finding is left open.
{fixed}

## False alarms corrected

On the unchanged tree these turned out to be errors of the check, and the
model or the statement was corrected:

* C23: an error of `tell` while Python's own BufferedReader is set up is
  swallowed by Python; probing operations may fail if the complete data is
  delivered all the same.
* C12/C13: field names of more than 10 characters are cut in the file itself.
* C29: merged cells extend the dimensions of a sheet; COLINFO past column 256;
  a note record before its drawing object is not something Excel writes.
* C30: `&` of numbers that do not print plainly, unary plus of a boolean, and
  -0.0 are open in the documentation; an empty value is accepted there.
* C14: the dtype of a mixed column that starts with a float is left to numpy.
* C20: a chain that damage leads into an unread stream of exactly the missing
  length cannot be told from a sound one (statement narrowed); short streams
  whose recorded size is too small are accepted with a warning in the log.
* C01/C02/C03 thorough: histories that append a pack to itself doubled the
  list of file names at each step (memory of the harness, not of the code).
* C10 thorough: the space delimiter was combined with fields holding spaces.

## Outside the domain

Stated as assumptions of the checks, because documentation or format leave it
open: negative part numbers; writing into elements of arrays in place; ragged
text rows and header-only files; masks of another length than the data;
non-ASCII white space around text fields; names on keys without data (C07);
dbf deletion flags other than blank and `*`; empty sheets, ranges beyond the
sheet (C14); `<extLst>` inside a cell and duplicate relationship ids (C16);
4096-byte headers of version 4 compound documents, and directory trees deeper
than about 900 (they raise RecursionError) (C19); exact ties in rounding
(C21); formats mixing date letters and placeholders, elapsed time alone,
redefined built-in numbers (C24); negative single indexes (C25); multi-byte
codepages, several CODEPAGE records (C27); widths computed for BIFF2 (C29);
`result.text`, 0^0, ranges across sheets, relative references (C30); styles
whose parent or format does not exist (C31); the debugging aids `xlrd.dump`
and `count_records`.

## Planted bugs

`seeded/<id>/` holds bugs written from the statements and the code; each
builds, passes the stable tests and has a demonstration.  Every one is caught
by the quick check of its property:

| planted bug | caught by | needs |
|---|---|---|
{seeds}

Beyond these, several hundred one-line changes of all modules were tried in
scratch copies (`pack.py`, `pulltext.py`, `pulldbf.py`, `pullxl.py`,
`datautils.py`, `xlrd/*`) in repeated rounds; those that pass the tests,
break a statement and were missed led to the scale tasks, the de Bruijn
histories, the complete value domains (C12, C13, C15, C17, C31), C28 to C35,
and the layouts with holes (C19).  What stays undetected was judged to be
equivalent, or outside the domain listed above.
'''


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    out = [HEAD]
    for p in props:
        i = p['id']
        m = importlib.import_module(i.lower())
        q, t = m.bounds('quick'), m.bounds('thorough')
        q, t = (x.split(': ', 1)[1] if x.startswith(('quick: ', 'thorough: '))
                else x for x in (q, t))
        out.append('### %s %s' % (i, p['title']))
        out.append('- Technique: %s (`mc/%s.py`).' % (TECH[i][1], i.lower()))
        out.append('- Explored, quick: %s.' % q)
        if t != q:
            out.append('- Explored, thorough: %s.' % t)
        out.append('- Oracle: ' + TXT[i][0])
        out.append('- Beyond tests: ' + TXT[i][1])
        out.append('- Assumes: %s.' % '; '.join(m.ASSUMPTIONS))
        out.append('')
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    fixed = '\n'.join('* ' + f.replace('fixed: property=', '') for f in kf['fixed'])
    seeds = []
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        f = os.path.join(V, 'seeded', d, 'meta.json')
        if os.path.exists(f):
            s = json.load(open(f))
            seeds.append('| %s | %s | %s |' % (d, s['property'], s['needs']))
    out.append(TAIL.replace('{fixed}', fixed).replace('{seeds}', '\n'.join(seeds)))
    with open(os.path.join(V, 'DESIGN.md'), 'w') as fo:
        fo.write('\n'.join(out))


if __name__ == '__main__':
    main()
