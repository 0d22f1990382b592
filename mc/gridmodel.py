"""The grid a worksheet stands for, and comparison with a real sheet.

A grid is a dict (row, col) -> (cell type, value); everything else is empty.
"""
import io
from core import expect
from channelpack import xlrd

EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK = range(7)


def open_bytes(content, **kw):
    kw.setdefault('logfile', io.StringIO())
    return xlrd.open_workbook(file_contents=content, **kw)


def dims(grid):
    return (max((r for r, _ in grid), default=-1) + 1,
            max((c for _, c in grid), default=-1) + 1)


def same_value(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and
                                       isinstance(b, (int, float))):
        return False
    if isinstance(a, float) and isinstance(b, float):
        return repr(a) == repr(b)
    return a == b


def check_sheet(sh, grid, what, ragged=False, size=None):
    """size: dimensions to expect when they are not those of the grid."""
    nr, nc = size or dims(grid)
    expect((sh.nrows, sh.ncols) == (nr, nc),
           '%s: dimensions (%d, %d), should be (%d, %d)', what, sh.nrows,
           sh.ncols, nr, nc)
    for r in range(nr):
        n = nc
        if ragged:
            n = max((c for rr, c in grid if rr == r), default=-1) + 1
        vals, typs = sh.row_values(r), list(sh.row_types(r))
        if ragged:
            expect(len(vals) == n or len(vals) > n and not any(typs[n:]) and
                   (nr, nc) != dims(grid),
                   '%s: row %d is %r, should have %d cells', what, r, vals, n)
            vals, typs = vals[:n], typs[:n]
        expect(len(vals) == n and len(typs) == n,
               '%s: row %d has %d values and %d types, should be %d', what, r,
               len(vals), len(typs), n)
        for c in range(n):
            ty, v = grid.get((r, c), (EMPTY, ''))
            expect(typs[c] == ty and same_value(vals[c], v),
                   '%s: cell (%d, %d) is type %d value %r, should be type %d '
                   'value %r', what, r, c, typs[c], vals[c], ty, v)


def rows_of(sh):
    return [(sh.row_values(r), list(sh.row_types(r)))
            for r in range(sh.nrows)]
