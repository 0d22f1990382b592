#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (run by hand after editing the table)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


PK = 'channelpack/pack.py'
DU = 'channelpack/datautils.py'
RT = 'channelpack/readtext.py'
DB = 'channelpack/dbf.py'
RX = 'channelpack/readxl.py'
XL = 'channelpack/xlrd/'

prop('C01', 'Every way of reading a channel agrees with the current mask',
     'After any sequence of mask, minimum-duration, trigger, reset, data and '
     'append operations, the parts of a pack are exactly the maximal True '
     'runs of its current mask in order, reading a part gives exactly that '
     'run of the channel, a filtered read gives the elements where the mask '
     'is True, a nan read gives the full length with nan (numeric) or None '
     '(other types) where it is False, and an ignore read gives everything. '
     'The nof setting, the nof argument and the part argument take '
     'precedence in the documented order (part, then argument, then '
     'setting), and a part number out of range raises IndexError. '
     'Reading never changes the pack.',
     ['histories', 'inputs'],
     'all operation histories on a pack, all masks, all data types',
     'Tests set a handful of masks on fixed packs; the claim is about every '
     'interleaving of mask-changing operations with reads, where a stale '
     'list of parts shows up only after particular sequences.',
     [PK, DU],
     [('cached part list refreshed on mask assignment', PK + ' ChannelPack.__setattr__, _slicelist'),
      ('reads', PK + ' ChannelPack.__call__, parts'),
      ('run finding and nan masking', DU + ' slicelist, masked')],
     'pack(ch, part, nof), pack.parts(), pack.mask')

prop('C02', 'Minimum/maximum duration keeps exactly the runs long enough',
     'Requiring a duration keeps precisely the True runs of the mask whose '
     'number of elements is at least (or, on request, at most) duration '
     'times samplerate and falsifies the other runs completely, never '
     'turning a False element True. When the persistent minimum duration is '
     'set, this also holds immediately and after every later assignment, '
     'reset or trigger operation on the mask, until it is cleared; clearing '
     'it does not change the mask.',
     ['histories', 'inputs'],
     'all masks, durations, samplerates and histories that set, clear and '
     'exercise the persistent duration',
     'Tests use one or two masks; persistence is a temporal property over '
     'every later mask update.',
     [PK],
     [('duration filter', PK + ' ChannelPack.duration'),
      ('persistent attribute hook', PK + " ChannelPack.__setattr__ 'mindur', 'mask'")],
     'pack.mask, pack.parts()')

prop('C03', 'Start/stop triggering behaves as a latch dominated by stop',
     'For any start and stop sequences the trigger result is True at an '
     'element exactly when stop is not true there and the most recent '
     'true stop (if any) is older than some true start at or before it, '
     'with length that of the shorter sequence and boolean type. Applying it '
     'ands the result into the current mask; not applying it leaves the pack '
     'unchanged.',
     ['inputs', 'histories'],
     'all start/stop sequences and all prior masks, including repeated '
     'application and an active minimum duration',
     'The doc example and a few tests sample one descend; the latch has '
     'state, so every pattern of starts and stops matters.',
     [PK, DU],
     [('latch', DU + ' startstop_bool'), ('application', PK + ' ChannelPack.startstop')],
     'return value and pack.mask')

prop('C04', 'A fresh or reset mask is all True, boolean and as long as the data',
     'On construction, on assigning a new dict of data (including the data '
     'of another pack), on appending and on mask reset, the mask becomes a '
     'boolean array as long as the channel with the lowest key, all True '
     'whatever the values are (nan, None, text, dates included), empty for '
     'an empty pack, apart from runs removed by an active minimum duration.',
     ['inputs', 'histories'],
     'all data dicts (types, lengths, key sets) and all histories of data '
     'assignment, append and reset',
     'Tests reset masks of packs with plain finite numbers only.',
     [PK],
     [('reset', PK + ' ChannelPack.mask_reset'), ('data assignment', PK + " ChannelPack.__setattr__ 'data'")],
     'pack.mask')

prop('C05', 'Appending packs concatenates, or fails leaving both unchanged',
     'Appending another pack concatenates every channel in order, extends '
     'the list of filenames with the other\'s, keeps the receiver\'s names '
     '(or adopts the other\'s when it has none), adopts data and names when '
     'the receiver is empty and resets the mask, leaving the other pack '
     'unchanged. If the non-empty data or names dicts have different key '
     'sets, ValueError is raised, and whenever an append fails both packs '
     'are exactly as before.',
     ['histories', 'inputs'],
     'all key-set combinations and all chains of appends among packs, '
     'including appending a pack to itself',
     'Tests append two or three matching packs; they never look at the '
     'state after a refused append.',
     [PK],
     [('append', PK + ' ChannelPack.append_pack')],
     'data, names, filenames, mask of both packs')

prop('C06', 'Packs are independent of each other',
     'Operating on one pack (appending, setting data, names, mask, '
     'duration, trigger, filename, mutating its dicts) never changes what '
     'another pack reports, also when packs were built from, appended from '
     'or assigned from one another, and masking operations never write into '
     'an array supplied by the caller.',
     ['histories'],
     'all histories over two or three packs that exchange data, names and '
     'masks and are then operated on individually',
     'Aliasing only shows after a transfer followed by an operation on one '
     'side; tests never combine the two.',
     [PK],
     [('transfer of dicts', PK + ' ChannelPack.append_pack, __init__, __setattr__'),
      ('in-place mask updates', PK + ' ChannelPack.duration, startstop')],
     'all observable state of every pack')

prop('C07', 'A channel reference resolves to the documented channel or KeyError',
     'An integer refers to that data key only; a string refers to the data '
     'key whose name equals it, and otherwise, if it is exactly the fallback '
     'prefix followed by digits, to the data key with that number; anything '
     'that does not end at a key in data raises KeyError. The name of a '
     'channel, its first word, its regex part and its fallback name are '
     'computed from that same key.',
     ['inputs', 'configurations'],
     'all data key sets, name assignments (duplicates, names that look like '
     'fallbacks, names without data), prefixes and reference strings',
     'Tests use a few well behaved names.',
     [PK],
     [('resolution', PK + ' ChannelPack._datakey'), ('names', PK + ' ChannelPack.name')],
     'pack(ch), pack.name(ch, ...)')

prop('C08', 'Records are the rows of the selected channels in key order',
     'Iterating the records of a pack yields one tuple per selected row, '
     'with one field per name in key order (or per data key with fallback '
     'naming), each holding the value of exactly that key\'s channel under '
     'the same part/nof selection as a channel read. With names that are not '
     'valid identifiers ValueError is raised, and with fallback naming the '
     'data is independent of what the names dict contains.',
     ['inputs', 'configurations'],
     'all name dicts (including names equal to other channels\' fallback '
     'names), masks, parts and nof settings',
     'Tests iterate records of a pack or two with ordinary names.',
     [PK],
     [('records', PK + ' ChannelPack.records')],
     'list(pack.records(...))')

prop('C09', 'Data and names dicts hold only integer keys and flat arrays',
     'By whatever dict operation entries are added (construction, item '
     'assignment, update with a dict, mapping, iterable or iterator of '
     'pairs, setdefault, in-place merge), the data dict of a pack holds only '
     'integer keys with one-dimensional arrays and the names dict only '
     'integer keys, with contents equal to those a plain dict would have. '
     'An operation with a non-integer key raises TypeError and one with '
     'non-flat data ValueError, leaving the dict as it was.',
     ['histories', 'inputs'],
     'all dict mutation routes, all shapes of arguments, all prior contents',
     'Tests try a few constructor shapes and do not cover iterators, '
     'mappings, setdefault results or in-place merge.',
     [PK],
     [('integer keys', PK + ' IntKeyDict'), ('flat arrays', PK + ' NpDict')],
     'pack.data, pack.names as dicts')

prop('C10', 'Delimited text is read cell for cell into the right channel',
     'In a rectangular table, every field of every data line after the '
     'skipped rows ends up in the '
     'channel with its 0-based column number and at its row position: as the '
     'equal float for numeric columns (decimal point or decimal comma), nan '
     'for empty fields of numeric columns, the exact text otherwise '
     '(stripped or decoded on request) or the converter\'s value, with field '
     'names taken from the names argument or the header line, and only the '
     'requested columns present. The result is the same for a path, a text '
     'stream or a byte stream (read from its current position), for any '
     'order of the requested columns, and with or without debug.',
     ['inputs', 'configurations'],
     'all small tables of numbers, text and missing fields, all delimiters '
     'and option combinations, all kinds of source',
     'Tests read a dozen fixed strings and files; the claim is over the '
     'product of table contents, options and sources.',
     [RT],
     [('line splitting and conversion', RT + ' linetuples'),
      ('option handling', RT + ' textpack'), ('sources', RT + ' contextopen')],
     'textpack(...) data, names, fn')

prop('C11', 'Lazy reading finds what an explicit read would',
     'For a numeric data file, with an optional free-text preamble without '
     'digits and an optional line of field names, with one delimiter used '
     'consistently and an unambiguous decimal mark, lazy reading finds '
     'delimiter, decimal mark, start of data and field names by itself and '
     'gives the same pack as an explicit read; keyword arguments given by '
     'the caller override the derived ones. The same holds whether the '
     'source is a path, a text stream or a byte stream, and whether or not '
     'the file is longer than the number of lines inspected.',
     ['inputs', 'configurations'],
     'all canonical numeric files (digits on both sides of a decimal comma, '
     'no digits above the data, the decimal mark recognisable on the last '
     'inspected line) over the delimiters, decimal marks, header shapes, '
     'sizes and sources in the bounds',
     'Tests have a handful of example files; the derivation is a heuristic '
     'over counts of numbers and separators per line.',
     [RT],
     [('derivation', RT + ' preparse'), ('reading', RT + ' lazy_textpack')],
     'lazy_textpack(...) data, names')

prop('C12', 'A dbf file is read record for record with correct types',
     'All and only the non-deleted records of a dbf file appear, in file '
     'order, one channel per field numbered and named in field order, with '
     'integer or decimal numbers, floats, dates, logicals (T, F or ?) and '
     'text converted by field type and missing values as nan or None. This '
     'holds for any field layout, record values and pattern of deleted '
     'records, read from a path or from a stream at its current position.',
     ['inputs'],
     'all small field layouts, values including missing ones and deletion '
     'patterns',
     'Tests read three sample files without deleted records in interesting '
     'places.',
     [DB],
     [('full reader', DB + ' dbfreader'), ('entry point', DB + ' dbfpack')],
     'dbfpack(...) data, names')

prop('C13', 'Reading selected dbf fields equals selecting after a full read',
     'Reading a dbf file with a list of field names gives exactly the '
     'channels, with the same keys, names and values, that a read of the '
     'whole file gives for those fields, whatever the order in which they '
     'are requested and wherever deleted records lie.',
     ['inputs', 'configurations'],
     'all field layouts, deletion patterns and subsets/orders of names',
     'The selecting reader is a separate seek-based implementation; tests '
     'compare it on one file without deletions.',
     [DB],
     [('selecting reader', DB + ' dbfrecords'), ('entry point', DB + ' dbfpack')],
     'dbfpack(..., names) versus dbfpack(...)')

prop('C14', 'A sheet range is mapped to channels by its cell addresses',
     'Reading a spread sheet range gives one channel per requested column, '
     'keyed by the 0-based sheet column number, holding the values of the '
     'rows from the start cell (or the first row) to the stop cell (or the '
     'last row) inclusive, minus the header row when the range includes it, '
     'with names from the header row or the given header address. Columns '
     'requested as a string of letters and ranges or as numbers are '
     'equivalent, and columns outside the range raise ValueError.',
     ['inputs', 'configurations'],
     'all start/stop/header/column-selection combinations on small sheets, '
     'sheets chosen by index or name, xls and xlsx',
     'Tests read a few ranges of one or two files.',
     [RX],
     [('ranges', RX + ' sheetpack, cellreference, normalize_usecols'),
      ('columns', RX + ' sheet_columns')],
     'sheetpack(...) data, names, fn')

prop('C15', 'Sheet columns get consistent types and missing values',
     'A column whose cells in the range are only numbers and missing cells '
     'becomes numeric with nan for missing; one of only text and missing '
     'cells becomes text with empty strings for missing; any other mix '
     'keeps each value with dates as datetimes of the workbook\'s date '
     'system, booleans as bool and None for missing. Missing means empty, '
     'blank or error cells.',
     ['inputs'],
     'all columns up to a length over all cell types, both date systems, '
     'xls and xlsx',
     'Tests have a few mixed columns in sample files.',
     [RX],
     [('typing', RX + ' sheet_columns')],
     'sheetpack(...) data')

prop('C16', 'An xlsx sheet is read the same however its cells are encoded',
     'The grid read from an xlsx worksheet holds, at each addressed '
     'position, exactly the stored value and type (shared, inline or '
     'formula strings with rich text concatenated, numbers, booleans, '
     'errors, dates by style), empty elsewhere, with the smallest '
     'dimensions covering all cells and merged areas. It does not depend on rows or cells '
     'being omitted, listed out of order, stored without addresses, or on '
     'the presence or value of the declared dimension.',
     ['inputs'],
     'all small sparse grids, cell kinds, orders and representations',
     'Tests use files written by Excel with cells in order and complete '
     'addresses.',
     [XL + 'xlsx.py', XL + 'sheet.py'],
     [('cell parsing', XL + 'xlsx.py X12Sheet.do_row, X12SST'),
      ('grid growth', XL + 'sheet.py put_cell, extend_cells, tidy_dimensions')],
     'open_workbook(...).sheet cell values and types')

prop('C17', 'Every xls cell record kind yields the stored value',
     'Each kind of cell record in an xls worksheet (number, compressed '
     'number, multi-cell, label, shared string, blank, boolean, error and '
     'formula results) is read as the value and type it encodes, at its own '
     'row and column and nowhere else, in whatever order and combination '
     'the records occur. A number compressed in any of the four encodings '
     'equals the number it stands for.',
     ['inputs'],
     'all record kinds and small sequences of them, all four compressed '
     'encodings over boundary values',
     'Tests read sample files that contain only the record mix Excel wrote.',
     [XL + 'sheet.py'],
     [('record dispatch', XL + 'sheet.py Sheet.read'),
      ('compressed numbers', XL + 'sheet.py unpack_RK')],
     'open_workbook(...).sheet cell values and types')

prop('C18', 'xls strings survive every split across records',
     'The shared strings and formula string results of an xls workbook are '
     'read back exactly as written, whatever their character width, rich '
     'text runs and phonetic data, and wherever the table is broken over '
     'continuation records, including a change of character width at the '
     'break.',
     ['inputs'],
     'all legal split positions and all width choices for small tables of '
     'strings including characters outside the basic plane',
     'Sample files are far too small to force continuation records; the '
     'split logic is a state machine over positions.',
     [XL + 'book.py', XL + 'sheet.py'],
     [('shared strings', XL + 'book.py unpack_SST_table'),
      ('formula strings', XL + 'sheet.py Sheet.string_record_contents')],
     'open_workbook(...).sheet cell values')

prop('C19', 'Workbook content does not depend on compound-file layout',
     'An xls workbook reads identically for every way its stream can be '
     'laid out in the compound document: any order and gaps of sectors, '
     'short-stream or regular storage, directory order, extended sector '
     'allocation, a last sector that is not filled up, bytes after it, '
     'or as a bare stream without a compound document.',
     ['inputs'],
     'all sector permutations and storage choices for small documents',
     'Files written by Excel have one (mostly sequential) layout.',
     [XL + 'compdoc.py'],
     [('sector chains', XL + 'compdoc.py CompDoc._get_stream, locate_named_stream, _locate_stream'),
      ('directory', XL + 'compdoc.py CompDoc.__init__')],
     'open_workbook(...) cell values')

prop('C20', 'A damaged workbook file is refused, never looped on or misread',
     'Opening a compound document whose allocation tables, sector chains or '
     'directory have been damaged or which has been truncated always '
     'terminates, either with an exception or with the content of the '
     'undamaged file; it never runs forever or exhausts memory and never '
     'delivers other cell values without a warning in its log (which it '
     'may for a short stream that is shorter than its recorded size). A '
     'chain that damage leads into another, unread stream of exactly the '
     'missing length cannot be told from a sound one and is excluded.',
     ['fault_sequences', 'inputs'],
     'every single allocation-table entry set to every other value '
     '(cycles, cross links, out of range, special marks), every truncation '
     'point at sector granularity, every directory start/size change',
     'Only a few damaged samples exist as tests; a cycle needs a specific '
     'entry to hold a specific value.',
     [XL + 'compdoc.py', XL + 'book.py'],
     [('bounds and double-use checks', XL + 'compdoc.py CompDoc')],
     'open_workbook(...) result or exception')

prop('C21', 'Excel dates convert exactly and invertibly in both date systems',
     'Every serial number in the valid range converts to the calendar date '
     'and time Excel shows for it in the 1900 and 1904 date systems '
     '(to the second for tuples, to the millisecond for datetimes, rounding '
     'over midnight included) and every valid date and time converts '
     'back to the same serial number. Conversion to a tuple rejects serials '
     'that are negative, ambiguous or too large, and conversion to a serial '
     'number rejects invalid calendar dates.',
     ['inputs'],
     'all days of both date systems and all seconds of a day around every '
     'rounding edge',
     'Tests sample about twenty dates.',
     [XL + 'xldate.py'],
     [('conversion', XL + 'xldate.py xldate_as_tuple, xldate_as_datetime, xldate_from_*')],
     'return values and exceptions')

prop('C22', 'Column letters and numbers are the same bijection everywhere',
     'Column letters, in any case, convert to the column number they stand '
     'for in bijective base 26, column numbers convert back to the same '
     'letters, and cell addresses, column-selection strings and workbook '
     'parsing all agree on that numbering over the whole range of columns.',
     ['inputs'],
     'all column letters up to XFD (16384) and beyond to three letters, '
     'and all rows in bounds',
     'Tests check a dozen letters.',
     [RX, XL + 'formula.py', XL + 'xlsx.py'],
     [('letters to number', RX + ' letter2num, normalize_usecols, cellreference'),
      ('number to letters', XL + 'formula.py colname, cellname'),
      ('addresses in xlsx', XL + 'xlsx.py cell_name_to_rowx_colx')],
     'return values; sheetpack on generated sheets')

prop('C23', 'Files opened by a reader are closed, streams of the caller are not',
     'Whatever I/O or parse error occurs at whatever point of reading, a '
     'file that a reader opened itself from a path is closed when the call '
     'returns or raises, a stream passed in by the caller stays open, and '
     'the error reaches the caller instead of a pack with partial data.',
     ['fault_sequences'],
     'a fault injected at every single I/O operation of every reader',
     'Tests inject no I/O errors.',
     [RT, DB, RX, XL + '__init__.py'],
     [('context manager', RT + ' contextopen'),
      ('workbook resources', XL + '__init__.py open_workbook, book.py release_resources')],
     'open file descriptors after the call; exception raised')

prop('C24', 'A number is a date exactly when its number format says so',
     'In xls and xlsx alike, a numeric cell is reported as a date if and '
     'only if the format of its cell style is one of the built-in date '
     'formats or a custom format whose unquoted, unescaped, unbracketed '
     'text shows date or time parts (fractions of a second included); the classification of one cell does '
     'not depend on which other styles and formats exist in the workbook or '
     'in which order.',
     ['inputs', 'configurations'],
     'all built-in format numbers, all short custom format strings over '
     'an alphabet of format tokens, all small style tables',
     'Tests try a few format strings.',
     [XL + 'formatting.py', XL + 'xlsx.py'],
     [('classification', XL + 'formatting.py is_date_format_string'),
      ('style mapping', XL + 'formatting.py handle_xf, xlsx.py X12Styles')],
     'cell types of opened workbooks')

prop('C25', 'All accessors of a sheet describe the same grid',
     'For any sheet, the row, column, cell, slice, length and iteration '
     'accessors report values and types of one and the same grid for all '
     'start and end arguments, including negative, open and out-of-range '
     'ends with ordinary slice meaning; with ragged rows each row is the '
     'unpadded prefix of that grid. With formatting information the format '
     'index of a cell is its own or else that of its row, its column or '
     'the default.',
     ['inputs', 'configurations'],
     'all small sparse grids and all start/end arguments',
     'Tests call a few accessors with a few arguments.',
     [XL + 'sheet.py'],
     [('accessors', XL + 'sheet.py Sheet.row, col, row_slice, col_slice, ...')],
     'accessor results')

prop('C26', 'Opening options do not change the cells that are read',
     'The cell values and types of a workbook are the same whether it is '
     'opened from a path or from its bytes, memory mapped or not, eagerly '
     'or (xls) on demand in any order of loading and unloading sheets, with '
     'ragged rows or not, and with formatting information or not (which '
     'only adds blank cells).',
     ['configurations', 'histories'],
     'all combinations of options and all short histories of sheet loading, '
     'unloading and access',
     'Tests use one option set per file and hardly any on-demand histories.',
     [XL + '__init__.py', XL + 'book.py', XL + 'sheet.py'],
     [('opening', XL + '__init__.py open_workbook'),
      ('on demand', XL + 'book.py Book.get_sheet, unload_sheet')],
     'cell values and types')

prop('C27', 'Workbooks of every older xls version yield what they store',
     'A workbook in any of the supported xls versions before BIFF8 (BIFF 2, '
     '3, 4, 4 workbooks, 5 and 7) is read with the values and types its cell '
     'records hold, at their positions, with text and sheet names decoded by '
     'the codepage of the file (Latin-1 without one, or the encoding given '
     'by the caller), numbers told from dates by the formats and styles of '
     'that sheet or book, and its date system; several sheets in one file '
     'do not affect each other.',
     ['inputs', 'configurations'],
     'all record kinds of each version, short record sequences, format and '
     'style tables, codepages and books of several sheets',
     'The tests hold a couple of old files with one content each.',
     [XL + 'book.py', XL + 'sheet.py', XL + 'formatting.py',
      XL + 'biffh.py'],
     [('versions', XL + 'book.py Book.getbof, fake_globals_get_sheet, '
       'handle_sheethdr, derive_encoding'),
      ('records', XL + 'sheet.py Sheet.read, fixed_BIFF2_xfindex'),
      ('styles', XL + 'formatting.py handle_format, handle_xf')],
     'cell values, types, sheet names')

prop('C28', 'A refused operation raises and leaves the packs unchanged',
     'An operation a pack has to refuse raises the documented kind of error '
     'and changes nothing: an invalid nof or nested data is a ValueError; a '
     'mask that is no array, a mindur that is no integer, a fn or '
     'FALLBACK_PREFIX that is no string, and data or names with keys that '
     'are no integers are a TypeError; deleting a core attribute is an '
     'AttributeError; an unknown channel is a KeyError, a part that does not '
     'exist an IndexError, appending a pack with other data or name keys a ValueError. '
     'After it every pack reports the same data, names, mask, settings and '
     'parts as before, and later operations work as if it never happened.',
     ['histories'],
     'every refused operation in every state reachable by short histories, '
     'and pairs of refused operations',
     'Tests check that some of the errors are raised, not what the pack is '
     'like afterwards or in which state it was before.',
     ['channelpack/pack.py'],
     [('validation', 'channelpack/pack.py ChannelPack.__setattr__, '
       '__delattr__, IntKeyDict, NpDict'),
      ('refusals', 'channelpack/pack.py ChannelPack.append_pack, __call__, '
       'name, records')],
     'exceptions, data, names, masks, parts and settings of all packs')

prop('C29', 'Annotations of a sheet belong to their cells and leave the '
     'cells alone',
     'Whatever else a worksheet carries besides cells - notes, hyperlinks, '
     'merged ranges, page breaks, label ranges, rich text, row and column '
     'information, panes and view settings, visibility of the sheets, '
     'drawings, embedded charts, '
     'conditional formats, unknown records - the cells are read with the '
     'same values, types and positions, and each of these is reported as '
     'stored, at its own cells and in its own sheet: a note with its text, '
     'author and flags, a hyperlink over exactly its rectangle (the last '
     'one wins) with its target, ranges with exclusive upper limits, the '
     'width of a column by the precedence the documentation gives.',
     ['inputs', 'configurations'],
     'all short sequences of such records around the cells of one to three '
     'sheets, all ways to cut and store a note text, all hyperlink options '
     'and pairs of rectangles, products of width and zoom records, in xls '
     'of all versions and xlsx',
     'Tests read a handful of files with one or two annotations each.',
     [XL + 'sheet.py', XL + 'xlsx.py', XL + 'biffh.py'],
     [('records', XL + 'sheet.py Sheet.read, handle_note, handle_txo, '
       'handle_obj, handle_hlink, handle_quicktip, computed_column_width'),
      ('xlsx', XL + 'xlsx.py X12Sheet.process_rels, '
       'process_comments_stream, do_merge_cell')],
     'cells, cell_note_map, hyperlink_list, hyperlink_map, merged_cells, '
     'settings of opened sheets')

prop('C30', 'Defined names never hinder reading and refer to their own '
     'cells',
     'Whatever formulas the defined names of an xls (Excel 5 to 2003) or '
     'xlsx workbook have - references, constants, operators, functions, '
     'other names in any order, circular ones, errors, other files, deleted '
     'sheets - the workbook opens and its cells are read. Every name is '
     'listed in file order with its name, flags and scope (a worksheet '
     'index also when there are chart or macro sheets) and found under '
     'name_map and name_and_scope_map. A name that is an absolute reference '
     'gives exactly its areas, and through cell() and area2d() the cell or '
     'the area, clipped to the sheet or not, of the right sheet; any other '
     'name is refused there with XLRDError. A constant formula has its '
     'value; where evaluation has a problem there is no value rather than '
     'a wrong one. An xlsx name has its formula text.',
     ['inputs', 'configurations'],
     'all operators over an alphabet of operands of every kind, directly or '
     'through another name defined before or after, choices, reference '
     'operators, chains and cycles of names, all scopes and flags in books '
     'with other kinds of sheets',
     'Tests read two files with names.',
     [XL + 'formula.py', XL + 'book.py', XL + 'xlsx.py'],
     [('evaluation', XL + 'formula.py evaluate_name_formula'),
      ('names', XL + 'book.py Name, handle_name, names_epilogue, '
       'handle_externsheet, handle_supbook'),
      ('xlsx', XL + 'xlsx.py do_defined_name, make_name_access_maps')],
     'name_obj_list, name_map, name_and_scope_map, Name.result, cell(), '
     'area2d()')

prop('C31', 'The formatting of an xls workbook is reported as stored',
     'Opened with formatting_info, a workbook of any xls version (Excel 2.0 '
     'to 2003) reports its formatting exactly as stored: for the style of '
     'every cell its font, number format, protection, alignment, borders, '
     'background, parent and which parts are its own; for every font its '
     'height, weight, colour, name and other attributes under its number '
     '(number 4 does not exist); number formats under their numbers, '
     'standard formats where the file has none of its own; the palette over '
     'the default colours; named styles with their style numbers; the '
     'colour of grid lines as the nearest one of the palette. No field '
     'affects another one, whatever the values and the unused bits.',
     ['inputs', 'configurations'],
     'each bit field of the style and font records of every version over '
     'all its values with the others all zero and all one, pairs of '
     'fields, unused bits, all palette sizes, named styles, format strings '
     'of all lengths, up to 4096 styles and thousands of fonts',
     'Tests look at a few attributes in one or two files of one version.',
     [XL + 'formatting.py', XL + 'book.py', XL + 'sheet.py'],
     [('records', XL + 'formatting.py handle_xf, handle_font, handle_efont, '
       'handle_format, handle_palette, handle_style, fill_in_standard_formats'
       ', nearest_colour_index'),
      ('BIFF2', XL + 'sheet.py fake_XF_from_BIFF20_cell_attr, '
       'fixed_BIFF2_xfindex')],
     'xf_list, font_list, format_map, format_list, colour_map, '
     'palette_record, style_name_map of opened books')

prop('C32', 'The printed form of a pack creates an equal pack',
     'The text that repr() and str() give for a pack, evaluated with '
     'ChannelPack and the array function of numpy, creates a pack with the '
     'same keys, the same values of the same kind in every channel and the '
     'same names, listed in ascending key order, whatever types the '
     'channels have, whatever characters names and values contain and in '
     'whatever order entries were added (as far as numpy prints the arrays '
     'in full). It does not depend on mask or nof and does not change the '
     'pack.',
     ['inputs'],
     'all value kinds, keys in all orders, all pairs of awkward names, '
     'lengths to 1000, hundreds of channels',
     'Tests print two packs; order, quoting and formatting characters in '
     'names and values are not sampled.',
     [PK],
     [('representation', PK + ' ChannelPack.__repr__')],
     'repr(pack), str(pack)')

prop('C33', 'Packs from files of any kind are ordinary and equal packs',
     'The same table of numbers and text with field names, stored as '
     'delimited text, dbf, xls (old and new) or xlsx, is read by textpack, '
     'lazy_textpack, dbfpack and sheetpack into packs with the same keys, '
     'names and channel values, missing numbers as nan, an all True mask, '
     'no nof or mindur setting, and the path in fn and as the only one of '
     'filenames. Packs read from several files are independent, and '
     'appended to one another in any order they give the concatenated '
     'table with the list of their paths, read by part, filter or records '
     'like any other pack.',
     ['inputs', 'histories'],
     'all layouts of up to 3 columns, all sequences of 2 and 3 file kinds',
     'Each reader is tested by itself on one or two files; that they agree '
     'and combine is not tested.',
     [PK, RT, DB, RX],
     [('text', RT + ' textpack, lazy_textpack'), ('dbf', DB + ' dbfpack'),
      ('sheets', RX + ' sheetpack'),
      ('combination', PK + ' ChannelPack.append_pack')],
     'packs returned by the factory functions')

prop('C34', 'What a workbook says about itself is reported as stored',
     'Opening an xls workbook of any version reports the version in '
     'biff_version, the code page and a usable encoding, the date mode '
     '(0 when not stated), the user name without trailing blanks, decoded '
     'by the code page (also when the name comes first, Excel 5 on, and as '
     'text when no code page is stated), '
     'and the country codes, stated in the globals or in the sheets, (0, 0) '
     'when not stated. An xlsx workbook reports date1904 in datemode, '
     'creator, last modifier, creation and modification stamps of its core '
     'properties in props and the last modifier, else the creator, as user '
     'name, whatever the order of properties, prefixes or parts and case of '
     'part names. The order of records and the open options make no '
     'difference and the cells are read alike.',
     ['inputs'],
     'all orders of the records, all versions, code pages and a list of '
     'names; all subsets and orders of the core properties',
     'The tests compare the user name and countries of one or two files.',
     [XL + 'book.py', XL + 'xlsx.py', XL + 'sheet.py'],
     [('records', XL + 'book.py handle_writeaccess, handle_codepage, '
       'handle_country, handle_datemode, derive_encoding'),
      ('core properties', XL + 'xlsx.py process_coreprops, do_workbookpr')],
     'attributes of xlrd.book.Book')

prop('C35', 'Readers and packs used at the same time do not affect each other',
     'Reading a text, dbf, xls or xlsx file, opening a workbook, operating '
     'on a pack or converting dates gives the same result (or error) when '
     'another file is read, another workbook opened or another pack '
     'operated on at the same time, in a second thread or between the steps '
     'of a record iteration: the objects share nothing and neither do the '
     'functions. Several iterations over records of one pack or several '
     'can be interleaved in any order and each yields its own records. A '
     'file written again with another content is read as it is then.',
     ['schedules', 'histories'],
     'all switches of two threads at calls and lines of the package, up to '
     'two, for all pairs of 19 kinds of work; all interleavings of four '
     'record iterations',
     'The tests run one thing at a time; state of a module shows only when '
     'one is left in the middle and the other goes on.',
     [RT, DB, RX, PK, XL],
     [('readers', RT + ' textpack, lazy_textpack; ' + DB + ' dbfpack; ' + RX +
       ' sheetpack'), ('packs', PK + ' ChannelPack'),
      ('workbooks', XL + '__init__.py open_workbook')],
     'the public functions, from two threads')

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
