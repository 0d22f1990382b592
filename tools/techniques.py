MC = 'model_checking'
FE = 'fault_enumeration'
_h = ('Exhaustive within the stated bounds on the real class; trusts the '
      'list-based reference model in mc/packmodel.py and numpy.')
_i = ('Exhaustive over the bounded input/option space on the real reader; '
      'trusts the writer/oracle in mc/ and the small-scope bounds.')
TECH = {
 'C01': (MC, 'explicit-state BFS and all-sequences exploration of the real pack in lockstep with a reference model', _h),
 'C02': (MC, 'exhaustive mask/duration enumeration plus explicit-state history exploration against a run model', _h),
 'C03': (MC, 'exhaustive enumeration of start/stop input words and histories against a declarative latch', _h),
 'C04': (MC, 'exhaustive enumeration of data dicts and of two-pack histories', _h),
 'C05': (MC, 'exhaustive append pairs and chains over several packs in lockstep with a reference model', _h),
 'C06': (MC, 'exhaustive multi-pack histories (transfer then operate) against a value-semantics model', _h),
 'C07': (MC, 'exhaustive enumeration of key/name/prefix/reference configurations against the lookup specification', _h),
 'C08': (MC, 'exhaustive enumeration of name dicts, masks and selections against a row model', _h),
 'C09': (MC, 'exhaustive dict-operation histories in lockstep with a plain dict', _h),
 'C10': (MC, 'bounded-exhaustive tables x options x sources on the real reader against the table', _i),
 'C11': (MC, 'bounded-exhaustive canonical numeric files x headers x windows x sources against the table', _i),
 'C12': (MC, 'bounded-exhaustive dbf layouts x values x deletion patterns against the table', _i),
 'C13': (MC, 'bounded-exhaustive dbf layouts x deletion patterns x name selections against full read and table', _i),
 'C14': (MC, 'exhaustive range/header/column selections on generated sheets against the grid', _i),
 'C15': (MC, 'all columns over all cell types on generated sheets against the typing rules', _i),
 'C16': (MC, 'all small sparse grids x encodings x orders as generated xlsx against the grid', _i),
 'C17': (MC, 'all short sequences of generated BIFF cell records against the grid; all compressed-number encodings', _i),
 'C18': (MC, 'every split position and width choice of generated string tables against the strings', _i),
 'C19': (MC, 'all sector permutations and storage layouts of generated compound documents against one content', _i),
 'C20': (FE, 'exhaustive single-fault corruption of allocation tables, directory and length, with termination bound', _i),
 'C21': (MC, 'all serial days of both date systems and all rounding edges against day counting', _i),
 'C22': (MC, 'all column numbers and letters against counting', _i),
 'C23': (FE, 'a fault injected at every I/O operation of every reader, with file descriptor accounting', _i),
 'C24': (MC, 'all short format strings over a token alphabet and all small style tables against a tokenizer specification', _i),
 'C25': (MC, 'all accessor arguments on all small grids against list slicing', _i),
 'C26': (MC, 'full product of opening options and all short load/unload histories against one grid', _i),
 'C27': (MC, 'all record kinds, short sequences, style tables, codepages and multi-sheet books of generated files of 7 older versions against the grid', _i),
 'C28': (MC, 'every refused operation in every state of an explicit-state exploration, in lockstep with a reference model', _h),
 'C29': (MC, 'all short sequences of annotation records, all text cuts, hyperlink options and width products of generated sheets against the stored values', _i),
 'C30': (MC, 'all formulas over an alphabet of operands, operators and chains of names, and all scopes and flags, of generated workbooks against a reference evaluation', _i),
 'C31': (MC, 'all values of every bit field, singly and pairwise, of the formatting records of every xls version, encoded from the published layouts and read back', _i),
 'C32': (MC, 'all value kinds, key orders and awkward names in bounded packs: the printed form is evaluated and compared', _i),
 'C33': (MC, 'all sequences of file kinds of bounded tables, read, appended and filtered, against the tables', _h),
 'C34': (MC, 'all orders of the describing records in all file versions, subsets and orders of core properties, against the values written', _i),
 'C35': (MC, 'stateless exploration of thread schedules: one and two switches at the calls and lines of the package in all pairs of readers and packs under a controlled scheduler, against each run alone', _h.replace('the list-based reference model in mc/packmodel.py and numpy', 'the switches between lines and calls as the granularity; results alone are judged by the other checks').replace('class;', 'package;')),
}
