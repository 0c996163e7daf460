AI = "static analysis: path-sensitive abstract interpretation of the source (syntax tree, resolved calls, inlined bodies); "
DT = ["riptable/rt_datetime.py", "riptable/rt_timezone.py"]
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


P("P01", "A locked container refuses structural change",
  "While a Struct, Dataset, Multiset or PDataset is locked, no operation that would add, remove, rename, reorder or replace one of its elements takes effect, whether spelled as attribute or item assignment or deletion, "
  "a named column operation, or the in-place form of filtering, sorting, de-duplicating or replacing: such an operation raises and the set, order and identity of the elements stay as they were. "
  "Writing into a contained array is not structural change and stays allowed.",
  ["inputs", "histories"], "every public operation of the container kinds, every argument and every sequence of operations while locked",
  "Tests try a few mutators on a locked Struct; each of dozens of mutators (and each of their branches) has to check the lock.",
  ["riptable/rt_struct.py", "riptable/rt_dataset.py", "riptable/rt_itemcontainer.py", "riptable/rt_multiset.py", "riptable/rt_pdataset.py"],
  [("lock checks in container mutators", "riptable/rt_struct.py"), ("in-place column operations", "riptable/rt_dataset.py"), ("element dictionary writers", "riptable/rt_itemcontainer.py")],
  AI + "an effect analysis finds every write of the element dictionary reachable from each public method and shows that none is reachable while the lock flag is set",
  "Decides reachability of element-dictionary writes on self with the lock flag assumed set, through inlined family methods; callables passed in by the user are not followed.")
P("P04", "Date/time arithmetic yields the right kind or refuses",
  "Adding or subtracting dates, day spans, instants and durations (arrays, or their scalars, with an array or a date-time scalar on the left) yields the kind the algebra of points and "
  "spans dictates: point minus point is a span, point plus or minus span is a point, span plus or minus span is a span. "
  "Combinations with no meaning, such as adding two instants, two dates or a date to an instant, or multiplying, powering or bit-operating on dates and instants, are refused with an error "
  "for every operand, including in-place and reflected forms.",
  ["inputs", "programs"], "every pair of operand kinds (array or scalar), every operator, every value and length",
  "Tests sample a few operand pairs and lengths; the dispatch has branches per kind, per scalar/array form and per length.", DT,
  [("arithmetic dunders of Date, DateSpan, DateTimeNano, TimeSpan and their scalars", "riptable/rt_datetime.py")],
  AI + "the kind of every return path of every operator is decided against the algebra of points and spans",
  "Decides the kind for all operand pairs of the date/time kinds on every path; trusts that native kernels return plain numbers.")
P("P05", "Date/time addition and subtraction convert units exactly",
  "When dates and day spans (stored in days) meet instants and durations (stored in nanoseconds) in addition or subtraction, with an array on the left, the day quantity is converted to nanoseconds exactly once "
  "and the two numbers are combined with the sign the operator says. Durations built from a number and a unit name, or by the per-unit constructors, hold that unit's exact number of nanoseconds.",
  ["inputs"], "every operand pair, operator, unit name and value",
  "Tests use same-unit operands or single pairs; a missing or doubled conversion in one operand combination is not sampled.", DT,
  [("unit conversion in arithmetic dunders", "riptable/rt_datetime.py"), ("NANOS_PER_* and unit tables", "riptable/rt_datetime.py")],
  AI + "result terms are normalised to linear forms over the operands' stored numbers and compared with the unit algebra; literal unit tables are evaluated",
  "Decides the linear form of every return path that stays within additions, subtractions, multiplications and views; other paths are counted as undecided.")
P("P06", "Operations keep the instant and the display timezone",
  "An operation that copies, slices, combines, shifts, converts or reloads instants never changes which moment an element denotes, and the result is displayed in the timezone of its input "
  "(or in the one explicitly asked for). Changing the display timezone changes only the display, and parsing uses exactly the source and display timezones it was given. "
  "Concatenating instants with different display timezones is refused.",
  ["inputs", "histories"], "every instant, timezone and sequence of array operations",
  "Most tests use one timezone, where forgetting to carry it over is invisible.", DT,
  [("constructor from_tz/to_tz arguments", "riptable/rt_datetime.py"), ("metadata and arrow round trip", "riptable/rt_datetime.py"), ("hstack/copy hooks", "riptable/rt_datetime.py")],
  AI + "every construction of an instant array is traced to the source of its numbers and timezones (UTC or wall clock, which display zone)",
  "Decides the provenance of the stored number and the timezone arguments at every construction reachable from the public operations listed in evidence.")
P("P07", "Date/time comparisons compare like with like",
  "Comparing date/time arrays with date/time operands compares the moments or lengths they denote in one common unit, with the relation the operator names; a date meets an instant as its midnight in the instant's display timezone. "
  "Kinds with no common scale (for example a date against a duration) are never compared to produce a result, and an invalid element on the left compares as unequal (never equal, less or greater).",
  ["inputs"], "every operator, ordered pair of kinds (array on the left; array or scalar on the right) and value",
  "Tests compare a handful of same-kind arrays; a swapped relation or missing unit conversion in one cross-kind branch is not sampled.", DT,
  [("comparison dunders and funnels of the date/time classes", "riptable/rt_datetime.py")],
  AI + "each comparison's result term is reduced to (relation, linear left, linear right, validity mask) and compared with the oracle",
  "Decides relation, units, and left-invalid masking on every return path of every comparison of an array with each kind.")
P("P16", "Operations that return a result leave their inputs as they were",
  "An operation on arrays, Categoricals, groupings, Datasets, Structs or Multisets that returns a new result leaves the object it was called on and every argument as they were: array contents, "
  "category codes and categories, the elements of a container and their order, and caller-supplied lists and dictionaries. "
  "Only operations that are in place by syntax (assignment, deletion, augmented operators), by documented name (such as fill, sort on an array, or the column and category editing methods) or by an explicit in-place or output argument change them.",
  ["inputs", "histories"], "every public operation, every argument combination and every value",
  "Tests check the returned value; almost none compare the inputs before and after, for every option combination.",
  ["riptable/rt_dataset.py", "riptable/rt_struct.py", "riptable/rt_fastarray.py", "riptable/rt_numpy.py", "riptable/rt_categorical.py", "riptable/rt_grouping.py"],
  [("public operations of the array, Categorical and container classes", "riptable/rt_dataset.py"), ("module-level functions", "riptable/rt_numpy.py")],
  "static analysis: interprocedural effect and alias analysis of the source; each public operation's summary of writes through self and parameters is compared with its in-place contract",
  "Decides that no write through self or a parameter is reachable outside the contract; native kernels are taken to write only into the destinations the source names, and internal caches are not part of the observable state.")

P("P21", "Calendar and clock fields follow the definition in display time",
  "Year, month, day, weekday, hour, minute, second and sub-second fields, their span forms, start-of-day/week/month and since-midnight quantities of instants are those of the wall clock in the array's display timezone; "
  "the same fields of dates are those of the date. The fields of one element always agree with each other for every year from 1970 through 2099.",
  ["inputs"], "every instant or date from 1970 through 2099 in every supported timezone",
  "Tests check a few dates, mostly in one timezone; boundary days, leap years and zones without daylight saving are rarely hit.", DT,
  [("field accessors of Date, DateTimeNano, TimeSpan and scalars", "riptable/rt_datetime.py"), ("month and year tables", "riptable/rt_datetime.py")],
  AI + "each field accessor is reduced to a normal-form chain of modulo/division/table steps on wall-clock time and compared with the calendar definition; literal tables are evaluated against the Gregorian calendar",
  "Decides the normal form of each field's computation; formulas outside the normal form are counted as undecided, never as violations.")
P("P22", "Timezone data and UTC/wall-clock conversion are right for every zone",
  "For every supported timezone name or alias, conversion from UTC to wall clock adds that zone's UTC offset, plus one hour exactly during its daylight-saving periods by the zone's rule (2008-2040), and conversion from wall clock "
  "to UTC subtracts the same; the reported UTC offset agrees. Switching the display timezone switches offset and daylight-saving data together, and unknown timezone names are refused.",
  ["inputs", "configurations"], "every supported zone name and alias, every instant from 2008 through 2040",
  "Tests convert a few instants in two zones; an error in one zone's table or one table entry is invisible to them.", ["riptable/rt_timezone.py"],
  [("transition tables and offsets", "riptable/rt_timezone.py"), ("conversion methods of TimeZone", "riptable/rt_timezone.py")],
  AI + "the constructor and conversions are interpreted per zone name; the tables that reach them are evaluated and compared entry by entry with the published daylight-saving rules",
  "Decides offsets, every table entry 2008-2040, table selection and the shape of the conversions; the sorted-search primitive is trusted. Local times that a change skips or repeats are not claimed.")
P("P23", "Invalid elements stay invalid through date/time arithmetic",
  "In addition and subtraction of date/time arrays, an element that is invalid (missing) in either operand is invalid in the result, never a plausible-looking date, instant or duration, for every operand kind, scalar or array, and every length. "
  "The value stored there is the missing-value marker of the result's kind.",
  ["inputs"], "every operand pair with an array on the left, every length including one, every placement of invalid elements",
  "Tests rarely mix invalid elements with each operand-kind pair and length-one arrays.", DT,
  [("invalid masks in arithmetic dunders", "riptable/rt_datetime.py")],
  AI + "on every return path the mask of each operand's invalid elements must be applied to the result with the sentinel of the result kind",
  "Decides mask application on every return path of every operand pair; the native mask and NaN primitives are trusted.")

P("P27", "Parallel kernels give the same result for every thread schedule",
  "Every parallel loop of the compiled kernels (filtered reductions, string operations, grouped fills and moving averages, joins, as-of joins, Categorical applies and comparisons) gives the same result for every number of threads and every schedule: "
  "no two iterations write the same element, none reads an element another one writes, and nothing but sums, products, minima and maxima is carried from one iteration to another. "
  "Where a serial and a parallel variant of a kernel are chosen by array length, both are the same computation.",
  ["schedules", "inputs"], "every parallel kernel, every number of threads, every interleaving of iterations, every array length",
  "Tests run short arrays, for which the serial variant is chosen or one thread gets all iterations, and a race shows up only under particular schedules.",
  ["riptable/rt_groupbynumba.py", "riptable/rt_merge.py", "riptable/rt_merge_asof.py", "riptable/rt_categorical.py", "riptable/rt_fastarray.py", "riptable/rt_str.py"],
  [("parallel string kernels", "riptable/rt_str.py"), ("grouped parallel kernels", "riptable/rt_groupbynumba.py"), ("join kernels", "riptable/rt_merge.py"), ("filtered reductions", "riptable/rt_fastarray.py")],
  "static analysis: ownership and dependence analysis of every parallel loop over the syntax tree (index expressions classified as owned by the iteration, group-partitioned, shared or carried)",
  "Decides write ownership, cross-iteration reads and carried scalars for every parallel loop; the disjointness of the group ranges that the grouping hands to a kernel is trusted.")

P("P28", "Every way of reading a Categorical gives each row the category it holds",
  "Whatever a Categorical was built from (values, codes with categories of either base index, given categories, a filter, a mapping, several keys), every way of reading it "
  "(single elements, expanded array and columns, string array, codes into the category array, group numbers and group keys, comparisons, membership) reports for each row the category that row was built with, and no category for rows without one. "
  "Copies, slices, masks and index selections, filtering and shrinking, conversion through a mapping, comparison of two Categoricals, stacking and alignment keep the category of every row they keep and leave the original as it was.",
  ["inputs"], "every Categorical layout, base index, reader, selection and combination of two layouts",
  "Tests read base-1 Categoricals with one or two readers; the readers translate codes separately for each layout and base index.",
  ["riptable/rt_categorical.py", "riptable/rt_grouping.py"],
  [("readers", "riptable/rt_categorical.py"), ("selection and copies", "riptable/rt_categorical.py"), ("comparison", "riptable/rt_categorical.py"), ("stacking and alignment", "riptable/rt_categorical.py"), ("group keys", "riptable/rt_grouping.py")],
  AI + "codes, categories and groupings over a finite abstraction (a few rows and opaque ordered category names in every layout); every reader's value of every path is compared with the categories the Categorical was built from",
  "Decides twelve layouts and all their pairs over a finite abstraction; ordering comparisons and shifting are not claimed; the hashing and sorting primitives are trusted to do what is documented.")

P("P02", "Category edits keep every row on its category; a locked Categorical refuses",
  "Adding, removing or replacing a category of a Categorical with single-key categories (of either base index), adding categories automatically during assignment, and assigning a category, a code or another Categorical to rows "
  "leave every other row on the category it had, give the assigned rows exactly the assigned category, and keep the code-to-name and name-to-code sides of a mapping (add, remove, replace, new) in step; "
  "codes or mapping entries that do not exist are refused. The edit is also what the Categorical's category array and grouped results use from then on, and a locked Categorical refuses every such change of its categories.",
  ["inputs", "histories"], "every Categorical layout, base index, edited category position, code and assigned value",
  "Tests edit one category of a base-1 Categorical; the renumbering depends on position, base index, invalid rows and on whether the other category exists.",
  ["riptable/rt_categorical.py", "riptable/rt_grouping.py"],
  [("category and mapping editing", "riptable/rt_categorical.py"), ("element assignment", "riptable/rt_categorical.py"), ("category lookup", "riptable/rt_categorical.py")],
  AI + "codes, category array, mapping and grouping over a finite abstraction (a few rows, opaque category names, every layout and base index); after each edit on each path every reader is compared with the definition of the edit; reachability of a write with the lock set",
  "Decides single-key and mapped layouts; multi-key editing is not supported by the library; in-place shrink is only covered for the lock.")
P("P12", "Grouped results never reflect old codes or an earlier filter",
  "After any of a Categorical's own operations changes its codes, categories or mapping, every grouped result (counts, first/last rows, packing, group keys, iteration) is computed from the new codes: "
  "nothing cached before the change is served afterwards. An operation with a filter leaves nothing behind that a later operation with another filter or none would use.",
  ["histories"], "every sequence of grouped operations, filters and modifications",
  "Tests compute grouped results on fresh Categoricals; stale caches need a computation, a modification and a second computation.",
  ["riptable/rt_categorical.py", "riptable/rt_grouping.py", "riptable/rt_groupbyops.py"],
  [("reset after modification", "riptable/rt_categorical.py"), ("lazily filled grouping fields", "riptable/rt_grouping.py"), ("packing by group", "riptable/rt_grouping.py")],
  AI + "histories of two or three operations (grouped reading, modification or filtered reading, grouped reading) over a finite abstraction of a Categorical and its grouping with all fields filled on demand; each reading is compared with the one computed from the present codes and filter alone",
  "Decides the Categorical's own operations; writes that bypass it (numpy in-place routines on the array) are outside.")

P("P10", "Grouped results cover exactly the group's rows that pass the filter",
  "In every grouped reduction, rolling, cumulative or moving-average operation, aggregation by name and count, the cell of a group (or of a row) is the named operation with the caller's parameters (window, decay, quantile, time) "
  "applied to exactly the rows of that group that pass the filter, and it stands next to that group's key, in natural, sorted, show-filtered and transformed layouts alike. "
  "A row that belongs to no group never receives a group's value, and the row indices reported for a group are its rows in order.",
  ["inputs", "configurations", "histories"], "every grouping, filter, option combination and earlier use of the same grouping",
  "Tests compare a few operations with default options; the combinations of filter, layout, base index and earlier packing, per operation, are not sampled.",
  ["riptable/rt_groupbyops.py", "riptable/rt_grouping.py", "riptable/rt_groupby.py", "riptable/rt_groupbykeys.py", "riptable/rt_categorical.py"],
  [("operations and option handling", "riptable/rt_groupbyops.py"), ("kernel invocation, packing, bins and layout", "riptable/rt_grouping.py"), ("key order and sorted display", "riptable/rt_groupbykeys.py")],
  AI + "each public grouped operation is followed to the native kernel call and back to the returned columns; the extracted index terms are evaluated over a finite abstraction of a grouping (six rows, three groups, one of them fully filtered, one row in no group) and compared with the definition of the operation",
  "Decides kernel, parameters, row sets, key alignment and layout for GroupBy and Categorical, including after an earlier packing; the arithmetic of the native kernels is trusted, columns are numeric, and rolling operations with a filter are claimed for the rows that pass.")

P("P17", "Row operations of a Dataset keep each row's cells together",
  "Selecting, filtering, sampling, trimming, sorting and de-duplicating rows of a Dataset, and copying it, give rows whose cells all come from one and the same source row, in the requested rows, order and columns, with the row count of the columns; "
  "sorting takes the keys in the order given, each in its own direction, and de-duplication keeps the first, the last or only the unrepeated rows as asked. "
  "Concatenation stacks Datasets in order, column by name, with missing markers exactly where a Dataset lacks the column; assignment to selected rows and columns changes exactly those cells; selections of a wrong length, unknown columns and unknown options are refused.",
  ["inputs"], "every row and column selector kind, key list, direction list, keep option and set of Datasets",
  "Tests sample a few selector pairs; the combinations of row selector, column selector, in-place flag and option are not sampled, and a misaligned cell is a plausible value.",
  ["riptable/rt_dataset.py", "riptable/rt_struct.py", "riptable/rt_itemcontainer.py"],
  [("row and column selection and assignment", "riptable/rt_dataset.py"), ("sorting and de-duplication", "riptable/rt_dataset.py"), ("concatenation", "riptable/rt_dataset.py"), ("column container", "riptable/rt_itemcontainer.py")],
  AI + "each public operation is interpreted over a finite abstraction of a Dataset (three columns of five opaque cells, a second Dataset where needed) through the column container; the resulting table of cell tokens is compared with the definition of the operation",
  "Decides one-dimensional columns; indexing, stacking, sorting and grouping of single arrays are trusted primitives of the array layer, and the random choice of sampled rows is not judged.")

P("P18", "Column edits move names and places, never values; refused edits do nothing",
  "Renaming (singly or by a map, including chains and exchanges), prefixing, suffixing, replacing in names, moving, swapping, removing, popping, selecting, adding and replacing columns of a Dataset or Struct leave every other column with its values, attributes and relative order, "
  "put the edited ones under exactly the requested name and place, and keep the column count and the names of an active sort in step. "
  "An edit that names an unknown column, a name already in use, a wrong length or an unknown option is refused and leaves the container exactly as it was, and a locked container refuses every such edit.",
  ["inputs", "histories"], "every edit, column position, overlap of old and new names, and lock state",
  "Tests apply one edit to two or three columns; overlaps between old and new names, attributes, positions and the state after a refused edit are not sampled.",
  ["riptable/rt_struct.py", "riptable/rt_dataset.py", "riptable/rt_itemcontainer.py"],
  [("column editing methods", "riptable/rt_struct.py"), ("item container", "riptable/rt_itemcontainer.py"), ("column addition and length checks", "riptable/rt_dataset.py")],
  AI + "each public edit is interpreted through the item container over a finite abstraction (four named columns with attributes, names that are substrings of each other); the table after every returning path is compared with the definition of the edit, and after every raising path with the table before",
  "Decides names up to the enumerated overlap patterns; missing names in the moving operations are warnings by design.")

P("P26", "Joins return exactly the matching rows, from both sides alike",
  "Every join (inner, left, right, outer; lookup; as-of backward, forward and nearest) returns exactly the row pairs its definition gives for the values of the key columns - a missing key matches nothing (the older first-match merge apart), several key columns match only together, and keeping the first or last duplicate drops exactly the others - in the left table's row order for the joins that document it. "
  "In each result row every column holds the value of the row it was taken from or a missing value, columns that exist on both sides appear under the requested suffixes, and the indicator column says which side the row came from. "
  "A requested validation that the keys violate, an unknown option, or a lookup that requires a match and finds none is refused, and a refused in-place lookup leaves the left table unchanged.",
  ["inputs"], "every join type, duplicate policy, pattern of matching, repeated and missing keys, number of keys, and option",
  "Tests sample a few pairs of tables; the combination of join type, duplicate policy, repeated keys, missing keys and several key columns is not enumerated, and values taken from the wrong row look plausible.",
  ["riptable/rt_merge.py", "riptable/rt_dataset.py", "riptable/rt_grouping.py"],
  [("join index construction", "riptable/rt_merge.py"), ("table methods that forward to the joins", "riptable/rt_dataset.py"), ("group extraction", "riptable/rt_grouping.py")],
  AI + "each public join is interpreted from its entry point over finite tables of symbolic cells whose key equality pattern is enumerated; the table on every returning path is compared with the relational definition of the join, and raising paths with the documented refusals",
  "Sound for tables up to the enumerated size; grouping, membership, alignment and sorting kernels are trusted to do what their documentation says. For the legacy merge, inner and outer joins are claimed for unique keys only (documented first-match behaviour otherwise).")

P("P30", "Cells and totals of a two-dimensional table hold exactly the rows of their keys",
  "In the table an Accum2 (or a two-dimensional grouping by two Categoricals) returns for a reduction, the cell in a row and a column is that reduction applied to exactly the rows of the data that hold the row's key and the column's key and pass every filter "
  "(the one given at construction and the one given to the call); the totals row and totals column are the same reduction over the rows of that one key, and the grand total over all counted rows. "
  "Row and column keys stand next to their own cells in every order of keys, for every kind of Categorical, and the count, the named operations, user functions and single-item look-ups agree on which rows a cell holds. Filtered rows are counted only where the caller asks to see them, under the Filtered label.",
  ["inputs", "configurations"], "every pair of Categorical kinds, filter combination, display option, key order and reduction",
  "Tests use two unfiltered base-1 Categoricals in natural order; a shifted total or a swapped key is a plausible number.",
  ["riptable/rt_accum2.py", "riptable/rt_groupbyops.py", "riptable/rt_groupbykeys.py", "riptable/rt_grouping.py", "riptable/rt_categorical.py"],
  [("table layout, totals and filters", "riptable/rt_accum2.py"), ("combination of two keys", "riptable/rt_grouping.py"), ("key order and filtered labels", "riptable/rt_groupbykeys.py")],
  AI + "each public reduction is interpreted from the constructor to the returned table over finite pairs of Categoricals; the row set in every cell, total and key label is compared with the definition",
  "Decides row sets and key alignment; the arithmetic of native kernels is trusted. Values of cells that hold no row, the grand total while filtered rows are shown, and the degrees of freedom of a grand total are not claimed.")

# --------------------------------------------------------------- not applicable
P("P40", "Grouped reductions equal the per-group reduction",
  "Every grouped aggregation returns, for each group, the value the same reduction gives on that group's rows alone, ignoring filtered rows.",
  ["inputs"], "all data, groupings and filters", "Numeric result over unbounded data.", ["riptable/rt_groupbyops.py", "riptable/rt_grouping.py"],
  [("native grouped reduction kernels", "riptide_cpp (binary)")], na="the reduction runs inside the native library, whose source is not in this repository; the structural part (which kernel, options and arrays reach it) is claimed separately")
P("P41", "Sorting is a stable permutation in the requested order",
  "Sorting rows by any keys reorders whole rows into the requested order, keeping the relative order of rows with equal keys.",
  ["inputs"], "all data and key lists", "Ordering of runtime values.", ["riptable/rt_numpy.py", "riptable/rt_dataset.py", "riptable/rt_sort_cache.py"],
  [("lexsort kernels", "riptide_cpp (binary)")], na="order and stability are produced by native kernels on runtime values; no static argument over this source bounds them")
P("P43", "Saved data reads back equal",
  "Anything written to an SDS file and read back has the same values, dtype, column order and shape.",
  ["inputs", "histories"], "all datasets and compression settings", "Byte-level round trip over unbounded data.", ["riptable/rt_sds.py"],
  [("compression and file layout", "riptide_cpp (binary)")], na="encoding and decoding happen in the native library; only the metadata written and read by the Python side is visible statically")
P("P44", "Membership, uniqueness and hashing agree with equality",
  "Membership tests, unique values and hash-based grouping identify exactly the elements that compare equal.",
  ["inputs"], "all arrays and dtypes", "Depends on runtime values and hash collisions.", ["riptable/rt_numpy.py"], [("hash kernels", "riptide_cpp (binary)")],
  na="the hashing and matching are native kernels on runtime values")
