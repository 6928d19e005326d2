"""Per-property decision procedure and bounds, for DESIGN.md."""
DETAILS = {
"P01": "Oracle: the table of eight letters. `satsys_to_char` for each enumerator, `char_to_satsys` on an unknown char (its result, a gate tree over the character, is tabulated over all 256 values; throws counted as outcomes), the eight traits' identifiers. No bound.",
"P02": "Oracle: the RINEX code grammar. The text is a symbolic string: length and characters unknown; printing is compared byte by byte with a symbolic code. No bound on the text; band restricted to one digit for printing (as stated).",
"P03": "Oracle: RINEX 3/ICD frequency table (8 systems x bands). Static initialisers of the maps are interpreted from IR; unknown band must reach a throw. Combinations: all 64 system pairs of two-part observables with symbolic bands and coefficients; arbitrary length by an additive-accumulator rule on the loop body.",
"P04": "Oracle: field-wise equality / multiset equality. Operators are reduced to decision diagrams over symbolic fields; the permutation test is decided for up to 3x3 symbolic parts (all equality patterns). Antennas: symbolic 20+20 byte names.",
"P05": "Oracle: fixed-column layout per byte. Text of symbolic length; every write of the constructors is compared per byte of the object with the layout; out-of-object writes and reads behind the terminator are events with guards that must be infeasible.",
"P06": "Oracle: the interface document's formulas, written as terms in the check. Real-field normal form with sin/cos/sqrt/atan atoms; the Kepler loop is a widened loop whose exit guard gives |E - e sin E - M| <= 1e-12 and whose failure exit requires the iteration counter >= 30.",
"P07": "As P06 for the clock polynomial plus relativistic term. Purity: the message bytes after the call equal those before it.",
"P08": "Oracle: RK4 on the ICD's force model. One step from a symbolic state is compared with the RK4 combination (force model as function symbol first, then the force model itself with its formulas); the step loop is handled by its invariant: elapsed + remaining = requested, |step| <= 60, the direction sign. 15-minute window compared as decision diagram over seconds.",
"P09": "Oracle: field table per system; integer conversion kept symbolic; reference epoch as day/second pairs; the GLONASS day adjustment is decided for all seven week days by gate tabulation.",
"P10": "Oracle: column tables. Lines are unknown character sequences; each stored field must be the conversion of exactly the text starting at its column of its own line; success guard must equal the conjunction of the per-field validity atoms and read results. 7 systems + unknown letters, two configurations; D exponents: the replacement loop's effect is recognised structurally (for each char: D/d -> e within the line). History: initial errno and buffer content are unknowns that must not appear in any result.",
"P11": "Oracle: column tables. Scenarios: 0..3 records, mixtures of P/other lines, every termination (next header, EOF line, read failure, vector full); flags as a function of this line's characters only. `on_line`/`on_peek` hooks fix only the *kind* of each line (a case split, exhaustive over kinds), all characters stay symbolic.",
"P12": "Oracle: the header grammar, block lengths and window predicates (specification functions in drivers/inst.cpp). Scenarios over the kinds of up to three next blocks; symbolic message contents; stream position compared as (line number) term; the noexcept boundary rule reports any exception reaching it.",
    "P13": """The constructor is interpreted on an abstract stream: for each of 21 sequences of header records (observation types of one to three systems with 1 to 27 codes on one to three lines, approximate
position, first epoch, marker, receiver, antenna and comment records) every character of every line is symbolic; the condition under which the constructor returns is compared with the conjunction the header grammar
demands, every other path has to throw, no path may terminate the program, read outside the line or use indeterminate memory, and the noted stream position has to be the one behind the last header line. Six kinds of
invalid type lists have to be rejected, and a header without an end must not be waited for. The reading map is then computed from the object the constructor built, for requests of arbitrary codes: one code against headers
of 1, 13, 14 and 27 codes (the column is the index of the first equal one, no entry if there is none) and 16 shapes of requests (combinations, missing codes and systems, mixed systems, two systems, empty) with and without
skipping; columns, coefficients, order, the number of entries and what is left of the request are compared with the specification. std::map and std::vector are modelled by their contract (gated entries), ObservationCode's
parser is a primitive here (decided by P02). Not claimed: the RCV CLOCK OFFS APPL record and the marker and antenna fields, which no accessor exposes.""",
    "P14": """The object an arbitrary header with 14 observation types leads to is taken from the constructor's interpretation (as for P13); read_next_epoch is interpreted on it with a symbolic header line and zero to three
symbolic satellite lines for 16 combinations of reading map (single observables, combinations, several systems, a late column, the empty map), sequence of system letters and number of caller elements, and nine that must fail (letters
that are no system, the end of the file in the middle, too few elements). Lines may have any length: what an observable's text is made of is worked out character by character (a character of its own line where the line reaches,
blank or terminator behind it), and only if that is so for all 14 columns it counts as the field of the specification. The acceptance condition is compared from both sides: lines the format allows have to be accepted, accepted
lines have to be valid; day, seconds, count, satellites, numbers and the value of each observable in its missing and its present case are compared as terms. No conversion may start behind the end of its line (the positions are
expressions in the lengths of earlier numbers; the chain of ends is followed), no access may leave an object or the caller's elements or read indeterminate memory, no exception may reach the noexcept boundary. The end of the file and a
broken stream, a negative number of satellites, the prepared output vector and the resolution of a single observation are separate cases. Not claimed: special-event epochs (flag above 1, which the code does not handle) and the
receiver clock offset (which no accessor exposes); a text that spells -999.99 itself counts as missing.""",
    "P15": """Every character of a text of exactly n characters (0..20, 40, 60, 80) is a symbol and the buffer ends with its terminator; the trimming functions and the blank test are interpreted without limit and with limits at 0, 1, n/2, n-1,
n, n+1, 20 and 60. The position they report and the text they return are choices over the characters' blank tests; for each reported value the condition under which it is reported must be the same decision diagram as the specified one,
and each returned text must consist of exactly the characters between the specified ends. Accesses outside the text are obligations. The number readers (1-4 numbers of 19 columns, 2 and 3 of 14, count fixed or given) run on a symbolic line: the result must be the
conjunction of "a number starts here" and "it is representable" over the columns, each array element the conversion of the text at its column, and nothing else (an error pending before the call in particular) may occur in the result.""",
    "P16": """Scripted files: the check lays out a file as a sequence of kinds of lines (header records, TYPE / SERIAL NO, METH, DAZI, ZEN1, # OF FREQUENCIES, VALID FROM/UNTIL, SINEX CODE,
COMMENT, START/END OF FREQUENCY, NORTH / EAST / UP, NOAZI, grid lines, RMS blocks, END OF ANTENNA); the label columns are concrete, every data column is its own symbol. Stream positions are line numbers, so
that loops over a file end by themselves; a round that changes nothing is an endless wait. The constructor is decided for every way the two first lines and the end mark can be missing, short or
altered. The look-ups are interpreted on the object the constructor built, for one to three antennas, with and without serial numbers, all requests symbolic: the status is compared, as a decision diagram over
character equalities, with the specification's choice; the list of offsets entry by entry (system, band as the number at column 4, the three numbers as the conversions of exactly their ten columns). Old
list contents, a second look-up after the first met the end of the file, and re-opening are separate scenarios; damaged files (cut at every line, missing marks, non-numbers, blank lines, over-long grid lines)
must give a non-zero status without exceptions, endless loops, or invalid or indeterminate reads. Unspecified: which of several entries of a model without serial number is taken, and partially filled lists on error.""",
    "P17": """Scripted files as for P16 with satellite antenna entries. Dates are read by the trusted ggdatetime parser, an uninterpreted function of the text (with a failing outcome), and compared by a total order on
(day, second); the matching condition of each entry is compared with letter, number and both validity bounds (inclusive, missing VALID UNTIL = unlimited), and the first match in file order has to win. The
satellite's number, SVN (letter at column 40 equal to that at column 20), COSPAR id bytes, antenna type bytes, and the offsets are compared with the columns of the winning entry, for the three entry points (identity,
offsets, both). Blank identifier columns, entries without offsets, unreadable dates and numbers, other systems' entries in front, and truncated files are scenarios of their own.""",
    "P18": """The constructor is interpreted on scripted headers: marked lines whose other columns are arbitrary characters. The condition under which it returns (as a BDD over the conversions' outcomes, the version character and
the comparisons with the start date) has to equal the specified one, and the condition of its exception the complement. Each line is in turn given two arbitrary first characters, left out, cut at a column, made too long
(only: the constructor ends) and the file is ended after each line. Start and week/day comparison go through the uninterpreted primitives of ggdatetime, applied in the specification to the same columns. Interval, number of satellites
and the size of an epoch's vector are compared with the columns; the strings printed in debug builds with the bytes of theirs. Epochs: reading, reading on behind the end, and reading after a rewind, for files with and
without comment lines, EOF line and final line end. Unspecified: files with fewer than two ++ lines, what follows the last ++ line in its second character, start seconds or fractions that are unreadable, more than about
1000 header lines, lines of more than 84 characters.""",
    "P19": """Constructor and look-up are interpreted on scripted tables: title, headings and records whose columns are arbitrary characters. The condition of opening is compared with validity of the (dropped, damaged, truncated) heading.
For a look-up the oracle walks the records from the statement: type MW, readable SVN equal to the one asked for, readable start and (when any of its columns is not blank) end, start <= epoch < end. Returned status, number and channel must
agree with it under every combination of conditions, for tables of up to four records of every kind (MW or any type, open/closed/arbitrary end, an end of which only the last column is set), ended by an empty or short line, PART 3, the end of the file or a last line without newline;
again for a second look-up on the same object whatever the first one met (this covers the end-of-file state of the stream and errno), and with a record cut off at various columns (nothing of the record before, and no indeterminate memory, completes it).
Not specified: a table without records (the line behind the headings is never taken as an end), records of the wanted satellite that end before the channel column, unreadable number or channel of the record found, more than 1000 records, lines of more than 255 characters, and the latest expressible epoch.""",
    "P20": """Constructors and accessors are interpreted on arbitrary attributes (a change through a reference has to change that attribute and leave the others). Printing functions run in a domain of texts: literal characters,
characters given by terms, and std::to_string of a number as an uninterpreted text (numbers of a known count of digits are their digits). The text computed is compared piece by piece with the specified one, per system, for codes with a
known type and a one-digit band (the code's own text is P02's), any coefficient, satellite numbers of one to three and vehicle numbers of one to four digits, and combinations of one to five parts built in each of the four ways of adding parts.
Negative (unset) numbers and identifiers of less than nine characters are unspecified.""",
    "P21": """The compiled type traits of the five reader classes must say: not copyable, movable. Each reader is then opened on a scripted file and read 0, 1, 2 or 4 steps; the same four steps (two plain ones, one after rewinding, one more) are interpreted
on it as it is, and on the reader it was moved to: constructed, or assigned over a reader of another file (whose header differs in everything) that was just opened, in use or at its end. Every delivered value and status must be the same term.
The source is destroyed before the target is used (or after the target, in one variant); releases of heap objects are followed, a second release or an access to what was released (the destroyed source included) is a violation.
The files are concrete, so what a value of a record means is not repeated here (P10, P13, P14, P16-P19 decide that); the move operations do not look at the file, which is why one file each represents all. What the source does after the move is unspecified.""",
    "P22": """Decided without interpreting anything: `ggsa/effects.py` is a flow-insensitive, interprocedural taint analysis of pointers over the
LLVM IR of every library function, in both build configurations. (1) *Static variables*: every variable of static storage duration that is not
a compile-time constant is followed through every function that mentions it (or a function returning a reference to it); a store, or passing it
to anything that may write through it, outside its initialisation is a violation. Function-local statics may be written between
`__cxa_guard_acquire` and `__cxa_guard_release`, and that region may not use anything of the call that happens to be the first. (2) *Constants*:
the object of a const method and every const reference/pointer parameter are followed (through members and containers when the class
holds no pointers); a write is a violation, whether through `const_cast` or `mutable`. (3) *errno*: a forward typestate analysis across
calls shows that no function looks at errno before it, or its callers in the library, have set it. (4) *External calls*: no function calls a
C or C++ library function that reads the clock, the environment or randomness, keeps process-wide state (locale, strtok, ...), changes
files, or ends the process; open modes never contain out, app or trunc. Not restricted: printing to the standard streams. Summaries of
external functions come from their const-ness in the signature and a table for C functions.
In addition, all other checks treat a static variable that some library function stores to as holding an arbitrary value when the analysed
function is entered, so hidden state also shows up as a violation of the property it damages.""",
    "P23": """The accessors of a message with arbitrary contents are interpreted: the values they return must be pairwise distinct parts of the object (so no two attributes share
storage), a value stored through a reference (or set_toc) must come back from its own accessor, and every other accessor must still return the term it returned before: 37 attributes,
34 mutators. Accuracy is interpreted for the concrete indices 0 to 15 (constant folding of pow and round), years for an arbitrary number 0..99, constants by folding the
functions of the system traits. Whether field 23 of a file is an index or already metres (RINEX writes metres) is left open: the function is specified as documented in the source.""",
    "P24": """The reading scenarios of P10-P14, P16-P19 and P21 are interpreted again, looked at for safety alone: each scenario is one obligation, violated by any event of the
engine's memory model (access outside an object, indeterminate, null or released memory, text without an end), by an exception that reaches a function declared noexcept, by a
loop that goes on after the end of the file (a round that changes nothing, or one after which no comparison is nearer to another outcome), and by a call of which nothing comes back.
What the calls deliver is not looked at (that is decided by the other properties), so an edit that changes a result but stays safe leaves this check quiet.""",
}
