#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the wording stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=over,text=' '.join(quant.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

p('C01','A record is accepted iff it is well-formed PICA+, with exactly its contents',
 '''Parsing a byte string as a record succeeds exactly if it consists of one or more fields followed by one newline,
 where a field is a tag (0-2, two digits, A-Z or @), optionally '/' and two or three digits, one blank, any number of
 subfields (0x1F, an ASCII letter or digit, a value without 0x1E and 0x1F) and 0x1E. The parsed record then holds exactly
 these tags, occurrences, codes and values in order. The constructors of the parts (tag, occurrence, subfield code,
 value, subfield, field, level) accept exactly the same parts, and a record is a text record exactly if every value is valid UTF-8.''',
 ['inputs'],'''every byte string; explored: every state of the record automaton x every continuation of one (thorough: two)
 arbitrary bytes x every distinguishing suffix, plus size boundaries of values, subfields and fields''',
 '''Example based tests try a handful of well-formed and malformed strings; the fuzz target only looks for panics. Acceptance of
 every byte in every parser state is a statement over all inputs.''',
 ['src/primitives/parse.rs','src/primitives/record.rs','src/primitives/field.rs','src/primitives/subfield.rs','src/primitives/tag.rs','src/primitives/occurrence.rs','src/record.rs'],
 [('record grammar','src/primitives/parse.rs: parse_record_ref'),('constructors','src/primitives/*.rs: new, from_bytes'),('text records','src/record.rs: TryFrom<ByteRecord> for StringRecord')])

p('C02','Writing a record and reading it back is the identity',
 '''Writing records (whose values contain no newline) and reading the output back yields the same records in the same order, for borrowed and owned records,
 for records as read and records built from parts, uncompressed or gzip compressed. The bytes written are exactly the canonical
 PICA+ serialisation; a record without fields writes nothing.''',
 ['inputs','histories'],'''all sequences of up to three records over an alphabet of record shapes (no subfields, empty values, occurrences,
 non-ASCII, non UTF-8, values of buffer size +-1) x writer kind x append or truncate x read back''',
 '''Tests write one fixture with one writer; the round trip has to hold for every record and sequence of writes, including sizes around internal buffers.''',
 ['src/writer.rs','src/record.rs','src/primitives/record.rs','src/primitives/field.rs','src/primitives/subfield.rs','src/reader.rs'],
 [('serialisation','src/primitives/*.rs: write_to'),('writers','src/writer.rs: PlainWriter, GzipWriter, WriterBuilder'),('reader','src/reader.rs')])

p('C03','A stream is split into the same records however the input is delivered',
 '''Reading a stream yields, line by line and in order, exactly one item per newline-terminated line (and one for a non-empty
 rest), which is the record of that line or an error; the result does not depend on how the bytes are split into reads or on interrupted reads. A parse
 error names the correct line number and source, does not affect later lines, and only malformed lines (not I/O errors) count as skippable;
 an I/O error is reported, never swallowed or turned into an end of file.''',
 ['schedules','fault_sequences','inputs'],'''every sequence of up to four lines over an alphabet of valid, malformed and non UTF-8 lines x every
 placement of up to two (thorough: three) deviations (short read, interruption, I/O error) and every uniform chunk size''',
 '''Tests read from files and slices that are delivered in one piece and never fail.''',
 ['src/reader.rs'],[('line framing','src/reader.rs: next_byte_record, next_string_record'),('skip rule','src/reader.rs: skip_parse_err')])

p('C04','After any sequence of field removals all views of a record agree',
 '''Discarding a set of field specifications removes exactly the fields that match one of them, keeping a set removes exactly the others, an empty set changes nothing;
 the order of the remaining fields is preserved. After any sequence of such operations the fields, the
 bytes written, the SHA-256 digest, equality, hash and the PPN of the record describe the same contents as a freshly parsed record with these fields.''',
 ['histories'],'''all operation sequences up to depth 3 (thorough: 4) over keep, discard, retain and direct access to the fields x base records''',
 '''Tests apply one operation to one record and look at one view; stale cached raw data only shows for certain operation/observation pairs.''',
 ['src/record.rs','src/primitives/record.rs'],[('raw data invalidation','src/record.rs: retain, keep, discard, deref_mut'),('digest/eq/hash','src/record.rs: sha256, PartialEq, Hash')])

p('C05','Tag and occurrence patterns match exactly the fields they denote',
 '''A tag pattern matches a tag exactly if each of its four positions does: a literal character, '.', or a bracketed list of
 characters and ranges. No occurrence (or /00) matches fields without occurrence or with 00, /* matches every field, /nn and /nnn only the equal occurrence,
 and a range matches the occurrences with the same number of digits between both bounds, inclusively. Anything else is rejected.''',
 ['inputs'],'''all 8100 tags x a pattern alphabet that covers each position's fragment kinds; all 1100 occurrences (and none) x all two digit exact and range
 matchers and the boundaries of the three digit ones; all short matcher strings''',
 '''Tests try a few patterns on a few tags.''',
 ['src/matcher/tag.rs','src/matcher/occurrence.rs'],[('tag patterns','src/matcher/tag.rs: is_match, parse_tag_matcher'),('occurrences','src/matcher/occurrence.rs: is_match, parse_occurrence_matcher')])

p('C06','Every subfield criterion means what its operator says',
 '''Existence, equality, prefix, suffix, similarity, containment, membership, regular expression (single and set), cardinality and their negations
 select exactly the documented lists of subfields, for code lists, ranges and the wildcard; ANY (the default) requires one, ALL every
 subfield with one of the codes to satisfy the criterion (ALL holds vacuously, ANY does not). With case-ignore both sides are compared in lower case, for all of Unicode;
 string escapes denote the escaped characters.''',
 ['inputs'],'''all criteria over an alphabet of operators x quantifiers x code sets x values x case-ignore x similarity thresholds applied to all lists of
 up to three subfields over an alphabet of codes and values (thorough: four)''',
 '''Tests check each operator on one or two values without combining quantifiers, code sets, negation and case folding.''',
 ['src/matcher/subfield/mod.rs','src/matcher/subfield/parser.rs','src/matcher/quantifier.rs','src/matcher/operator.rs','src/parser.rs'],
 [('criteria','src/matcher/subfield/mod.rs: *Matcher::is_match'),('strings and codes','src/parser.rs')])

p('C07','Boolean filter expressions evaluate by precedence, grouping and negation',
 '''An expression of field or subfield criteria connected by &&, ^ (or XOR) and || evaluates like the Boolean formula in which negation binds tightest, then
 conjunction, exclusive disjunction and disjunction, and parentheses group; every well-formed expression is
 accepted whatever its white space, and malformed ones (unbalanced, missing operands) are rejected. A field criterion ranges over the fields with matching tag and occurrence, any field by default and every field with ALL,
 and a field cardinality counts the matching fields.''',
 ['inputs'],'''all token sequences up to length 7 (thorough: 9) over {atoms, !, (, ), connectives}, each accepted one evaluated on all
 assignments of its atoms; all field criteria x quantifiers x records of up to three fields''',
 '''Tests evaluate a few fixed expressions; precedence and grouping errors need particular shapes (three operators, negated groups) and particular truth assignments.''',
 ['src/matcher/field/mod.rs','src/matcher/field/parser.rs','src/matcher/subfield/mod.rs','src/matcher/subfield/parser.rs'],
 [('grammar','src/matcher/{field,subfield}/parser.rs'),('evaluation','src/matcher/{field,subfield}/mod.rs: is_match')])

p('C08','Combining matchers through the API is the same as combining their results',
 '''Combining matchers with and, or, xor and not (operators, their assigning forms, and the and/or/not lists of the record matcher builder, applied in any order)
 matches a record exactly if the Boolean combination of the single results holds, with the builder folding its steps from left to right and its not list adding
 "and not" for each predicate. The text form of the combined matcher parses to a matcher with the same results, and a builder transformation is applied to every predicate.''',
 ['histories'],'''all sequences of up to 3 (thorough: 4) combination steps over an alphabet of operand expressions (atoms, composites, groups, negations) x all truth assignments''',
 '''Tests combine two atoms with one operator; lost parentheses only show for particular operator sequences.''',
 ['src/matcher/builder.rs','src/matcher/record.rs','src/matcher/field/mod.rs','src/matcher/subfield/mod.rs'],
 [('builder','src/matcher/builder.rs: and, or, not'),('operators','src/matcher/*/mod.rs: BitAnd, BitOr, BitXor, Not')])

p('C09','Parsing an expression does not depend on what was parsed before',
 '''Whether a filter, path, query or format expression is accepted, and what it then means, depends only on its text: not on expressions parsed
 (successfully or not) before on the same thread, nor on parsing in other threads. The time to parse grows moderately with
 the length of the expression, also for deeply nested and unbalanced ones.''',
 ['histories','schedules','inputs'],'''all histories of up to three parses over an alphabet of accepted and rejected expressions with nesting at the limits,
 repeated failing parses up to 300 times, fresh threads as reference; nesting families of size up to 40 with a work bound''',
 '''The parser keeps the nesting level in a thread local that leaks only on particular failing parses; a test parses each expression once in a fresh state.''',
 ['src/matcher/field/parser.rs','src/matcher/subfield/parser.rs','src/fmt/parser.rs'],
 [('nesting level','src/matcher/{field,subfield}/parser.rs: nested; src/fmt/parser.rs: nested')])

p('C10','The text form of an expression denotes the same expression',
 '''For every accepted tag, occurrence, filter, path, query or format expression the text form is accepted again and the expression parsed
 from it behaves identically; serialising and deserialising gives the same expression, and deserialising a malformed expression is an error.
 Borrowed and owned records, fields, tags, occurrences and subfields compare equal exactly if their contents are equal, both
 have the same serialised form, and deserialising it gives the owned form unchanged.''',
 ['inputs'],'''all expressions of the alphabets of the other properties (criteria, Boolean token sequences, paths, queries, formats)''',
 '''Tests serialise a few expressions; display of negation, groups and quantifiers has many shapes.''',
 ['src/matcher/field/mod.rs','src/matcher/subfield/mod.rs','src/matcher/tag.rs','src/matcher/occurrence.rs','src/path.rs','src/query.rs','src/fmt/mod.rs'],
 [('Display and serde','impl Display/Serialize/Deserialize')])

p('C11','A path yields exactly the values of the selected subfields in record order',
 '''Evaluating a path on a record yields the values of the subfields whose code is listed, in record order, of exactly the fields whose tag and occurrence match and whose
 subfields satisfy the optional condition. The first value is the first of them, and the PPN is the first value of 003@ $0; text records give the same values.
 Every notation of the same path is equivalent, and malformed paths are rejected.''',
 ['inputs'],'''all paths over an alphabet (tag patterns x occurrences x code lists and groups x conditions x notations) x all records of up to three fields over an alphabet of fields''',
 '''Tests evaluate single paths on a fixture.''',
 ['src/path.rs'],[('evaluation','src/path.rs: PathExt::path, first, ppn'),('grammar','src/path.rs: parse_path')])

p('C12','A query yields the documented table for every record',
 '''A query yields, per fragment, one row group: for a path the rows of all matching fields, each the cross product of its code groups with an empty
 cell for a missing code; a literal one cell; a format one row per value; an empty row of the right width if nothing matches. Fragments are combined as cross product in order; squash joins repeated subfields of a code group,
 merge joins all rows of a fragment, with the separator. Every row has the same number of columns.''',
 ['inputs'],'''all queries of up to three fragments over an alphabet of fragments x squash x merge x separators x all records of up to three fields''',
 '''Tests evaluate single queries on fixtures; the product/merge/squash interplay depends on the multiplicities of all fragments at once.''',
 ['src/query.rs'],[('evaluation','src/query.rs: Fragment::query, Outcome add/mul/squash/merge'),('grammar','src/query.rs: parse_query')])

p('C13','A format expression renders fields by its documented rules',
 '''A format yields one text for each matching field that renders non-empty, in record order. A value takes the first (with '..n' at most n, with '..' all) subfields with a listed code in field order, each with prefix and suffix;
 '<*>' concatenates, '<$>' (binding tighter) stops at the first empty part, parentheses group. Modifiers of a value or group strip the first '@', trim, remove blanks, lower and upper case, and
 the option to strip overread characters applies to every subfield.''',
 ['inputs'],'''all format expressions of up to three fragments (nesting up to three, thorough: four fragments) over an alphabet of values, modifiers and bounds x all fields of up to three subfields over an alphabet''',
 '''Tests render single fixtures; operator binding and modifier order need particular combinations.''',
 ['src/fmt/mod.rs','src/fmt/parser.rs'],[('rendering','src/fmt/mod.rs: fmt_field, Modifier::modify'),('grammar','src/fmt/parser.rs')])

p('C14','No input makes the library panic',
 '''Parsing any byte string as a record or any text as a filter, path, query, format, tag or occurrence expression, with any nesting, and evaluating every accepted expression on every
 record returns a value or an error and never panics, overflows or exhausts the stack.''',
 ['inputs'],'''all token sequences up to a length over the union of the expression alphabets, all pairs of single character edits of a seed corpus, numeric extremes, nesting up to 100000; evaluation on a set of
 extreme records''','''Fuzz targets sample; tests never feed extreme numbers or nestings.''',
 ['src/lib.rs','src/matcher/subfield/parser.rs','src/matcher/field/parser.rs','src/fmt/parser.rs','src/path.rs','src/query.rs','src/parser.rs'],
 [('limits','nested; verify_map on numbers')])

p('C15','filter outputs exactly the matching records, unchanged and in input order',
 '''The filter command writes exactly the records that satisfy the filter expression combined with its and/or/not options, in input order and, unless fields are kept or discarded, byte for byte as read. With --invert-match exactly the others are
 written; --limit stops after that many matches; kept and discarded field lists apply to each written record, whose empty remainders are not written. All
 inputs ("-" is standard input) are processed in the order given, whether the filter is an argument or read from a file; the similarity operator uses the threshold given (75 percent by default).''',
 ['inputs','configurations'],'''all streams of up to three records over an alphabet x filter expressions x combinations of the options, on the real binary''',
 '''Tests run single option combinations on one fixture.''',
 ['crates/pica-cli/src/commands/filter.rs','crates/pica-cli/src/utils.rs'],[('selection','crates/pica-cli/src/commands/filter.rs: execute')])

p('C16','Every input line is either processed or reported, never silently lost',
 '''The invalid command outputs exactly the lines that are not valid records, and all other record processing commands process exactly the remaining lines when skipping invalid records is requested; together they
 partition the input. Without that request the first invalid line makes the command fail with a non-zero status and a message naming the line; an I/O or decompression error always fails.''',
 ['inputs','fault_sequences'],'''all sequences of up to four lines over an alphabet of valid and invalid lines x commands x --skip-invalid x plain/gzip/stdin, truncations of gzip input at every byte''',
 '''Tests use fixtures with one invalid line for few commands.''',
 ['crates/pica-cli/src/commands/invalid.rs','crates/pica-cli/src/commands/mod.rs','src/reader.rs'],[('skip','skip_parse_err in each command'),('invalid','crates/pica-cli/src/commands/invalid.rs')])

p('C17','slice outputs exactly the requested range of records',
 '''The slice command writes the records at the zero-based positions from start (inclusive) to end (exclusive), or start to start + length, in input order and
 unchanged; skipped invalid lines count as positions. Without options everything is written, and a range beyond the input yields what exists. With filter options, only the selected records are written.''',
 ['inputs','configurations'],'''all streams of up to five lines over {valid, invalid} x all start, end, length in 0..6 and extreme numbers''',
 '''Tests try few ranges on one file.''',
 ['crates/pica-cli/src/commands/slice.rs'],[('range','crates/pica-cli/src/commands/slice.rs: execute')])

p('C18','split and concat are inverse to each other',
 '''The split command distributes the records over consecutive files of exactly the chunk size (the last may be smaller), in order and without loss, duplication or change; no file is empty, except for a single one if there are no
 records. Concatenating them in order gives the input (with filter options, the selected records). The concat command writes the records of its inputs in order; --tee writes the same records to both outputs.''',
 ['inputs','configurations'],'''all streams of 0..8 records x chunk sizes 1..9 x gzip x template x skip-invalid; all lists of up to three input files''',
 '''Tests split one fixture at one size.''',
 ['crates/pica-cli/src/commands/split.rs','crates/pica-cli/src/commands/concat.rs'],[('chunks','crates/pica-cli/src/commands/split.rs: execute'),('concat','crates/pica-cli/src/commands/concat.rs: execute')])

p('C19','partition puts every record into exactly the files of its path values',
 '''The partition command writes each record to the file of each distinct value its path selects and to no other file, preserving the input order inside each file; the union of the files is the set of records having a value
 (values that are plain file names). Records without value or not selected by the filter options are written nowhere, and --limit stops after that many records.''',
 ['inputs','configurations'],'''all streams of up to four records over an alphabet of value sets x path shapes x gzip x template''',
 '''Tests partition one fixture by one path.''',
 ['crates/pica-cli/src/commands/partition.rs'],[('writers','crates/pica-cli/src/commands/partition.rs: execute')])

p('C20','concat --unique keeps exactly the first record of each key',
 '''With --unique the concat command writes exactly the first record for each key (the identification number or, on request, the whole record) over all inputs in order, and no record is lost
 whose key was not written before. Records without identification number are handled as documented for the strategy, and repeating the command on its output changes nothing.''',
 ['histories','inputs'],'''all sequences of up to five records over an alphabet with equal/different keys and contents, spread over up to three inputs x strategies''',
 '''Tests use one duplicated file.''',
 ['crates/pica-cli/src/commands/concat.rs'],[('seen set','crates/pica-cli/src/commands/concat.rs: execute')])

p('C21','explode distributes the fields of a record over its levels correctly',
 '''Exploding a record at main level gives the record, at local level one record per local block and at copy level one per copy, each consisting of
 the fields of the enclosing levels followed by its own fields in order. Every field of a level occurs in exactly the records of the entities below it, options filter the exploded records, and
 fields can be kept or discarded.''',
 ['inputs'],'''all sequences of up to seven (thorough: eight) fields over main, local and copy fields (with different occurrences) x levels x options''',
 '''Tests explode one fixture; block boundaries depend on the sequence of levels and occurrences.''',
 ['crates/pica-cli/src/commands/explode.rs'],[('levels','crates/pica-cli/src/commands/explode.rs')])

p('C22','Converting between encodings preserves every record',
 '''The convert command writes each record in the requested encoding (plus, plain, binary, import, JSON, XML) such that a decoder of that encoding recovers the same tags, occurrences,
 codes and values in the same order, for all values including delimiters and characters special to the encoding (JSON and XML: of all text the format can represent). Every record is written exactly once, and converting PICA+ to PICA+ is the identity.''',
 ['inputs'],'''all records of up to two fields over an alphabet of tags, occurrences, codes and values with all special characters of the encodings (thorough: all ASCII characters and pairs of special ones) x target encodings x streams of up to two records''',
 '''Tests convert one fixture per encoding; quoting depends on particular characters.''',
 ['crates/pica-cli/src/commands/convert/mod.rs','crates/pica-cli/src/commands/convert/json.rs','crates/pica-cli/src/commands/convert/plain.rs','crates/pica-cli/src/commands/convert/xml.rs','crates/pica-cli/src/commands/convert/binary.rs','crates/pica-cli/src/commands/convert/import.rs'],
 [('writers','crates/pica-cli/src/commands/convert/*.rs')])

p('C23','count, frequency, hash and describe report exact figures',
 '''The count command reports the exact numbers of records, fields and subfields; frequency the exact number of occurrences of each row of its query, sorted by count (then value) with limit and threshold applied to
 this order; hash one row per record with its identification number and the SHA-256 digest of its bytes; describe the exact number of subfields with each code for each tag (over all occurrences). Any filter options restrict the records counted.''',
 ['inputs','configurations'],'''all streams of up to four records over an alphabet x options (reverse, limit, threshold, csv/tsv, unique, append) of each command''',
 '''Tests compare one fixture per command.''',
 ['crates/pica-cli/src/commands/count.rs','crates/pica-cli/src/commands/frequency.rs','crates/pica-cli/src/commands/hash.rs','crates/pica-cli/src/commands/describe.rs'],
 [('counters','execute of the commands')])

p('C24','select writes exactly the rows of the query',
 '''The select command writes, record by record in input order, exactly the rows of the query result as a well-formed CSV or TSV table that decodes to the
 original cells; --no-empty-columns, --unique, --limit, squash, merge and header behave as documented. Rows that are entirely empty are not written. Filter options restrict the records, and --translit gives the cells in the requested normal form.''',
 ['inputs','configurations'],'''all streams of up to three records over an alphabet with quoting-relevant values x queries x options''',
 '''Tests run single options on fixtures.''',
 ['crates/pica-cli/src/commands/select.rs'],[('rows','crates/pica-cli/src/commands/select.rs: execute')])

p('C25','check reports exactly the violations of its rules',
 '''The check command writes one row for each record and each rule it violates (identification number, rule id, level and message), records in input order and the rules of a record in the order of their ids (violations of link rules after all others, sorted by identification number), within the scope of the rule set and the filter options; violations do not change the exit status. Every kind of check (filter, allow, datetime, duplicates, isni, iso639-2b, jelc, link, unicode) reports exactly the records its documentation describes: duplicates counts the values of one record against its threshold; a link is satisfied by its target in any record of the input, whatever the order of the records.''',
 ['inputs','histories'],'''all streams of up to three records (permutations included) over an alphabet of field values x rule sets of one and two rules of each kind and option; all valid and all one character variations of ISNI, date, language and classification codes''',
 '''Tests run one rule on one fixture.''',
 ['crates/pica-cli/src/commands/check/mod.rs','crates/pica-cli/src/commands/check/rule.rs','crates/pica-cli/src/commands/check/set.rs','crates/pica-cli/src/commands/check/checks/mod.rs'],
 [('rules','crates/pica-cli/src/commands/check/checks/*.rs')])

p('C26','Allow and deny lists restrict the records the same way in every command',
 '''With allow lists a command processes exactly the records whose key is in one of the lists, with deny lists exactly those whose key is in none, a record in both is denied; the remaining filter options
 (filter expressions, ignoring case, similarity threshold, limit) apply in addition. The lists may be given in any number of files, formats and compressed or not with the same effect, and the key column and source path can be selected.''',
 ['inputs','configurations'],'''all subsets of three keys as allow and deny list (absent included) x list formats x number of files x commands x source path''',
 '''Tests use one list in one or two commands.''',
 ['crates/pica-cli/src/utils.rs'],[('filter set','crates/pica-cli/src/utils.rs: FilterSet')])

p('C27','Output is complete, and a failure to write it is reported',
 '''When a command exits successfully all its output has reached the requested destination: appending adds to the existing content (also for gzip), not appending replaces it, a .gz name or the gzip option gives a
 complete gzip stream, and a file gets the same output as standard output. When the output cannot be written completely (and not because its reader has closed the pipe) the command exits with a failure and a message; no command crashes on a closed pipe.''',
 ['fault_sequences','histories'],'''all histories of up to three (thorough: four) writes (append/truncate, plain/gzip, several inputs) to the same file for 19 writers; 79 commands and outputs x four inputs x a full destination after every number of bytes (short outputs, the first and last 40 bytes and around multiples of 4096; thorough: 300 and 512), full device, closed pipe, unusable path''',
 '''Tests write small output to a healthy disk; lost errors on flush need a fault at a particular byte.''',
 ['src/writer.rs','crates/pica-cli/src/commands/convert/mod.rs','crates/pica-cli/src/commands/frequency.rs','crates/pica-cli/src/commands/select.rs','crates/pica-cli/src/main.rs'],
 [('finish','src/writer.rs: finish; flush at the end of each command')])

p('C28','sample returns a random sample without replacement',
 '''The sample command writes min(n, number of records) records that are all different input records, unchanged; the same seed and records give the same sample, and filter options restrict the population.
 Every record can be part of the sample, and over the seeds the records are drawn about equally often.''',
 ['inputs','configurations'],'''all populations of 0..8 records (thorough: 14) x sample sizes 1..10 x seeds; all streams of up to three lines over an alphabet of records and invalid lines; 200 seeds (thorough: 1024) for every population and size''',
 '''Tests draw one sample with one seed.''',
 ['crates/pica-cli/src/commands/sample.rs'],[('reservoir','crates/pica-cli/src/commands/sample.rs: execute')])

p('C29','Configuration changes are durable, isolated and never crash the tool',
 '''After any sequence of config commands the value of each option is the last one set (or unset), independent of changes to other options; an invalid value or option is refused and changes nothing, and a command that fails or
 crashes leaves either the old or the new configuration. A malformed configuration file gives an error message in every command, never a panic or the silent loss of its settings. The options take effect like their command line equivalents:
 skipping invalid records, and normalising filter expressions, queries and rule sets (but not the data).''',
 ['histories','crash_points'],'''all states of the configuration file reachable by any sequence of 38 config commands (to the fixed point) from six start files in three places; every truncation and one byte change of a configuration file; crash, torn write and error at every file operation; all commands x streams x configurations''',
 '''Tests set and get single options.''',
 ['crates/pica-cli/src/commands/config.rs','crates/pica-cli/src/config.rs'],[('persistence','crates/pica-cli/src/config.rs: from_path, save')])

p('C30','print shows every field and subfield of every record',
 '''The print command writes each selected record as one line per field, with tag, occurrence and all subfields (code and value) in order, followed by a blank line, so that the text determines the record (unless a value looks like a subfield
 code). Values are printed as they are, or in the requested normal form with --translit; --limit and the filter options apply. Values that are not valid UTF-8 do not stop it.''',
 ['inputs','configurations'],'''all fields of five tags x seven occurrences x up to two (thorough: three) subfields over an alphabet of codes and values; all records of up to three and pairs of records of up to two fields; all streams of up to four lines x limits x destinations; all sequences of up to three tokens x normal forms''',
 '''Tests print one fixture.''',
 ['crates/pica-cli/src/commands/print.rs'],[('printing','crates/pica-cli/src/commands/print.rs')])

p('C31','Partial, interrupted and failing system calls never change a result',
 '''Whatever number of bytes the system transfers in a single read or write, and if a read is interrupted, every command writes exactly the same output. A read or write error at any call makes the command exit
 with a failure and a message, also when invalid records are skipped, and an interrupted write is retried or reported.''',
 ['fault_sequences'],'''79 commands and outputs x two (thorough: four) inputs given as file, standard input, gzip file and both x nine deviations x every read and write call of the run''',
 '''Tests run on a healthy system with small files, where every call transfers everything.''',
 ['src/reader.rs','src/writer.rs','crates/pica-cli/src/commands','crates/pica-cli/src/utils.rs','crates/pica-cli/src/error.rs'],
 [('reading','src/reader.rs: next_byte_record'),('skipping','src/error.rs: skip_parse_err'),('writing','src/writer.rs and the writers of the commands')])

p('C32','The result of a command is a function of its options and its input lines',
 '''A command processes the lines of its inputs in the order in which the inputs are named, as if they were one file: the same lines give the same standard output, files and exit status however they are distributed over
 files, whether they come from plain files, gzip files (with one or several members), standard input (named "-" or not named) or any mixture, whatever the files are called, with and without a progress bar.
 Positions, limits, headers, keys seen and the state of rules continue across inputs. Neither the environment (locale, time zone, home directory, terminal) nor random seeds of the process (the order of hash tables) have an influence; two runs are the same.''',
 ['inputs','configurations','schedules'],'''72 command lines of all record processing commands x all streams of two and three (thorough: four) lines over an alphabet of five (one invalid, with and without --skip-invalid) x all distributions over files; three (six) streams x distributions x seven kinds of inputs for each part; repeated mentions of files; 20 file names; 12 (100) random seeds; 22 settings of environment variables; cuts around buffer boundaries up to 64 KiB''',
 '''Tests read one fixture from one file in one environment; state that is reset or kept per input and orders of hash tables show only under particular distributions or seeds.''',
 ['src/reader.rs','crates/pica-cli/src/commands','crates/pica-cli/src/utils.rs','crates/pica-cli/src/main.rs'],
 [('inputs','src/reader.rs: ReaderBuilder::from_path'),('loops over the inputs','crates/pica-cli/src/commands/*.rs: execute')])

p('C33','Every spelling of a command line means the same, and senseless ones are refused',
 '''An option may be given in its long or short form, its value separate, attached or after an equals sign, short flags may be joined, options may stand before, between or after the positional arguments and "--" ends them,
 and commands may be called by their alias or an unambiguous beginning of their name: the result is the same, and each documented option has an effect. A custom configuration file can be named with -c/--config.
 Unknown commands, unknown options and values of the wrong kind are refused with a message and a failure, before anything is written.''',
 ['inputs','configurations'],'''269 options and values of all commands x all spellings x all places in the command line; all pairs of short flags and short options; all beginnings of all command names; the spellings of --config in 12 commands; 115 wrong command lines''',
 '''Tests use one spelling of each option in one place.''',
 ['crates/pica-cli/src/cli.rs','crates/pica-cli/src/main.rs','crates/pica-cli/src/commands'],
 [('options','crates/pica-cli/src/cli.rs: Args, FilterOpts and the option structs of the commands')])

import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
EXTRA={
 'C06':'the older notations against the current ones; default options; the constructors of the single kinds of criteria',
 'C07':'the constructors of the single kinds of field criteria',
 'C10':'all strings of up to four characters in text forms; all pairs of values, codes, tags, occurrences, subfields, fields and records by every comparison',
}
PRIM='records with every tag, occurrence, subfield code (and pair of codes) and byte, and about 110 values that are easily mistaken for each other'
LONG='streams, records, values and lists beyond 2^8, 2^16 and 64 KiB'
for q in P:
    n=int(q['id'][1:])
    e=[EXTRA[q['id']]] if q['id'] in EXTRA else []
    if n in list(range(15,27))+[28,30]: e.append(PRIM)
    if n in [1,2,3,6,7,8,11,12,13]+list(range(15,27))+[28,30]: e.append(LONG)
    q['quantifier']['text']='; '.join([q['quantifier']['text']]+e)
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
