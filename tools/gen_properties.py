#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements can be edited in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="src/dbml.pest"; PA="src/parser/mod.rs"; AN="src/analyzer/mod.rs"; IX="src/analyzer/indexer.rs"; HE="src/analyzer/helper.rs"; ER="src/analyzer/err.rs"; L="src/lib.rs"
AST=["src/ast/%s.rs"%x for x in ("schema","table","enums","refs","indexes","project","table_group","unit")]
API="parse_dbml_unchecked return value"; APIC="parse_dbml return value"

p("P01","No input text makes either parser panic, abort, overflow or hang",
 "For every UTF-8 text, of any size and content, both the checked and the unchecked parse terminate and return either a schema or an error. They never panic, abort the process, overflow an ordinary thread stack or loop for ever, and a returned error can always be formatted.",
 ["inputs"],"every UTF-8 string: well formed, mutated, truncated at any character, random, pathological (very long, very repetitive, extreme numbers, any Unicode)",
 "The tests parse about 25 well-formed fixtures and a handful of invalid ones; a panic needs one particular shape of text (an unusual default value, an index out of range, a slice inside a character) that none of them has.",
 [PA,AN,IX,ER,L],[("pair to tree conversion with unreachable!/indexing/slicing",PA),("semantic checks with unreachable!/indexing/unwrap",AN),("error construction from spans",ER)],[API,APIC,"process exit status","thread CPU clock"])
p("P02","Parsing work and memory stay linear, checking at most quadratic",
 "The number of grammar steps and the bytes of memory that an unchecked parse uses are bounded by a fixed multiple of the length of the text. The additional time and memory of the checked parse grow at most quadratically with the length of the text, and everything allocated is released once the result is dropped.",
 ["inputs"],"every UTF-8 string; families of texts that repeat one construct n times, well formed or broken at the end, for growing n",
 "The fixtures are a few kB and no test measures work or memory; backtracking that explodes, per-item rescans or copies of the whole text show only on growing inputs.",
 [G,PA,AN,IX],[("grammar without nested ambiguity",G),("one pass over the pairs",PA),("indexed lookups",IX)],["pest call counter","allocator counters","thread CPU clock"])
p("P03","Every top-level declaration is reported exactly once, in source order",
 "The parsed schema lists exactly the project, table, enum, ref, table group and note declarations of the text: none lost, none invented, none merged, in source order, each with its kind and its declared name, schema and alias. The per-kind listings (projects, tables, enums, refs, table groups) are the subsequences of that list of their kind, and the result carries the text it was given.",
 ["inputs"],"every document of the grammar: any number, order and mix of declarations, names of any form, any layout",
 "Golden files pin the tree of a few fixed documents; a loss that depends on the number, order, neighbourhood or naming of declarations is not sampled.",
 [G,PA,"src/ast/schema.rs"],[("schema rule and its fold",PA),("listing methods","src/ast/schema.rs")],[API,"SchemaBlock listings"])
p("P04","Table columns, their types, arguments and arrays are reported exactly",
 "Every table reports its columns in order, each with its name and the type as written: the type's (optionally schema-qualified, possibly quoted) name, its arguments in order with their values, and its array dimensions in order with their sizes.",
 ["inputs"],"every document of the grammar: any column list; quoted, qualified, spaced type names; any argument and array list, inside or outside the quotes",
 "The golden files hold a few dozen columns with the usual types; combinations such as qualified quoted types with arguments and several array dimensions are absent.",
 [G,PA,"src/ast/table.rs"],[("column and type conversion",PA)],[API])
p("P05","Settings lists are reported completely and their derived flags agree",
 "For tables, columns, enum values, index definitions, relations and table groups, a settings list is reported present exactly when written, with every key and value in order. Every derived field (primary key, unique, null or not null, increment, note, default, name, index type, update and delete action, database type) is set exactly when, and to the value that, the attributes of that list say.",
 ["inputs"],"every document of the grammar: any list of attributes, keys known and unknown, repeated or not, with and without values of every kind",
 "Tests contain a handful of attribute combinations; derived fields that depend on order, repetition, value kind or an unusual neighbour are not sampled.",
 [G,PA]+AST[1:7],[("settings conversion per construct",PA)],[API])
p("P06","Identifiers and literals keep their exact text and value",
 "The raw text of every identifier and literal is exactly the text it stands for in the source. Its decoded value is the unquoted content (without leading whitespace in single- and triple-quoted strings, otherwise verbatim, comment markers and non-ASCII characters included), the exact integer, the nearest decimal, the boolean, null, colour, expression or bare word that is written, and an integer that cannot be represented is an error rather than another number.",
 ["inputs"],"every document of the grammar: all Unicode content, quotes of each kind inside the others, comment markers in strings, line breaks, numbers around every representation limit",
 "The quantifier is over arbitrary contents; the fixtures use plain ASCII words and small numbers.",
 [G,PA,"src/ast/unit.rs"],[("literal rules",G),("value and identifier conversion",PA)],[API])
p("P07","Relations are reported with the right kind, endpoints and columns",
 "Every relation, whether a short or block declaration or an inline column setting, is reported exactly once with its name, cardinality, the schema, table and ordered column list of each endpoint on its own side, and its settings; an inline relation is reported on the column that carries it.",
 ["inputs"],"every document of the grammar: four cardinalities, qualified or not, single or composite columns, named or not, several inline relations per column",
 "Fixtures use few combinations; swapped endpoints, schema/table mix-ups and column order only show for particular shapes.",
 [G,PA,"src/ast/refs.rs"],[("ref statement and ident conversion",PA)],[API])
p("P08","Index definitions are reported with their columns, order and settings",
 "A table's indexes block reports each definition in order, with its columns and expressions in order and in their kind, and with exactly the settings written (name, type, unique, primary key, note); absent things are reported absent, and when a table repeats the block the last one counts.",
 ["inputs"],"every document of the grammar: single and multi-column definitions, names, quoted names and expressions mixed, any settings",
 "Fixtures hold a few index blocks; the property ranges over all mixes and orders.",
 [G,PA,"src/ast/indexes.rs"],[("indexes conversion",PA)],[API])
p("P09","Enum, project, table group and note bodies are reported exactly",
 "Enums report their values in order with their settings; projects report their properties in order with key and value, their database type and note; table groups report their items in order with schema and name and their note; notes of every form report the text they contain. Notes of tables, groups and projects belong to the block that contains them and, when repeated, the last one counts.",
 ["inputs"],"every document of the grammar: all body sizes (empty included), orders and contents",
 "Fixtures hold few such bodies in conventional order.",
 [G,PA,"src/ast/enums.rs","src/ast/project.rs","src/ast/table_group.rs"],[("block conversions",PA)],[API])
p("P10","Every reported span is the exact place of its construct in the text",
 "Every span in the parsed schema lies in the text on character boundaries, starts exactly where its construct starts, and ends where it ends (at most followed by whitespace or comments). Spans of identifiers, literals and settings lists delimit exactly their text, children lie inside their parent, and siblings are disjoint and in source order.",
 ["inputs"],"every document of the grammar, in any layout, with multi-byte characters, CRLF and comments anywhere",
 "Golden files pin spans of fixed ASCII documents; drift that depends on multi-byte text, comments or layout is not sampled.",
 [PA,"src/parser/helper.rs"]+AST,[("span capture for each node",PA)],[API])
p("P11","Whitespace and comments between tokens never change the result",
 "Replacing the whitespace and comments between two tokens by any other (spaces, tabs, line breaks of any convention, line or block comments with any content), adding it where tokens may be separated or removing it where it is not needed, changes neither whether the text is accepted nor anything reported except positions.",
 ["inputs"],"every document of the grammar and every re-layout of it",
 "A relation between pairs of texts; no test compares two layouts, and the failing gap is one specific position of the grammar.",
 [G],[("implicit whitespace/comment rules and atomic rules",G)],[API,APIC])
p("P12","Alternative spellings of the same construct give the same result",
 "Documents that differ only in the case of block keywords, in the short or block form of notes and relations, in writing a name bare or in double quotes, in single or triple quotes around a string, in bare or parenthesised single columns, or in the synonym of a setting (pk, primary key) are reported as the same schema up to positions and raw text, and get the same verdict from the semantic check.",
 ["inputs"],"every document of the grammar and every choice of spelling at every place",
 "A relation between pairs of texts; fixtures use one spelling each.",
 [G,PA],[("case-insensitive keywords and alternative forms",G)],[API,APIC])
p("P13","Exactly the texts of the documented grammar are accepted",
 "The unchecked parse accepts a text if and only if it is a sequence of well-formed declarations of the documented syntax whose integers, referential actions and index types are valid: nothing well formed is rejected, and no text with a missing, extra, misplaced or malformed token is accepted or silently skipped.",
 ["inputs"],"every UTF-8 string, in particular well-formed documents after one or a few token, character or byte edits and truncations",
 "The existing tests only check that some fixtures parse; they reject almost nothing, and acceptance of malformed text is never tested.",
 [G,PA],[("grammar",G),("conversions that can fail",PA)],[API])
p("P14","A syntax error points at the offending place",
 "A syntax error's position is never before the start of the innermost statement that could not be completed and never after the first character that no reading of the grammar gets past; for a value that cannot be converted it is exactly that value or its attribute. The reported line and column are those of that position, and the reported excerpt is that line of the text.",
 ["inputs"],"every rejected text: any edit of any document at any place, multi-byte characters and all line break conventions before it",
 "No test looks at the position of an error.",
 [PA,"src/parser/err.rs",G],[("furthest failure tracking of the grammar engine",G),("conversion errors","src/parser/err.rs")],["Error::location","Error::line_col","Error::line"])
p("P15","The result for a declaration does not depend on its surroundings",
 "Parsing the concatenation of well-formed documents gives exactly the concatenation of their results with positions shifted, and a document with one malformed part is rejected wherever that part stands. Removing a declaration changes nothing about how the others are reported.",
 ["inputs"],"all pairs and sequences of documents of the grammar, with any neighbour, at any offset",
 "A relation between several texts; fixtures are parsed one at a time.",
 [G,PA],[("stateless conversion of each declaration",PA)],[API])
p("P16","The checked parse is the unchecked parse plus a verdict",
 "Whenever the checked parse succeeds, the unchecked parse succeeds with the same schema; whenever the unchecked parse fails, the checked parse fails with the same error; and an error of the checked parse on a text that parses is a semantic one. Checking changes nothing in the reported schema.",
 ["inputs"],"every UTF-8 string",
 "No test compares the two entry points.",
 [L,AN],[("checked entry point",L)],[API,APIC])
p("P17","Every schema that obeys the rules passes the semantic check",
 "A document with exactly one project, unique names and keys, existing references, consistent keys, compatible foreign keys, fitting type arguments and defaults, and no conflicting relations is accepted by the checked parse, whatever its size, names, layout, and mix of features. A document without a project block is not.",
 ["inputs"],"every document that violates none of the rules of P18 to P23",
 "Every document in the tests' validator folder is rejected for want of a project, so no accepted document is tested at all.",
 [AN,IX,HE],[("semantic checks",AN)],[APIC])
p("P18","Every duplicate name or key is rejected and nothing else is",
 "The checked parse rejects a document in which two projects, tables of a schema, columns of a table, aliases, enums of a schema, values of an enum, table groups, items of a group (however spelled), attribute keys of one settings list or property keys of the project coincide. Names that merely look alike (other schema, other scope, other letter case, other kind of object) never cause such a rejection.",
 ["inputs"],"every document: any position and distance of the two duplicates, any spelling",
 "Only a few rejections are sampled and all for another reason (no project), so none of these rules is effectively tested.",
 [IX,HE,AN],[("insertion into the index",IX),("duplicate key scan",HE)],[APIC])
p("P19","Every dangling reference is rejected and nothing else is",
 "The checked parse rejects a document if a relation names a schema, table or column that does not exist, an index names a column its table lacks, a table group names a table that does not exist, or a column with a default has a type that is neither known nor a declared enum, or the default is not a value of that enum; it reports no such error when everything named exists.",
 ["inputs"],"every document: references from every place, through aliases and schemas, forward and backward",
 "No existing test reaches these rules for the right reason.",
 [IX,AN],[("lookup of tables, columns and enum values",IX)],[APIC])
p("P20","Relations need matching arity, types and a key on the referenced side",
 "The checked parse rejects a relation whose sides have different numbers of columns, whose column pairs differ in type name, arguments or array dimensions, or whose referenced side (both for many-to-many, either for one-to-one) is not declared a primary or unique key as a whole, by column settings for one column or by an index definition on the same set of columns. A relation that meets these rules is never rejected for them.",
 ["inputs"],"every relation: four cardinalities, 1..n columns, all ways of declaring keys, type synonyms and enum types",
 "No existing test reaches these rules for the right reason.",
 [IX],[("foreign key validation",IX)],[APIC])
p("P21","Relations that contradict each other are rejected and others never are",
 "The checked parse rejects a document in which two relations put the same set of columns of a table on the many side of many-to-one/one-to-many relations, or in which two one-to-one or two many-to-many relations join the same pair of column sets, in whatever direction, form and spelling they are written. Relations between different columns never conflict.",
 ["inputs"],"every set of relations: inline and standalone, mirrored, through aliases, composite in any order",
 "A property of pairs of declarations far apart in the text; not sampled.",
 [IX,AN],[("pairwise occupancy comparison",IX)],[APIC])
p("P22","Key, nullability and index rules are enforced exactly",
 "The checked parse rejects a table with more than one primary key declaration, a primary key column that is nullable or an array, a column both null and not null, an index without columns, an index definition that combines primary key, unique and type, or that repeats the unique key (same column set) or the index (same columns in order and same type) of an earlier one. Tables free of these are never rejected for them.",
 ["inputs"],"every table: keys by column setting and by index definition, any order and number of index definitions, expressions included",
 "No existing test reaches these rules for the right reason.",
 [AN],[("per-table validation",AN)],[APIC])
p("P23","Type arguments and default values are checked against the column type",
 "For known types the checked parse accepts exactly the number of integer arguments the type takes, and rejects a default that does not fit: a string longer than (or, for fixed-length types, not as long as) the declared length in characters, an integer outside smallint or integer range, a boolean for a non-boolean column, null for a column not declared null, a word that is not a value of the column's enum. All other defaults, and all types unknown to it on columns without a default, are accepted.",
 ["inputs"],"every column: all known type names and synonyms, boundary lengths and numbers, multi-byte strings, arrays, qualified enums",
 "The boundaries (length n, n+1; 32767, 32768; multi-byte text) are not sampled by any test.",
 [AN,"src/ast/table.rs"],[("column type validation",AN)],[APIC])
p("P24","A semantic error names a rule really broken and points at the culprit",
 "When the checked parse rejects a well-formed document, the message names a rule that the document really violates (with the true types, names and numbers where it quotes any) and the position is that of an element that violates it, in the coordinates of the given text.",
 ["inputs"],"every rejected document with one or many violations, in any layout, with multi-byte text before the culprit",
 "The tests only check that an error is returned.",
 [AN,IX,HE,ER],[("error construction with message and span",ER)],["Error::variant","Error::location","Error::line_col"])
p("P25","Default schema, alias and direct naming are interchangeable",
 "Writing the default schema explicitly or leaving it out, and naming a table by its alias or by its (qualified) name in relations and table groups, never changes the verdict or the kind of error of the checked parse.",
 ["inputs"],"every document and every choice of spelling at each reference, in both valid and invalid documents",
 "A relation between pairs of texts; fixtures do not mix the spellings.",
 [IX,HE],[("alias resolution and default schema",IX)],[APIC])
p("P26","The verdict does not depend on the order of declarations",
 "Reordering the top-level declarations of a document, the columns of a table, the values of an enum, the items of a group or the attributes of a settings list does not change whether the checked parse accepts it, nor, when a single rule is broken, which rule is reported.",
 ["inputs"],"every document and every permutation of its parts",
 "A relation between pairs of texts; each fixture exists in one order.",
 [AN,IX],[("index built before references are checked",AN)],[APIC])
p("P27","Parsing is a pure function of the text, across calls, threads, processes",
 "Parsing the same text always gives the same result: whatever was parsed before in the process, on whichever thread, concurrently with whatever else, in whichever process, and wherever the text lies in memory. The text is not modified and the result refers to the caller's own text.",
 ["inputs","histories","schedules"],"every text; every history of earlier parses (successful, failing) and every interleaving of concurrent parses in one process",
 "Each test parses each file once on one thread; state leaking between calls or threads needs a particular history or schedule.",
 [L,PA,AN],[("no shared mutable state",L)],[API,APIC,"process boundary"])
p("P28","The relations of a table are found completely and classified correctly",
 "For a checked schema, the relations reported for a table are exactly those with an endpoint on it, each once and in order: outgoing if only the left side, incoming if only the right side, self if both sides lie on it, however the table is spelled (alias, default schema) on either side. Every relation is thus found from both of its tables.",
 ["inputs"],"every accepted document and every table of it (and tables not in it)",
 "The query is not covered by any test.",
 ["src/utils/mod.rs",IX],[("relation query","src/utils/mod.rs")],["get_table_refs result"],"access to the semantic index and the relation query, which are not exported (--cfg dbml_verif)")
p("P29","The name index answers exactly what the document declares",
 "After a successful check, the index says a table, enum, enum value, column or alias exists exactly if the document declares it in that schema, resolves each alias to its table, and lists every relation of the document once, standalone ones first and then inline ones in source order, with their own endpoints.",
 ["inputs"],"every accepted document; queries for declared names and for near misses (other schema, other case, alias as name)",
 "The index is internal and not covered by any test.",
 [IX,AN],[("index of schemas, tables, enums and aliases",IX)],["Indexer query results"],"access to the semantic index, which is not exported (--cfg dbml_verif)")
p("P30","Text conversions of types, actions, relations and values are consistent",
 "Each documented type name and synonym converts to its type and no other text does; relation symbols, index types, referential actions, database types and the words true, false and null convert likewise, case-sensitively and without trimming. Converting a referential action or a value to text and back gives the same thing.",
 ["inputs"],"every string",
 "No test calls the conversions with anything but the words in the fixtures.",
 ["src/ast/table.rs","src/ast/refs.rs","src/ast/indexes.rs","src/ast/project.rs","src/ast/unit.rs"],[("FromStr and ToString implementations","src/ast/*.rs")],["FromStr/ToString results"])
p("P31","No memory error, undefined behaviour or data race on any input",
 "Parsing, checking, querying, formatting and dropping results performs no invalid memory access, no undefined behaviour, no leak and no data race, for any text and when many threads parse at once.",
 ["inputs","schedules"],"every UTF-8 string; every interleaving of concurrent parses",
 "Ordinary tests cannot observe undefined behaviour that happens to work.",
 [PA,AN,IX,L],[("safe Rust only (forbid(unsafe_code)); unsafe code in the dependencies",L)],["AddressSanitizer, LeakSanitizer, ThreadSanitizer and Miri reports"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
