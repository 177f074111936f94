claim("C01","path-sensitive error-flow typestate over SSA (error discipline)",
"Sound for the analysed call sites up to the stated exemptions (releases, stderr, in-memory and bufio writes, debug dumps); trusts that foreign functions report failure through their last result and that Flush reports earlier bufio failures. Decides that a failure is reported, not what the message says.")
claim("C02","path-sensitive error-flow typestate over SSA plus a scanner/Err protocol typestate",
"As C01, for the tokenizer library and gosudachicli. Errors of a line the user chose to ignore with -f are followed only up to the branch on that flag.")

claim("C03","path-sensitive typestate over SSA with inlining (buffered-writer protocol)",
"Every bufio.Writer the code creates is followed from creation through helpers, closures and defers; a path on which a call reports success, repositions the file, or writes to it by another route while the buffer may hold data is reported. Trusts that Flush empties the buffer or fails.")
claim("C04","path-sensitive ownership typestate over SSA with inlining, plus Close-completeness",
"Every open/map site is followed to every exit of the exported entry point that reached it; an owner must be released, returned in the successful result, or stored in an object that is. Process exits count as release. Trusts that Close/Munmap release even when they report an error.")

claim("C22","constant decoding of the embedded table, compared with the resource directory; interprocedural constant propagation of resource names",
"Exact for the embedded constants: they are decoded from the type-checked source and compared with data/root byte for byte, both ways. The names with which resources are opened are resolved through all call chains; the configuration field each is the default of is found from the path opened on the other branch. Trusts compress/gzip and that Read/Seek of the generated file system deliver the constant they are handed.")

claim("C05","points-to and mod analysis over SSA (inclusion-based, field-sensitive, call-string-sensitive)",
"Sound for writes in the module's own code, its seven plugins included, to anything that existed before the tokenizer (one shared object that points to itself) and to package variables; foreign calls write to what they are handed unless listed as read-only. Trusts that list (strings, strconv, unicode, fmt formatting, bytes functions, binary getters, norm). Plugins from outside the module are out of scope. Decides absence of writes, hence of races; it does not look for lost determinism inside foreign code.")
claim("C19","noninterference: interprocedural taint of the debug writer, control-dependence regions, points-to/mod analysis of the region",
"Decides that code run only because there is debug output neither returns, panics by statement, chooses a value used later, nor writes to memory older than itself. Run-time panics inside debug code (index out of range) are not decided. Same trust in foreign functions as C05.")
claim("C06","points-to and mod analysis (what survives a call) plus interprocedural must-reset-before-read dataflow",
"Sound for the tokenizer's own memory as the points-to analysis finds it: every location of it a call may write must be replaced or emptied on every path before anything reads it. Element 0 of an emptied list (the sentence-start sentinel) is taken as constant, which holds because no node has length 0. A cache keyed so that it would be right is reported as well.")
claim("C20","abstract interpretation (constant propagation, value numbering, loop induction) of the category parser, lookup, definition readers and unknown-word generation","Each of the sixteen names, and a value different from all of them, is propagated through the parser; each of the sixteen bits through the unknown-word provider; readers and lookup are decided for an arbitrary loop iteration. Trusts strings.Fields/HasPrefix. Does not decide what the ranges of char.def should be.")
claim("C15","abstract interpretation: constant propagation of each name (and of a value different from all constants) through the plugin constructors and the command's registry; path facts of an arbitrary settings entry","Every name, and a name different from every constant, is propagated through the eight constructors; package initialisation (the registry of types, reflect.TypeOf/New/Interface/PkgPath/Name) is interpreted. An arbitrary iteration of the entry loops is decided by path facts. Trusts encoding/json to fill the field named by key or tag. Which of name and class wins when an entry has both is not decided.")
claim("C12","abstract interpretation with the header's version bound to each known version and to a value different from all of them","For each opener and each version the paths that can end without an error are enumerated; the number and position of the sections read and the length of the file are path facts at those ends. Trusts mmap to map as many bytes as asked for.")
claim("C13","abstract interpretation: interval facts on the number of lexicons, induction over loads","Every store to the set's list of lexicons is judged on every path from the exported loading functions, assuming at most 16 before it; a refusal must be explained by a failed call or a full set, and may not follow a change to anything older. LexiconSet.Add itself is not guarded: callers from outside the module that build sets themselves are out of scope.")
claim("C21","abstract interpretation with loop induction over plugin lists (once-per-plugin, all-before-first-use), and a wiring check of the lists","NewJapaneseDictionary and Tokenize are interpreted; each loop over a plugin list is decided for an arbitrary round (right element, stepped by one, run to the end) and calls that reach Tokenize must come after the loops that set plugins up. Plugin lists may come only from the caller's own lists. What a plugin does with what it is given is C06/C20's matter. A plugin whose SetUp calls back into the tokenizer is out of scope.")
claim("C18","abstract interpretation with the mode bound to each constant it is compared with and to a value different from all of them; loop induction on the pieces","Tokenize, MorphemeList.Split and Morpheme.Split are decided for every mode: whether a word is kept or split is a path fact on the length of the mode's own list of that very node, and an arbitrary round of the splitting loop must add exactly one new node with the unit's id, chained begin and own headword length. Split's word info argument is taken to be the node's (it is, where Morpheme.Split calls it).")
claim("C17","abstract interpretation with loop induction over an arbitrary predecessor; who may write the links and lists; order of insertion","Every function that writes a node's links is interpreted: a round over the predecessors must keep the invariant 'best so far', each skip explained by unreachability, inhibition or a cost not below the best, each link by their opposites, with the cost term exact; all terms are 64-bit sums of 16-bit values, overflow of which is out of reach. Insert, the sentence-start node and the order of insertion and end-of-sentence link in Tokenize are decided too. Plugins that edit nodes after insertion are out of scope.")
claim("C07","origin tracing of every write to number storage (who made the memory), inductive class invariant of the copy flag and comparison of edits with later reads by abstract interpretation, propagation of mapping protections","Every store, copy, append and mutating library call on byte or number storage is traced to where the memory was made; the two tables that may be the mapped file and are written must be proved private at the write by an invariant on a flag of the same struct, checked at every function that touches either. After an edit the getter and the dump are interpreted from the state the edit leaves and must name the same cell of a whole copy, as terms. Only the Unix mapping code is analysed (build tags). Copying the table with a hand-written loop would be reported though right.")
claim("C14","abstract interpretation: interval and bit facts at every narrowing conversion, and on every path that goes on without it","Every conversion to an 8- or 16-bit integer reached from the exported building and writing functions is decided on every path (ranges, parsed-number ranges only where the error is known nil, where each bit comes from); a path that knows a value does not fit must end in an error or the -1 that callers are shown to test. Lengths of a field read back from an opened dictionary are assumed non-negative where every store of the field is. Trusts strconv's bit sizes.")
claim("C16","abstract interpretation of the settings parser: each setting's final value, on every path, as a term over the document's keys and the previous value; loop induction for the user dictionaries","Decoding is modelled as: each field of the fresh struct holds the value of the key encoding/json gives it, or nothing. On every path to an end without an error each of the nine settings must be exactly the key's value (resolved, for paths, as the path's facts on emptiness and absoluteness demand) or exactly what it was. Getters must look at their own list only; commands must parse into one object against one directory. Trusts encoding/json, filepath.IsAbs and filepath.Join.")
claim("C10","abstract interpretation with bit-level value provenance: dictionary and entry bits at every lookup, tag and part-of-speech shift, on every path; loop induction over a word's references","Every exported method of the lexicon set and its iterator, the builder's reference functions, the list of parts of speech, the loader and the node constructors are interpreted; which bits of which value a dictionary number, entry number or tag is made of is read off the terms, so any way of writing it counts. Entry numbers are assumed to need no more than 28 bits and dictionary numbers no more than 4 (C13, C14). Part-of-speech ids are compared modulo 2^16.")
claim("C11", "abstract interpretation with exclusive-or bit provenance: every step of every search and every unit the builder writes against one layout, by loop induction",
"Any trie, key and offset, both encodings of offsets. Ids of units are taken to be below 2^29. That no two nodes are given the same place is decided only as far as the flags the builder asks for and sets; the set of intersections is checked for 64 members, word by word.")

claim("C08", "abstract interpretation recording what is written and read, in order, with loops and byte counts by induction; compared with the layout of the format; bit-level comparison of numbers and length prefixes",
"Every writer and reader of a dictionary file, the two builders' and the converter's main programs included, is interpreted; the events that arrive at the output (through buffers and buffered writers, over loops for an arbitrary round) are matched with one layout, and so is every lookup. Writes are assumed to succeed or fail as a whole (C01, C03). A list of parts of speech built by append rather than by index would be reported though right; the trie's own content is C11.")
claim("C09", "abstract interpretation of the path of each column: line to entry, entry to record, record to accessor, accessor to morpheme, lattice node and printed line; each end compared with the column as a term",
"Any lexicon text. The columns of a line must not be written to once read (checked). Decides which column goes where, not what the line reader makes of quotes and escapes; the record on the disk is compared as in C08. Lists of parts of speech must be ones nobody else writes to. The printer is followed through Fprintf, Join, builders and concatenation; another way of putting a line together would be reported though right.")
claim("C24","abstract interpretation: loop induction along the chain of predecessors and on its reversal (in place, copied, prepended or counted); value numbering of what accessors give and setters leave",
"Every way to collect and reverse the chain that is a counted loop over mirrored places is accepted. What the offsets and best predecessors are is decided elsewhere (C28, C17); the chain is taken to end at the beginning of the sentence because every link leads to a node inserted earlier (C17).")
claim("C23","abstract interpretation: typestate per position, word and provider; loop induction with a ghost of whether something has been found; induction over the iterators of dictionaries, entries and trie",
"Tokenize is interpreted up to the reading of the path; variables that remember whether something was found are recognised by induction (flags that do not keep step are discarded, then the answers told are compared with the ghost). Whether the trie's search finds the stored keys is not decided here (C11 has its steps, C41 is not claimed). Providers of third parties are taken as they are.")
claim("C26","abstract interpretation: contents of the path after stores, copies and appends, positions compared by elimination in linear inequalities; folds over the joined words; loop induction for the cheapest node; effects of the plugins",
"Ranges outside the path are not considered. Which words the plugins choose to join is not decided. The plugins' effects are those of the repository's own plugins. Texts may be put together by appending, adding, builders or Join; another way would be reported though right.")
claim("C28","abstract interpretation: contents of the offset tables after stores, copies, appends and nested loops, positions compared by elimination in linear inequalities; induction over the bytes passed; value numbering of the accessors",
"Replacements outside the text are not considered. The runs of characters of one category and the places where words may begin are not covered. The table of offsets is taken to be one longer than the text (shown for every builder made and rewritten). Builds that walk the text with range over a string or encode characters one by one would be reported though right.")
claim("C25","abstract interpretation: typestate per category, length and configured word; induction over the loops that offer words and read lines; value numbering of the words and of the columns they come from",
"What the methods of the text give (runs, categories, lengths in bytes) is taken as they are: C28 and C20 decide parts of it, the runs are not decided. Runs longer than 32767 bytes do not fit into the length of a word (int16). Words collected in lists of their own are followed three lists deep.")
claim("C27","abstract interpretation of the command from main: typestate per file, line and morpheme; induction over the loops; contents of the lines printed, however put together; value numbering of the flags",
"The library is taken as it is (its own properties are claimed elsewhere), and so is how the scanner cuts the input into lines. What fails elsewhere than in a line is covered by C02, flushing by C03.")
claim("C29","abstract interpretation: contents of the buffers as sequences of what was read, with loop invariants found by elimination; typestate of the last read; freshness of the reader's own buffer","bufio is taken to do what it documents (ReadSlice, ReadBytes, ReadString: their error tells whether the line ended, and the bytes of ReadSlice are good until the next read). Only the three functions that cut input into lines are decided; what the command's normalizer does before is not. Readers built on bufio.Scanner or ReadLine would be reported though right.")
