#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Keep in step with MANIFEST.json (tools/manifest.py).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Dictionary tools report every failed step",
"When any read, parse, build, write, seek or flush step fails while a dictionary is being built, converted or printed, the operation does not report success: the library call returns a non-nil error and the command (dicbuilder, userdicbuilder, dicconv, printdic, printdicheader) exits with a non-zero status. End of input is the only condition that may end a read quietly. (The error of merely closing a file is out of scope.)",
["fault_sequences","inputs"],"every fallible call in every function the five dictionary tools can reach, and every control-flow path on which that call fails",
"No test makes a write, seek or flush fail; no test runs any of the five tools at all.",
["dictionary/dicbuilder.go","dictionary/dalexicon.go","dictionary/grammar.go","dictionary/dicheader.go","dictionary/dicprinter.go","dartsclone/dabuilder.go","dartsclone/dawgbuilder.go","dicbuilder/main.go","userdicbuilder/main.go","dicconv/main.go","printdic/main.go","printdicheader/main.go"],
[("error results propagated by every writer","dictionary/dicbuilder.go:(*DictionaryBuilder).WriteGrammar, WriteLexicon"),("os.Exit(1) on every error in the mains","dicbuilder/main.go:main, dicconv/main.go:main")])
p("C02","Tokenizer library and CLI report every failed step",
"When any fallible step fails while settings are parsed, plugins are configured, dictionaries and definition files are loaded, text is tokenized, or results are printed, the failure is not swallowed: the library call returns a non-nil error (or the iterator/scanner reports it through its error accessor, which its users consult when iteration ends), and gosudachicli exits with a non-zero status. Only end of input, and errors of processing a line that the user chose to ignore with -f, are exempt; errors of merely closing a file and of writing debug output are out of scope.",
["fault_sequences","inputs"],"every fallible call in every function reachable from the exported API of the root package and from gosudachicli, and every path on which it fails",
"Tests cover one successful settings parse; no failing plugin, file, iterator or output is ever exercised.",
["dictionary.go","tokenizer.go","plugin.go","settingsjson.go","joinnumericplugin.go","joinkatakanaoovplugin.go","mecaboovproviderplugin.go","definputtextplugin.go","dictionary/charcategory.go","internal/lnreader/lnreader.go","gosudachicli/main.go"],
[("error propagation through loading, Tokenize and the plugins","dictionary.go:NewJapaneseDictionary, tokenizer.go:Tokenize"),("scanner Err protocol","gosudachicli/main.go:runFromReader, tokenizer.go:buildLattice")])
p("C03","Buffered output is flushed before success is reported",
"Whenever a library call or command of this project reports success, every byte it wrote into an output buffer it created has been flushed to the underlying file or stream (output of a line whose failure the user chose to ignore with -f aside). A buffer is also flushed before the file under it is repositioned or written through another path, so bytes cannot land in the wrong place.",
["inputs","fault_sequences"],"every buffered writer created anywhere in the module and every path from a write into it to a successful return, a seek of the underlying file or a second writer on it",
"Buffers are a few KB: small test inputs never fill them, and no test reads back a file a tool produced.",
["dictionary/dicbuilder.go","dictionary/dicprinter.go","dicbuilder/main.go","userdicbuilder/main.go","dicconv/main.go","gosudachicli/main.go"],
[("Flush before each return and each Seek","dictionary/dicbuilder.go:WriteGrammar, WriteLexicon, writeWordInfo; dicconv/main.go:main")])
p("C04","Files and mappings are released on every path",
"Every file, embedded resource or memory mapping that a library call opens is closed or unmapped on every path out of that call, failing paths included, unless it is handed to the caller inside the successful result. Closing a dictionary releases everything it holds: each of its mappings and each of its files, also when releasing one of them fails.",
["fault_sequences","histories"],"every acquisition site in the library packages and every path from it to a return",
"Leaks are invisible to assertions on results; tests never open a dictionary and never take an error path.",
["dictionary/binarydict.go","dictionary/dicprinter.go","dictionary.go","mecaboovproviderplugin.go","definputtextplugin.go","dartsclone/da.go"],
[("Close/Munmap on error paths","dictionary/binarydict.go:NewBinaryDictionary, ReadSystemDictionary, ReadUserDictionary"),("Close","dictionary/binarydict.go:(*BinaryDictionary).Close; dictionary.go:(*JapaneseDictionary).Close")])
p("C05","Tokenizers of one dictionary share no writable state",
"Any number of tokenizers created from one loaded dictionary can tokenize and have their results inspected concurrently: tokenizing text, splitting morphemes and reading morpheme attributes never write to memory reachable from the dictionary, its grammar and lexicons, its plugins, or any package-level variable. Only the tokenizer's own lattice and objects created for the call or its result are written.",
["schedules","histories"],"every store reachable from Tokenize, the plugin callbacks it makes, and the accessors of its results, for all interleavings",
"No test starts a goroutine or tokenizes any text; a race needs a particular interleaving to show.",
["tokenizer.go","lattice.go","morpheme.go","plugin.go","inputtext.go","definputtextplugin.go","joinnumericplugin.go","mecaboovproviderplugin.go","dictionary/lexiconset.go","dictionary/dalexicon.go","dictionary/grammar.go","dartsclone/da.go"],
[("per-call InputTextBuilder, per-tokenizer Lattice","tokenizer.go:NewJapaneseTokenizer, Tokenize"),("word infos are decoded afresh on each lookup","dictionary/dalexicon.go:getWordInfo")])
p("C06","A tokenizer's answer does not depend on earlier calls",
"What a tokenizer answers for a text depends only on the dictionary, the mode and the text, not on what it was asked before, including calls that ended in an error. Whatever a call leaves behind in the tokenizer is discarded before the next call can read it.",
["histories","inputs"],"every sequence of Tokenize calls on one tokenizer, with calls failing at any step",
"No test calls Tokenize at all, let alone after a failing call.",
["tokenizer.go","lattice.go"],
[("lattice emptied before it is filled","tokenizer.go:buildLattice; lattice.go:clear, resize")],
[("endLists","nodes ending at each byte offset, kept between calls","lattice.go:Lattice"),("eosNode","end node, recreated by resize","lattice.go:Lattice")])
p("C07","Mapped dictionary files are never written to",
"The bytes of a mapped dictionary file are never modified: mappings are requested read-only, and changing a connection cost or a word cost in memory first copies the affected table and from then on reads and writes only that private copy. An edit is visible to every later read through the same grammar or lexicon and to nothing else.",
["inputs","histories"],"every store into byte storage anywhere in the module, for every order of cost edits and reads",
"A store to a read-only mapping kills the process only for the one input that reaches it; tests never map or edit a dictionary.",
["dictionary/grammar.go","dictionary/dalexicon.go","dictionary/binarydict.go","internal/mmap/mmap_unix.go","dartsclone/da.go"],
[("copy on first write","dictionary/grammar.go:SetConnectCost, copyConnectTable; dictionary/dalexicon.go:setCost, copyBuffer"),("read-only mapping","dictionary/binarydict.go:NewBinaryDictionary")],
[("isCopiedConnectTable / isCopied","whether the table is a private copy","dictionary/grammar.go, dictionary/dalexicon.go")])
p("C08","Dictionary writers and reader agree on the file layout",
"The dictionary builder, the user-dictionary builder and the converter emit exactly the sequence of sections and fields that the dictionary reader consumes: same order, same width and byte order, same length prefixes and repetition counts, in both string encodings. Table lookups by word id or by pair of connection ids address the bytes the writers put there, and recorded offsets equal the positions at which the records are written.",
["inputs","configurations"],"every dictionary content and both string encodings: the field grammar each writer emits against the one the reader consumes",
"No test writes or reads a dictionary; a sample dictionary would exercise one mix of lengths and counts.",
["dictionary/dicbuilder.go","dictionary/dalexicon.go","dictionary/grammar.go","dictionary/bytes.go","dictionary/dicheader.go","dicconv/main.go","dicbuilder/main.go","userdicbuilder/main.go"],
[("writers","dictionary/dicbuilder.go:WriteGrammar, WriteGrammarUser, WriteLexicon; dictionary/dalexicon.go:Write*; dictionary/grammar.go:Write*"),("reader","dictionary/grammar.go:NewGrammar; dictionary/dalexicon.go:NewDoubleArrayLexicon, getWordInfo")])
p("C09","Each lexicon column comes back through its own accessor",
"The value of each lexicon source column (trie key, left id, right id, cost, surface, part of speech, reading, normalized form, dictionary-form id, A/B splits, word structure) is stored in the record field from which exactly the corresponding accessor of the loaded dictionary, the morpheme and the dictionary printer takes its value. An empty stored reading or normalized form stands for the surface, on the writing and on the reading side alike.",
["inputs"],"every column and every accessor, for all values",
"Tests never build a dictionary and read a word back.",
["dictionary/dicbuilder.go","dictionary/dalexicon.go","dictionary/dicprinter.go","dictionary/wordinfo.go","morpheme.go","lattice.go"],
[("column to field","dictionary/dicbuilder.go:BuildLexicon, writeWordInfo"),("field to accessor","dictionary/dalexicon.go:getWordInfo; morpheme.go")])
p("C10","Word ids and part-of-speech ids keep pointing at their own dictionary",
"A word id carries its dictionary number in its top 4 bits and the entry number in the lower 28, and every lookup by word id uses exactly those parts. Words found in, or split references made within, the n-th dictionary are tagged with n, references into the system dictionary stay untagged, and user-defined part-of-speech ids of the n-th dictionary are shifted by the number of parts of speech loaded before it.",
["inputs","configurations"],"every 32-bit word id, every number of loaded dictionaries and every part-of-speech id",
"Tests never load a dictionary, let alone several with splits and their own parts of speech.",
["dictionary/lexiconset.go","dictionary/dicbuilder.go","dictionary.go","lattice.go"],
[("packing and unpacking","dictionary/lexiconset.go"),("references written by the user dictionary builder","dictionary/dicbuilder.go:parseSplitInfo, getWordId"),("offset recorded before the grammar grows","dictionary.go:ReadUserDictionary")])
p("C11","Trie builder and trie searches agree on the unit bits",
"Every double-array unit the trie builder writes is read back by every search with the meaning it was written with: label, value, has-leaf flag and both offset encodings occupy the bits from which exact search, prefix search, prefix iteration and traversal extract them, and setting one of them leaves the others intact. A unit holding a value can never be taken for a unit holding a label.",
["inputs"],"every 32-bit unit, every label, every non-negative 31-bit value and every offset the builder produces",
"The one trie test has a few hundred keys: long offsets and large values never occur in it.",
["dartsclone/dabuilder.go","dartsclone/da.go","dartsclone/dawgbuilder.go","dartsclone/bitvector.go"],
[("unit encoders","dartsclone/dabuilder.go:dabuSet*"),("unit decoders","dartsclone/da.go:daunit methods")])
p("C12","Only dictionaries of the right kind are accepted",
"Loading a file as the system dictionary succeeds only if its header carries the system dictionary version, and loading one as a user dictionary succeeds only for the two user dictionary versions; any other version, and a file too short to hold a header, is rejected with an error. A grammar section is read exactly for the versions that have one.",
["inputs"],"every header version value and every file length below the header size",
"No test opens a dictionary file of any kind.",
["dictionary/binarydict.go","dictionary/dicversion.go","dictionary/dicheader.go","dictionary/dicprinter.go","dictionary.go"],
[("version checks","dictionary/binarydict.go:NewBinaryDictionary, ReadSystemDictionary, ReadUserDictionary; dictionary/dicversion.go:IsUserDictionary"),("length check","dictionary/dicheader.go:ParseDictionaryHeader")])
p("C13","No more dictionaries than word ids can tell apart",
"A dictionary set never holds more than 16 dictionaries, the number the 4 dictionary bits of a word id can distinguish: loading one more fails with an error and changes nothing. Up to that number, loading is not refused for being too many.",
["histories","configurations"],"every sequence of user dictionary loads of any length",
"No test loads even one dictionary.",
["dictionary.go","dictionary/lexiconset.go"],
[("full check before the load","dictionary.go:ReadUserDictionary; dictionary/lexiconset.go:IsFull")])
p("C14","Narrow dictionary fields never wrap around silently",
"When a dictionary is built or converted, a string, headword, list of words sharing a headword, unit list, part-of-speech table or cost/connection id that does not fit the 8- or 16-bit field that stores it is rejected with an error; it is never stored truncated or wrapped.",
["inputs"],"every conversion to an 8- or 16-bit integer that reaches a dictionary field, for all operand values",
"Overflow needs inputs of 32768 bytes or 256 homographs; no test builds a dictionary.",
["dictionary/dicbuilder.go","dictionary/dalexicon.go","dictionary/grammar.go"],
[("length checks before each narrowing","dictionary/dicbuilder.go:writeString, writeStringUtf16, writeIntArray, WriteLexicon, BuildLexicon")])
p("C15","Plugin names select the plugin they name",
"Each of the seven bundled plugins is selected by its short name and by its Java class name through the library's default constructors, and by these and its Go-qualified name in gosudachicli; each name yields that plugin and no other, for its own plugin kind only. Any other name yields no plugin, and a settings entry naming it is rejected with an error.",
["configurations","inputs"],"every accepted name, every other name, and every plugin kind",
"Tests parse one settings file and never instantiate a plugin.",
["plugin.go","gosudachicli/main.go","settingsjson.go"],
[("name switches","plugin.go:DefMake*; gosudachicli/main.go:make*"),("unknown names rejected","settingsjson.go:Get*PluginArray")])
p("C16","Settings keys are independent of each other",
"Each key present in a settings document sets its own setting and no other, and an absent key leaves that setting as it was (user dictionaries accumulate); the four plugin lists are handed out only under their own kind. Relative dictionary and character-definition paths are resolved against the document's path key or, failing that, the path already in force or the given resource directory; absolute and empty paths are kept.",
["configurations","histories"],"every subset of keys, in one document and in documents merged on top of one another",
"The one test parses a single document that sets every key.",
["settingsjson.go","gosudachicli/main.go"],
[("overlay of present keys","settingsjson.go:ParseSettingsJSON"),("path resolution","settingsjson.go:getPath")])
p("C17","A lattice node connects only to its cheapest allowed predecessor",
"A lattice node is linked only to a predecessor that ends where it begins, is itself reachable from the beginning of the sentence, and whose connection is not inhibited; among those it takes one of minimal total cost, looked up with the predecessor's right id and the node's left id. Its total cost is that predecessor's total plus the connection cost plus its own cost, and it counts as reachable exactly if it has such a predecessor.",
["inputs"],"every set of predecessors, connection matrix and cost",
"No test builds a lattice.",
["lattice.go","dictionary/grammar.go"],
[("connect","lattice.go:connectNode, Insert, connectEosNode")])
p("C18","Tokenize and Morpheme.Split split by the same rules",
"Mode A splits a word by its A-unit list and mode B by its B-unit list, both when tokenizing and when splitting a morpheme afterwards, and every other mode leaves words whole. A word whose list for the mode has fewer than two units stays as it is; otherwise the pieces start where the word starts and each begins where the previous one ends, its length being its own headword length.",
["inputs","configurations"],"every mode string and every unit list",
"No test tokenizes or splits anything.",
["tokenizer.go","morpheme.go"],
[("splitting","tokenizer.go:Tokenize, splitPath; morpheme.go:(*MorphemeList).Split")])
p("C19","Debug output does not change results",
"Setting the tokenizer's debug output changes nothing but what is written there: the path, its order, costs, offsets and errors of a tokenization are the same with and without it. Dumping a lattice or describing a node leaves them as they were.",
["configurations","inputs"],"every statement executed only when debug output is on, and everything it calls",
"No test sets the debug output.",
["tokenizer.go","lattice.go"],
[("debug blocks","tokenizer.go:Tokenize, dumpPath; lattice.go:Dump, String")])
p("C20","Character categories are distinct, complete and consistently used",
"The sixteen character categories are sixteen distinct bits; parsing each category name yields exactly its bit, any other name is an error, and a character without any category gets DEFAULT. Unknown-word generation considers every one of the sixteen categories.",
["inputs"],"every category name, every other string and every category bit",
"No test touches character categories.",
["dictionary/charcategory.go","mecaboovproviderplugin.go"],
[("names","dictionary/charcategory.go:GetCategoryType"),("loop over bits","mecaboovproviderplugin.go:ProvideOOV")])
p("C21","Every configured plugin is set up and applied, in order",
"A successful load has set up each configured plugin of all four kinds before any text is tokenized (user dictionary costs included), with connection cost edits applied before that too. Every successful tokenization of non-empty text has applied each input text plugin before the lattice is built and each path rewrite plugin to the best path before splitting, in configuration order and without skipping any.",
["configurations","inputs"],"every list of plugins and every path through loading and tokenizing",
"No test loads a dictionary with plugins.",
["dictionary.go","tokenizer.go"],
[("set-up loops","dictionary.go:NewJapaneseDictionary"),("plugin loops","tokenizer.go:Tokenize")])
p("C22","Embedded resources are the resource files",
"The resources compiled into the program are byte for byte the files of the resource directory they are generated from, each under its own name; and each default definition is read from the resource of its kind: character definitions from char.def, unknown words from unk.def, rewrite rules from rewrite.def, the command's settings from sudachi.json.",
["configurations"],"every embedded resource",
"No test reads an embedded resource.",
["data/assets_vfsdata.go","data/root/char.def","data/root/rewrite.def","data/root/unk.def","data/root/sudachi.json"],
[("generated table","data/assets_vfsdata.go")])
p("C24","A path is read out whole, in order, each morpheme at its own place",
"The path read from a lattice is the chain of best predecessors from the end of the sentence to its beginning, in text order and without those two nodes; if the end is not connected, an error takes its place. Begin, End and Surface of a morpheme are where its own node begins and ends, translated by the offsets of the very text the lattice was built on, and the original characters between the two. A node that was given its own word info (unknown and joined words) answers with it and with dictionary number -1, any other with its dictionary's record.",
["inputs"],"every lattice, path and index, and every kind of node",
"No test reads a path or a morpheme.",
["lattice.go","morpheme.go","inputtext.go","tokenizer.go"],
[("reading the path","lattice.go:GetBestPath"),("node accessors","lattice.go:GetWordInfo,GetDictionaryId,SetWordInfo"),("places","morpheme.go:GetBegin,GetEnd,GetSurface")])
p("C23","Every word and unknown word offered at a position enters the lattice",
"At every position of the text where a word may begin and where some node ends, every word the dictionaries' search finds there - the user dictionaries in order, then the system dictionary, every entry of a spelling - enters the lattice exactly once, from there to the word's own end, with its own connection ids and cost. Unless the character category forbids unknown words, every provider is then asked once, in order, about that position and told truly whether something has been found by then; every node provided enters over exactly its own length. Only if nothing has been found is the default provider asked; only if there is still nothing does tokenization fail. Nothing else enters, at no other position, and the sentence ends where the text ends.",
["inputs"],"every text, set of dictionaries, category table and list of providers",
"No test tokenizes text.",
["tokenizer.go","plugin.go","lattice.go","dictionary/lexiconset.go","dictionary/dalexicon.go","dartsclone/da.go"],
[("positions, words and providers","tokenizer.go:buildLattice"),("range of unknown words","plugin.go:GetOOV"),("search over dictionaries","dictionary/lexiconset.go:Next"),("entries of a spelling","dictionary/dalexicon.go:Next,Get"),("search of the trie","dartsclone/da.go:Iterator.Next,Get")])
p("C26","Joined words are replaced by one word over the same text",
"Joining the words begin..end of a path leaves the words before and behind them as they are, in order, with one word in between that begins where the first joined word begins and ends where the last one ends; nothing else changes, and joining fails exactly if there is nothing to join, leaving the path alone. A new joined word carries, in order, the surfaces, dictionary forms, readings and (unless one is given) normalized forms of the words joined, the sum of their lengths and the first one's part of speech. A joined unknown word carries the given part of speech, its surface as normalized and dictionary form and no reading, and is marked unknown, unless the lattice has words over the same text: then the cheapest of those takes their place. The path rewrite plugins change the path in no other way.",
["inputs"],"every path, range within it, lattice and normalized form",
"No test joins words; off-by-one slips show only for joins next to the end of a path or of unusual length.",
["plugin.go","lattice.go","joinnumericplugin.go","joinkatakanaoovplugin.go"],
[("joining","plugin.go:ConcatenateNodes,ConcatenateOov,replaceNode"),("cheapest word","lattice.go:GetMinimumNode"),("plugins","joinkatakanaoovplugin.go:Rewrite, joinnumericplugin.go:Rewrite,concatNodes")])
p("C28","Rewriting the text keeps the way back to the original",
"A new builder holds the text's characters, each with its own original position, and the end with the end's. Replacing characters begin..end leaves the characters before and behind them with their positions and puts exactly the given ones in between, each at begin's original position. The built text is the builder's characters; each byte of it leads to its character's number and original position, its end to the number of characters and to the end's position; each character has the categories the grammar gives it. GetText hands out a copy. The accessors give what the tables hold; GetCodePointsOffsetLength gives the bytes up to the first one that many characters on, or to the end. Nobody else changes the tables.",
["inputs","histories"],"every text and every sequence of replacements within it",
"The tests replace in one or two short texts; a slip in one of the three ways to replace, or at the ends of the tables, moves morphemes only in some texts.",
["inputtext.go"],
[("replacing","inputtext.go:NewInputTextBuilder,InputTextBuilder.Replace,GetText"),("tables","inputtext.go:InputTextBuilder.Build"),("reading them","inputtext.go:InputText.GetOriginalIndex,GetSubstring,GetOffsetTextLength,GetCharCategoryTypes,CodePointCount,GetCodePointsOffsetLength")])
p("C25","Unknown words offered are the ones configured",
"At a place, the MeCab provider offers, for each category of the character that is defined and has words, in the categories' order: the whole run if the category is grouped; then the beginnings of 1 up to the configured number of characters that fit into the run (less a byte if the run was offered); each once per configured word; nothing if the category is not always invoked and there are other words. The simple provider offers one character exactly if there are no other words. Each word has the ids, cost and part of speech configured for it, the text covered as its surface, normalized and dictionary form, no reading, its length, and is marked unknown. Each line of char.def that is not skipped and defines a category gives its invoke, group and length columns, once per category; each line of unk.def adds a word from its id, cost and part-of-speech columns to its category, which must be defined; parts of speech must exist; the configured file is read, or else the one that comes with the package. Each setting of the simple provider goes to its own place.",
["inputs"],"every text and place, every char.def, unk.def and settings",
"The tests have no provider of unknown words at all; a slip shows only where ids differ, lines for a category are scattered, or a run is as short as the lengths configured.",
["mecaboovproviderplugin.go","simpleoovproviderplugin.go"],
[("words offered","mecaboovproviderplugin.go:MeCabOovProviderPlugin.ProvideOOV,getOovNode"),("one character","simpleoovproviderplugin.go:SimpleOovProviderPlugin.ProvideOOV,SetUp"),("definition files","mecaboovproviderplugin.go:MeCabOovProviderPlugin.readCharacterProperty,readOov,SetUp")])
p("C27","The command line prints what the tokenizer gives for each line",
"gosudachicli tokenizes every line of each named file in turn, or of standard input if none is named, once, in order, in the mode given with -m (C by default). It prints to the file given with -o, made anew, or else to standard output, for each line: for each morpheme in order surface, part of speech joined by commas and normalized form, with -a also dictionary form, reading, dictionary number and, for unknown words only, (OOV), separated by tabs, and a line end; then a line EOS. Nothing is printed for a line that failed; -f goes on behind it, and without it the command fails. The settings are those of the file given with -r; else those that come with it, with those of -s on top; -p or else the program's directory is where resources are looked up; -j alone decides about UTF-16; -d alone about debug output, which goes to the same place.",
["inputs"],"every input, dictionary and combination of options",
"No test runs the command; a slip shows only for some options together, for empty lines, failing lines or output files that exist already.",
["gosudachicli/main.go"],
[("lines and words","gosudachicli/main.go:runFromReader,run"),("options","gosudachicli/main.go:main,parseSettings")])
p("C29","Lines are read whole, whatever their length",
"Lexicon files, definition files and the command's input are read line by line: each line is everything up to the next line end (in lexicon and definition files a line feed or a carriage return and line feed; at the command a line feed), without it and without anything of an earlier line, however long it is; a last line without an end is given too, unless it is empty; lines come in order, none twice; the line number goes up by one for each line given and by nothing else; a failing read is reported and gives no line.",
["inputs"],"every sequence of bytes, lines of any length",
"The tests read one short file; lines longer than the reader's buffer, line ends across its boundary and last lines without an end do not occur in them.",
["internal/lnreader/lnreader.go","dictionary/dicbuilder.go","gosudachicli/main.go"],
[("definition files","internal/lnreader/lnreader.go:LineNumberReader.ReadLine"),("lexicons","dictionary/dicbuilder.go:lexiconReader.readLine"),("the command","gosudachicli/main.go:lineScanner.Scan")])
# not claimed
p("C40","Segmentation is lossless",
"The surfaces of the morphemes of any text, concatenated, are the original text, and begin/end offsets are consecutive.",
["inputs"],"all texts, rewriting rules and dictionaries","No test tokenizes text.",
["inputtext.go","tokenizer.go","morpheme.go"],[("offset tables","inputtext.go")])
p("C41","The trie finds exactly the stored keys",
"After a trie is built, exact search finds exactly the stored keys with their values and prefix search all stored prefixes.",
["inputs"],"all key sets","The one test uses one key set.",["dartsclone/dabuilder.go","dartsclone/dawgbuilder.go","dartsclone/da.go"],[("construction","dartsclone/dabuilder.go")])
p("C42","Converting a dictionary and back is the identity",
"Converting a dictionary to UTF-16 and back yields the original bytes.",["inputs"],"all dictionaries","No test converts.",["dicconv/main.go","dictionary/dalexicon.go"],[("conversion","dicconv/main.go")])
p("C43","Corrupt input never crashes",
"No dictionary file content and no text makes the library panic or loop for ever.",["inputs"],"all byte strings","No test feeds malformed input.",["dictionary/bytes.go","dictionary/dalexicon.go","tokenizer.go"],[("bounds","dictionary/bytes.go")])
p("C44","Numbers are normalized to their value",
"Joined numerals are normalized to the decimal notation of their value.",["inputs"],"all numeral strings","No test joins numbers.",["numericparser.go","joinnumericplugin.go"],[("parser","numericparser.go")])
p("C45","Text normalization follows the rewrite rules",
"Each input character is replaced as the rewrite table, lower-casing and NFKC prescribe, longest rule first.",["inputs"],"all texts and rule files","No test normalizes text.",["definputtextplugin.go"],[("rewrite","definputtextplugin.go:Rewrite")])
p("C46","The best path has minimal cost over all paths",
"The path returned has the least total cost among all paths through the lattice.",["inputs"],"all lattices","No test builds a lattice.",["lattice.go"],[("Viterbi","lattice.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x["title"])<=80
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
