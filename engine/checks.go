package main

// The registered properties and their harnesses.

type harnessCfg struct {
	Fn       string // function in package h (or main for the CLI)
	Main     bool
	Quick    bool // part of the quick tier too
	Secs     int  // time budget in the quick tier (default 100)
	SecsT    int  // time budget in the thorough tier
	Sched    bool // violations depend on scheduling or map order: replay repeatedly
	RaceRun  bool // replay under the race detector
	NoSample bool // no native comparison of completed paths
	Samples  int  // number of completed paths compared natively (default 40)
	Repeat   int  // native repetitions when confirming (default 400 with Sched)
	Reach    []string
}

type propCfg struct {
	ID        string
	Harnesses []harnessCfg
	Bounds    string
	Outside   string
}

var props = []propCfg{
	{ID: "P18", Harnesses: []harnessCfg{{Fn: "HUnmarshal", Quick: true}, {Fn: "HUnmarshalText", Quick: true}, {Fn: "HRoundTrip", Quick: true}, {Fn: "HRootKinds", Quick: true}, {Fn: "HEval", Quick: true}, {Fn: "HEvalBad", Quick: true}, {Fn: "HEvalPlain", Quick: true}, {Fn: "HString", Quick: true}, {Fn: "HRoundTripBig", Quick: true}, {Fn: "HEvalBig", Quick: true}, {Fn: "HRoundTripHuge", Quick: true}, {Fn: "HRoundTripOdd", Quick: true}}, Bounds: "values of up to 1 (thorough 2) levels of 2 entries with keys a, b and text leaves of 1 byte, read into a new, a used, an array-rooted and a cleared JsonMap; texts of up to 4 (5) characters of {}[]:, quotes, 1, a, blank and line end, and 26 longer ones; six changes of an array root; nine scripts at six places with any value of 1 entry beside them; texts cut and extended by one character; texts of up to 2 characters in six documents for String; a large document, one 25 deep, one of 40 records, and one with a key and a text of some hundred characters, each with a byte and a flag of any value; reading without and with evaluating of documents with no scripts in them; arrays and objects of 34 to 1100 entries, documents 34 to 300 deep; 69 texts, 15 numbers and 45 keys that look like something else or are written in another way elsewhere",
		Outside: "other texts, what hjson-go makes of a text (it is the reader; its own faults, such as surrogate escapes, are not json-dom's), whether hjson-go reads what it writes for String"},
	{ID: "P19", Harnesses: []harnessCfg{{Fn: "HCliEval", Main: true, Quick: true}, {Fn: "HCliFiles", Main: true, Quick: true, Sched: true, Repeat: 30}, {Fn: "HCliMarkup", Main: true, Quick: true}, {Fn: "HCliVerbose", Main: true, Quick: true}, {Fn: "HCliOrder", Main: true, Quick: true, Sched: true, Repeat: 60}, {Fn: "HCliBad", Main: true, Quick: true, Sched: true, Repeat: 30}, {Fn: "HCliEvalBad", Main: true, Quick: true}, {Fn: "HCliPairs", Main: true, Quick: true}, {Fn: "HCliNames", Main: true, Quick: true}, {Fn: "HCliBig", Main: true, Quick: true}, {Fn: "HCliOdd", Main: true, Quick: true}, {Fn: "HCliMarkupFiles", Main: true, Quick: true}}, Bounds: "eval on five documents with any value of 1 entry; every choice and order of 1 to 3 of three files, with a missing or one of eight bad ones; every map order; eight lists of paths and scripts by language, strip and eval; four lists under every map order; 26 senseless command lines; eight bad texts cut anywhere and extended by one arbitrary byte; lists of up to 6 (thorough 7) characters of $.a:,[0] and blank; pairs of file names that are nearly the same; up to 139 files and 40 pairs; 52 texts that look like something else as values, keys and scripts; markup of two or three of three files in any order with any flags and three lists of pairs",
		Outside: "-input and -files together, the same file twice, what -verbose and usage print, scripts on the command line with a comma or colon in them, standard input"},
	{ID: "P20", Harnesses: []harnessCfg{{Fn: "HErrors", Quick: true}, {Fn: "HErrorsBig", Quick: true}, {Fn: "HErrorsHuge", Quick: true}}, Bounds: "six kinds of errors; up to 3 pieces of up to 2 arbitrary bytes, given as text, plain errors, errors of any kind, made of errors or holding several; 10 to 13 pieces of up to 600 characters, one with 2 arbitrary bytes; 34 to 1100 pieces, one of 5000 characters",
		Outside: "longer texts, errors of their own kind that say nothing"},
	{ID: "P21", Harnesses: []harnessCfg{{Fn: "HMarkup", Quick: true}, {Fn: "HMarkupLang", Quick: true}, {Fn: "HMarkupBig", Quick: true}}, Bounds: "paths of up to 2 steps below a property holding one of seven documents, three languages, sources of up to 1 byte, alone and after what looks like a shebang; language names of up to 2 arbitrary bytes or 4 of fourteen, sources of up to 2 (thorough 3); sources of 1200 bytes at 30 paths through a large document",
		Outside: "longer paths and sources; what is left when a path fails at one of several places"},
	{ID: "P22", Harnesses: []harnessCfg{{Fn: "HJsTrail", Quick: true}, {Fn: "HJsGet", Quick: true}, {Fn: "HJsSet", Quick: true}, {Fn: "HJsConsole", Quick: true}, {Fn: "HJsBadCalls", Quick: true}, {Fn: "HJsPaths", Quick: true}, {Fn: "HJsChain", Quick: true}, {Fn: "HJsHistory", Quick: true}, {Fn: "HJsBig", Quick: true}, {Fn: "HJsConsoleBig", Quick: true}, {Fn: "HJsHuge", Quick: true}, {Fn: "HJsOdd", Quick: true}}, Bounds: "32 scripts on a scope whose values are any of up to 1 entry, a number, an array of an object and a leaf, at three places; paths of up to 2 steps of 10 kinds below one property holding one of seven documents with a text leaf of 1 byte; histories of 3 (thorough 4) of nine operations on two selectors; nine values to set (all at up to 1 step, two at 2 steps in the quick tier); console text of 1 to 2 characters of a, %, tab and line ends, up to 2 calls; 15 senseless calls; eight selectors' _absolutePaths; getValues and setValues for 60 paths through a large scope; 10 to 12 calls of the console with up to 12 arguments; scopes of 34 and 70 entries; 69 texts, 15 numbers and 45 keys that look like something else or are written in another way elsewhere read and set",
		Outside: "other scripts, how the console writes objects and null (pinned by tests as the Go form), functions given to setValues, setting json.trail to null and the like beyond failing, filters in selectors (P17)"},
	{ID: "P23", Harnesses: []harnessCfg{{Fn: "HHalt", Quick: true, Samples: 6}, {Fn: "HHaltStack", Quick: true, Samples: 12}, {Fn: "HHaltNot", Quick: true, Samples: 3}, {Fn: "HHaltFilter", Quick: true, Samples: 6}, {Fn: "HHaltCircular", Quick: true}}, Bounds: "16 endless and 11 recursive scripts, 5 endless filters, 6 scripts with objects within themselves; halting delay 1 (thorough also 2) s, 1 s in filters; nesting limit 20 (thorough 100) calls; 5 ms virtual time per poll",
		Outside: "built-in functions that run long without polling (regular expressions, joining huge arrays), getters that make an endless chain of fresh objects for the console, memory limits"},
	{ID: "P17", Harnesses: []harnessCfg{{Fn: "HFilter", Quick: true}, {Fn: "HFilterList", Quick: true}, {Fn: "HFilterRoot", Quick: true}, {Fn: "HFilterSteps", Quick: true}, {Fn: "HFilterLiteral", Quick: true}, {Fn: "HFilterEffects", Quick: true}, {Fn: "HFilterRefs", Quick: true}, {Fn: "HFilterSet", Quick: true}, {Fn: "HFilterDelete", Quick: true}, {Fn: "HFilterBig", Quick: true}, {Fn: "HFilterOrder", Quick: true, Sched: true}, {Fn: "HFilterTime", Quick: true, Samples: 4}, {Fn: "HFilterHuge", Quick: true}, {Fn: "HFilterMany", Quick: true}, {Fn: "HFilterOdd", Quick: true}}, Bounds: "22 expressions over nodes that are numbers, nulls, booleans, strings of up to 2 (thorough 3) bytes, arrays and objects of up to 2 such entries; up to 2 (3) nodes in arrays and objects; up to 2 steps before and 1 filter or step after; literals of 1 to 2 (3) characters of @$. x and the other quote in both quotes, alone, before another literal, after a character of two bytes and a path, and with escaped quotes and backslashes around one (2) of them; six expressions with paths of the document; sets and deletes at three places; every map order of three keys; 1 to 3 nodes of up to 700 ms each; 12 nodes of which one has any number, four expressions of up to 250 characters, selecting, setting and deleting; arrays and objects of 34 and 70 nodes; 12 to 130 filters in one call; 69 texts, 15 numbers and 45 keys that look like something else or are written in another way elsewhere as nodes; a filter after the same filter on another document",
		Outside: "other expressions, expressions that span lines, a path within an expression that is directly followed by a bracket, JavaScript variables that leak from one node to the next, string values beyond the lengths above"},
	{ID: "P01", Harnesses: []harnessCfg{
		{Fn: "HParse", Quick: true}, {Fn: "HParseAny", Quick: true}, {Fn: "HParseIndex", Quick: true}, {Fn: "HParseName", Quick: true},
		{Fn: "HParseFilter", Quick: true}, {Fn: "HParseUnion", Quick: true}, {Fn: "HParseLong", Quick: true}, {Fn: "HParseNumber", Quick: true}, {Fn: "HParseHuge", Quick: true},
	}, Bounds: "texts: $ + up to 7 (thorough 9) characters of \"$.*[]:,-019abZ_ ?\t\"; any text of up to 6 (8) arbitrary bytes; up to 6 (7) characters between brackets; 1 to 5 dots followed by names of up to 3 characters; filters of up to 5 (6) characters; index lists of 2 and 3 two-digit indices, up to two lists; five texts of up to 150 characters, cut at any place or with one of 20 characters put in or replacing another there (two of them: at six places); tokens of 4000 to 20000 bytes; numbers of up to 18 digits with up to 2 any digits after sixteen stems, at eight places",
		Outside: "longer texts, indices that overflow an int, runs of dots without a step after them, filters that span lines or whose quotes or brackets never close"},
	{ID: "P02", Harnesses: []harnessCfg{
		{Fn: "HGet", Quick: true}, {Fn: "HGetWide", Quick: true}, {Fn: "HGetRec", Quick: true}, {Fn: "HGetRecDeep", Quick: true},
		{Fn: "HGetUnion", Quick: true}, {Fn: "HGetText", Quick: true}, {Fn: "HGetShapes", Quick: true}, {Fn: "HGetShapesRec", Quick: true}, {Fn: "HGetKeys", Quick: true}, {Fn: "HGetBig", Quick: true}, {Fn: "HGetBigUnion", Quick: true}, {Fn: "HGetLeaf", Quick: true}, {Fn: "HGetHuge", Quick: true}, {Fn: "HGetDeep", Quick: true}, {Fn: "HUnionHuge", Quick: true}, {Fn: "HGetOdd", Quick: true},
	}, Bounds: "documents: objects of up to 2 (wide harness 3, thorough 4) entries with keys a..d, nested 2 (recursive lookup 3, thorough 3) deep, arrays of up to 2 (3) elements with or without spare capacity, numbers and nulls; paths of up to 2 (thorough 3) steps, indices and slice ends -4..4; index lists of 2 and 3 indices; seven deeper documents (arrays of arrays, 4 levels) with paths of up to 3 steps; keys of any 1 to 2 bytes; a document with arrays and objects of 11 to 12 entries and a chain 9 deep: indices -1..13, slice ends -13..13, up to 11 first descents, paths of up to 12 steps, lists of 4 to 6 indices; values of 15 kinds (falsy ones, integers, callbacks, empty and nested containers) at four places, 13 paths to, past and through them; arrays and objects of 34 to 1100 entries (6 of them looked at), chains of 20 to 260 levels, lists of 34 to 1100 indices; 45 keys that look like something else or are written in another way elsewhere, 10 paths",
		Outside: "wider and deeper documents, longer paths, the order of object wildcards (P06), filters (P17)"},
	{ID: "P07", Harnesses: []harnessCfg{{Fn: "HSet", Quick: true}, {Fn: "HSetWide", Quick: true}, {Fn: "HSetRec", Quick: true}, {Fn: "HSetText", Quick: true}, {Fn: "HSetUnion", Quick: true}, {Fn: "HSetThenGet", Quick: true}, {Fn: "HSetShapes", Quick: true}, {Fn: "HSetShapesRec", Quick: true}, {Fn: "HSetBig", Quick: true}, {Fn: "HSetLeaf", Quick: true}, {Fn: "HSetHuge", Quick: true}, {Fn: "HSetOdd", Quick: true}}, Bounds: "documents of up to 2 (wide harness 3) entries, nested 2 (thorough 3) deep, paths of up to 2 (thorough 3) steps, values: null excluded, numbers, booleans, strings of 1 byte, arrays and objects of one entry; ten texts for the text forms; seven deeper documents (arrays of arrays, 4 levels) with paths of up to 3 steps; a document with arrays and objects of 11 to 12 entries and a chain 9 deep: indices -1..13, slice ends -13..13, up to 11 first descents, paths of up to 12 steps; values of 15 kinds (falsy ones, integers, callbacks, empty and nested containers) set over any of them through 13 paths; arrays and objects of 34 to 300 entries; 45 keys and nine texts that look like something else",
		Outside: "deeper documents, longer paths, sets through filters (P17)"},
	{ID: "P08", Harnesses: []harnessCfg{{Fn: "HDelete", Quick: true}, {Fn: "HDeleteWide", Quick: true}, {Fn: "HDeleteRec", Quick: true}, {Fn: "HDeleteText", Quick: true}, {Fn: "HDeleteUnion", Quick: true}, {Fn: "HDeleteShapes", Quick: true}, {Fn: "HDeleteShapesRec", Quick: true}, {Fn: "HDeleteBig", Quick: true}, {Fn: "HDeleteLeaf", Quick: true}, {Fn: "HDeleteHuge", Quick: true}, {Fn: "HDeleteOdd", Quick: true}}, Bounds: "as P07 with deletion; values of 15 kinds (falsy ones, integers, callbacks, empty and nested containers) deleted through 13 paths; arrays and objects of 34 to 300 entries; 45 keys that look like something else",
		Outside: "as P07"},
	{ID: "P09", Harnesses: []harnessCfg{{Fn: "HSetFails", Quick: true}, {Fn: "HSetFailsRec", Quick: true}, {Fn: "HSetBadKeys", Quick: true}, {Fn: "HSetFailsText", Quick: true}, {Fn: "HFailShapes", Quick: true}, {Fn: "HFailBig", Quick: true}, {Fn: "HFailHuge", Quick: true}}, Bounds: "as P07 with inapplicable paths; keys of unknown type, slice markers outside slices, indices -1 and 7; seven deeper documents with paths of up to 3 steps; a document with arrays and objects of 11 to 12 entries and a chain 9 deep, the same paths as in P07; arrays and objects of 34 to 300 entries",
		Outside: "partial application of failing changes of several places"},
	{ID: "P10", Harnesses: []harnessCfg{{Fn: "HPush", Quick: true}, {Fn: "HPushPop", Quick: true}, {Fn: "HPushBig", Quick: true}, {Fn: "HPushLeaf", Quick: true}, {Fn: "HPushHuge", Quick: true}, {Fn: "HPushMany", Quick: true}}, Bounds: "arrays of 0 to 3 elements (numbers, nulls, strings, containers of one entry), 0 to 3 indices from 0 to 5, four places in the document; arrays of 10 to 12 elements with up to 6 indices of which one is any from 0 to 15; values of 15 kinds (falsy ones, integers, callbacks, empty and nested containers) pushed to up to 3 of any of them; arrays of 34 to 300 elements with up to 150 indices; 100 pushes in a row",
		Outside: "longer arrays, larger and negative indices"},
	{ID: "P11", Harnesses: []harnessCfg{{Fn: "HPop", Quick: true}, {Fn: "HPushBad", Quick: true}, {Fn: "HPopBig", Quick: true}, {Fn: "HPopLeaf", Quick: true}, {Fn: "HPopHuge", Quick: true}, {Fn: "HPushMany", Quick: true}}, Bounds: "arrays of 1 to 4 elements, 0 to 3 indices from -2 to 5, four places in the document; five paths that lead nowhere; arrays of 10 to 12 elements with up to 6 indices of which one is any from -13 to 14; values of 15 kinds (falsy ones, integers, callbacks, empty and nested containers) popped from up to 3 of them; arrays of 34 to 300 elements with up to 150 indices; 100 pops in a row",
		Outside: "longer arrays, popping from an empty array"},
	{ID: "P03", Harnesses: []harnessCfg{{Fn: "HReadOnly", Quick: true}, {Fn: "HReadOnlyOps", Quick: true}, {Fn: "HReadOnlyTwice", Quick: true}, {Fn: "HReadOnlyShapes", Quick: true}, {Fn: "HReadOnlyBig", Quick: true}, {Fn: "HReadOnlyHuge", Quick: true}}, Bounds: "as P02 with paths of up to 2 steps (thorough with spare capacity and more keys); operations MustGet, FindScriptFields, Clone, Marshal, GetCurrentScopePath, JsonPathSelector on documents with strings of up to 2 bytes; seven deeper documents with paths of up to 3 steps; a document with arrays and objects of 11 to 12 entries and a chain 9 deep, the same paths as in P02; arrays and objects of 34 to 300 entries",
		Outside: "queries longer than two in a row, String() (hjson text)"},
	{ID: "P04", Harnesses: []harnessCfg{{Fn: "HGetFails", Quick: true}, {Fn: "HGetFailsRec", Quick: true}, {Fn: "HGetFailsUnion", Quick: true}, {Fn: "HGetFailsShapes", Quick: true}, {Fn: "HGetFailsBig", Quick: true}, {Fn: "HUnionHuge", Quick: true}}, Bounds: "as P02 with paths of up to 3 steps, recursive lookups before or after the failing step; index lists of 2 and 3 indices 0..3; seven deeper documents with paths of up to 3 steps; a document with arrays and objects of 11 to 12 entries and a chain 9 deep, the same paths as in P02; lists of 34 to 1100 indices",
		Outside: "longer paths; failing filters (P17)"},
	{ID: "P05", Harnesses: []harnessCfg{{Fn: "HLocate", Quick: true}, {Fn: "HLocateSet", Quick: true}, {Fn: "HLocateUnion", Quick: true}, {Fn: "HLocateShapes", Quick: true}, {Fn: "HLocateBig", Quick: true}, {Fn: "HLocateHuge", Quick: true}}, Bounds: "as P02 with paths of up to 2 (thorough 3) steps, keys a..b; seven deeper documents with paths of up to 3 steps; a document with arrays and objects of 11 to 12 entries and a chain 9 deep, the same paths as in P02; arrays and objects of 34 and 130 entries",
		Outside: "filters"},
	{ID: "P06", Harnesses: []harnessCfg{{Fn: "HDetUnion", Quick: true, Sched: true}, {Fn: "HDetRec", Quick: true, Sched: true}, {Fn: "HDetDoc", Quick: true, Sched: true}, {Fn: "HRaces", Quick: true, Sched: true}, {Fn: "HLeak", Quick: true, Sched: true}, {Fn: "HDetKeys", Quick: true, Sched: true}, {Fn: "HDetWide", Quick: true, Sched: true}, {Fn: "HDetFilter", Quick: true}, {Fn: "HRacesMany", Quick: true, Sched: true}}, Bounds: "every interleaving at synchronisation points: index lists and wildcards with 1 (thorough 2) preemptions, recursive lookups on three documents with 0 (1) preemptions, two concurrent selections out of six; every map iteration order for the listed texts and for all documents of 2x2 keys with paths of up to 3 steps; two keys of 1 to 2 printable characters; eleven filters after one (two) others, of which six leave something behind in their interpreter; sixteen selections at once on arrays and objects of 12 entries; objects of 3 to 40 keys with the map giving them in any order (5 keys and more: in any rotation of either direction)",
		Outside: "more preemptions, more than two concurrent selections, unsynchronised interleavings at every instruction (data races are detected by vector clocks instead)"},
	{ID: "P12", Harnesses: []harnessCfg{{Fn: "HShebang", Quick: true}, {Fn: "HShebangBody", Quick: true}, {Fn: "HShebangDoc", Quick: true}, {Fn: "HNotScripts", Quick: true}, {Fn: "HShebangBig", Quick: true}}, Bounds: "strings of up to 8 (thorough 10) arbitrary bytes; the prefix #//! followed by up to 5 (6) characters of jsgopyJ, space, line ends and #!/; bodies of line ends and shebang text with up to 2 (1) arbitrary bytes before (after) them; in a document #// followed by up to 5 (6) characters of !js, space, line feed and #; twelve values of other kinds; sources of 600 bytes with one byte of any value at eleven places; up to 4 arbitrary bytes before and 2 after #//!js",
		Outside: "languages other than js and go registered by an embedder, longer shebang lines"},
	{ID: "P13", Harnesses: []harnessCfg{{Fn: "HStrip", Quick: true}, {Fn: "HStripArrays", Quick: true}, {Fn: "HFind", Quick: true}, {Fn: "HStripTwice", Quick: true}, {Fn: "HStripCallback", Quick: true}, {Fn: "HStripBig", Quick: true}, {Fn: "HStripHuge", Quick: true}, {Fn: "HStripOdd", Quick: true}}, Bounds: "documents nested 2 (thorough 3) deep with up to 2 entries of keys a..b, arrays of up to 2 elements; arrays nested 3 deep; every leaf a number, null, script, look-alike or callback; one change between two strips; a document with arrays and objects of 11 to 12 entries and a chain 9 deep with one entry that may be a script at any two of 28 places; scripts among 34 to 300 entries and 70 to 150 levels down; 69 texts, 15 numbers and 45 keys that look like something else or are written in another way elsewhere beside scripts",
		Outside: "wider and deeper documents, scripts as direct array elements"},
	{ID: "P14", Harnesses: []harnessCfg{{Fn: "HRun", Quick: true}, {Fn: "HRunOrder", Quick: true}, {Fn: "HRunKeys", Quick: true}, {Fn: "HRunArrays", Quick: true}, {Fn: "HRunDeep", Quick: true}, {Fn: "HRunMapOrder", Quick: true}, {Fn: "HRunSelf", Quick: true}, {Fn: "HRunFails", Quick: true}, {Fn: "HRunTwice", Quick: true}, {Fn: "HRunBig", Quick: true}, {Fn: "HRunMany", Quick: true}, {Fn: "HRunHuge", Quick: true}, {Fn: "HRunGrow", Quick: true}, {Fn: "HRunOdd", Quick: true}, {Fn: "HRunPlant", Quick: true}}, Bounds: "documents nested 2 deep with up to 2 entries (side by side: 3, thorough 4; chains: 4, thorough 5 deep), arrays of up to 2 elements, four kinds of scripts; keys of 1 and 2 arbitrary bytes; all map orders for four documents; a document with arrays and objects of 11 to 12 entries and a chain 9 deep with scripts at any two of 23 places; 12 scripts side by side; scripts that put another, or themselves, in their own place; scripts among 34 to 300 entries and 70 to 150 levels down; scripts that add scripts 12 to 140 levels down, or put one or two scripts into any of eight objects that are there; 69 texts, 15 numbers and 45 keys that look like something else or are written in another way elsewhere beside scripts",
		Outside: "order among siblings, scripts that add or delete scripts of their own object"},
	{ID: "P24", Harnesses: []harnessCfg{{Fn: "HSeparate", Quick: true, Sched: true, RaceRun: true, Repeat: 20}, {Fn: "HSeparateMany", Quick: true, Sched: true, RaceRun: true, Repeat: 20}}, Bounds: "two goroutines, every pair of eleven kinds of work (selecting with and without a filter, recursive lookups, setting, deleting through a filter, running scripts with selectors, failing scripts, unknown languages, Eval, callbacks, marking up, stripping, pushing, popping, reading, cloning and writing) on documents that hold any number; data races by vector clocks over one schedule, thorough also schedules with one preemption for two of a kind; sixteen documents worked on at once",
		Outside: "more than two goroutines, two goroutines that work on the same document other than by selecting (P06), changing the settings in globals or the console's writers meanwhile, registering languages meanwhile"},
	{ID: "P25", Harnesses: []harnessCfg{{Fn: "HAddToAll", Quick: true}, {Fn: "HAddKinds", Quick: true}, {Fn: "HAddChecked", Quick: true}, {Fn: "HGetList", Quick: true}, {Fn: "HSetList", Quick: true}, {Fn: "HSetListBig", Quick: true}, {Fn: "HAddBig", Quick: true}, {Fn: "HListHuge", Quick: true}}, Bounds: "up to 3 calls of AddToAll with up to 2 (thorough 3) keys, indices or slices each; one or two steps of any kind checked on seven documents; lists of 2 (thorough up to 3) paths of up to 2 steps of any kind on seven documents, set to any number, a text, or deleted; lists of 12 paths of which one is any of P07's through a large document; up to 12 calls of AddToAll, up to 33 paths; lists of 34 to 300 paths; 2 (thorough 3) keys of any kind one after the other and two more at once",
		Outside: "longer lists and paths, filters, paths that were given memory in common by whoever built them, setting containers at several places (they are the same container then)"},
	{ID: "P26", Harnesses: []harnessCfg{{Fn: "HHistory", Quick: true}, {Fn: "HHistoryLong", Quick: true}}, Bounds: "histories of 1 to 2 (thorough 3) of 26 operations (selecting, setting, deleting, pushing, popping, stripping, finding, running, marking up, reading good and bad texts, cloning, writing, changing the map directly, wildcards, giving properties other names, parsing and changing the parsed path) before any of the same, on two documents that hold any number; 140 operations of one kind before any other",
		Outside: "longer histories, other arguments of the operations, filters (their results are those of P17 on any document), changing the registered languages in between"},
	{ID: "P16", Harnesses: []harnessCfg{{Fn: "HCallback", Quick: true, Sched: true, Samples: 8, Repeat: 20}, {Fn: "HCallbackLate", Quick: true, Sched: true}, {Fn: "HCallbackLimit", Quick: true, Samples: 6}, {Fn: "HRunCallbacks", Quick: true, Sched: true, Samples: 5, Repeat: 20}, {Fn: "HRunCallbackFails", Quick: true, Sched: true, Samples: 6, Repeat: 20}}, Bounds: "up to 1 (thorough 2) preemptions, timer at any point; six callbacks; durations 0, 700, 1300, 1700, 2300, 3500 ms against limits of 0 to 3 s; documents with one or two callbacks",
		Outside: "more preemptions, callbacks that spin without a synchronisation point"},
}

func propByID(id string) *propCfg {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}
