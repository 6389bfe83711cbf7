TESTS = "The tests evaluate a few dozen fixed paths on three fixed documents"

prop("P01", "Every text is read as exactly the path its grammar says, or refused",
 "A JSON path text is accepted exactly when it starts with the root and continues with property names, descents (.. recursive, each further dot one lexicographically first descent), wildcards, filters, indices, index lists and slices in the documented syntax, and any other text is an error. An accepted text means exactly those steps in that order, with the names, indices (signs included), slice ends and filter expressions written in it. A text with index lists means one path per combination of the alternatives, in the order they are written, the last list varying fastest.",
 ["inputs"], "all texts of up to 6 arbitrary bytes, and all longer texts over the characters of the grammar within the bounds of each harness",
 TESTS + "; a parser is wrong on the texts between them (a sign, a comma, a space, one more dot).",
 [PARSE, "jom/json_map/absolute_paths.go.go"],
 [("token states and their regular expressions", PARSE + ": states"), ("multiplying out index lists", "jom/json_map/absolute_paths.go.go: AddToAll")],
 ["json_map.ParseJsonPath"],
 "Every text within the stated lengths and alphabets is covered by the paths explored; the regular expressions are executed as compiled automata over symbolic bytes. Texts with a run of dots that is not followed by a step, and filters whose brackets or quotes never close, are not claimed.")

prop("P02", "A selection returns exactly the values its path designates, in order",
 "Selecting with a path from any document returns exactly the values that stand at the places the path designates: keys of objects (applied to an array: of each object in it that has the key), indices, slices with negative ends counted from the end, wildcards over array elements in order and over object values, first descents into the lexicographically first property that holds an object or array, recursive lookups of a key anywhere below, and every alternative of an index list in the order written. An array that a path ends at is returned as its elements. Selection by text and the panicking form agree with selection by parsed path.",
 ["inputs"], "all paths of up to 2 (thorough 3) steps with symbolic names, indices and slice ends on all documents within the bounds",
 TESTS + "; which combination of steps meets which shape of document (an empty array, a missing key, a negative end) is a product no test list covers.",
 [GET], [("evaluation of one path", GET + ": pathFinder"), ("combination of several", GET + ": GetAbsolutePaths"), ("text forms", GET + ": JsonPathSelector, MustGet")],
 ["JsonMap.JsonPathSelector", "JsonMap.GetAbsolutePaths", "JsonMap.MustGet"],
 "Compared with a reference evaluator written from the documentation. Object wildcards and recursive lookups are compared up to order (P06 covers order).")

prop("P03", "Queries leave the document unchanged",
 "Selecting, marshalling, cloning, finding script fields and asking for the scope path leave the document, the kind of its root and the paths they were given exactly as they were, whether they succeed or fail. A selection repeated after any other selection gives the same values again, and values already returned do not change. A clone that keeps its contents holds the same document and the same kind of root.",
 ["inputs", "histories"], "all paths of up to 2 steps and all listed operations on all documents within the bounds",
 TESTS + " and look at the values returned, not at the document afterwards.",
 [GET], [("evaluation works on views of the document", GET + ": pathFinder"), ("in-place traversal", GET + ": FindScriptFields")],
 ["JsonMap.GetInsides after any query"],
 "A query that shared or reordered any part of the document within the bounds is found by comparison with a deep copy taken before.")

prop("P04", "A selection with a step that cannot be applied fails as a whole",
 "When some step of a path cannot be applied - a property the object does not have, an index or slice end outside the array, a step into a value that is neither object nor array, an index on an object, a first descent with nothing to descend into - the selection returns an error and no values, and the panicking form panics with an error. Neither a run-time panic nor a partial result escapes, whatever the other steps and paths of the selection do; with several paths, each path that fails is reported.",
 ["inputs"], "all inapplicable paths of up to 3 steps on all documents within the bounds; all index lists of 2 or 3 indices",
 TESTS + " with a handful of failing paths, each failing at its last step.",
 [GET], [("per-step errors", GET + ": pathFinder"), ("collection of errors", GET + ": GetAbsolutePaths"), ("panicking form", GET + ": MustGet")],
 ["errors and values returned by JsonMap.GetAbsolutePaths, JsonPathSelector, MustGet"],
 "Which paths are inapplicable is decided by the same reference evaluator as P02.")

prop("P05", "The location of a selected value leads back to that value",
 "Every node that a selection returns carries a location, and selecting that location again on the same document gives that node's value. Setting the location of a node found by a path of keys, indices and first descents changes what the selection gives at that position and nothing else it gives.",
 ["inputs"], "all paths of up to 2 (thorough 3) steps on all documents within the bounds, every node of the result",
 "The tests compare values and a few locations by name; that every location is itself a correct path is not tested.",
 [GET], [("locations of nodes", GET + ": pathFinder"), ("locations of unwrapped elements", GET + ": GetAbsolutePaths")],
 ["json_map.JsonPathNode.Absolute"],
 "")

prop("P06", "Selections are deterministic, independent and leave nothing behind",
 "The same selection on the same document gives the same values in the same order and the same errors in the same order, whatever the scheduling of goroutines and the iteration order of maps. Selections that run at the same time on one document touch no unprotected shared state and each gives what it gives alone. No selection, successful or not, leaves a goroutine running.",
 ["schedules", "inputs"], "all interleavings (with the stated number of preemptions) and all map iteration orders for the listed selections and documents; all documents within the bounds for map order",
 "A test run sees one schedule and one map order.",
 [GET, PARSE], [("one goroutine per path", GET + ": GetAbsolutePaths"), ("one goroutine per subtree of a recursive lookup", GET + ": pathFinder"), ("sorted keys", GET + ": sortedKeys"), ("parser states", PARSE + ": init")],
 ["values, errors, goroutines after JsonMap.GetAbsolutePaths"],
 "Interleavings are enumerated at synchronisation points under the engine's scheduler, data races by vector clocks; the documents of the schedule harnesses are fixed, those of the map-order harness symbolic.")

prop("P07", "A set changes exactly the designated places to the given value",
 "Setting a path to a value makes every place the path designates hold that value and leaves everything else in the document as it was; a property that an object lacks is added when it is the last step. This holds for paths of keys, indices, slices, wildcards, first descents, index lists and a final recursive lookup, by text or by parsed path, plain or panicking. A selection after a set gives the value set, and gives everything else as before.",
 ["inputs"], "all paths of up to 2 (thorough 3) steps, all values and all documents within the bounds",
 TESTS + "; a set that also touches a neighbour, an alias or the wrong copy passes them.",
 [GET], [("setting", GET + ": SetAbsolutePaths"), ("text forms", GET + ": JsonPathSetter, MustSet")],
 ["JsonMap.GetInsides after JsonPathSetter, SetAbsolutePaths, MustSet"],
 "The whole document is compared with a reference that rebuilds it.")

prop("P08", "A delete removes exactly the designated places",
 "Deleting a path removes every property and every array element the path designates: objects lose exactly those properties, arrays become exactly their other elements in their order. Everything else in the document stays as it was. Deleting works for the same paths as setting, by text or by parsed path, plain or panicking; a list of indices is deleted one after the other, each in what the one before left.",
 ["inputs"], "all paths of up to 2 (thorough 3) steps and all documents within the bounds",
 TESTS + "; shifting elements while deleting several goes wrong on the combinations between them.",
 [GET], [("deleting", GET + ": SetAbsolutePaths with a nil value"), ("text forms", GET + ": JsonPathSetter, MustDelete")],
 ["JsonMap.GetInsides after JsonPathSetter(path, nil), MustDelete"],
 "")

prop("P09", "A set or delete that cannot be applied is an error, never a panic",
 "Setting or deleting along a path with a step that cannot be applied returns an error, and the panicking forms panic with that library error; no run-time panic escapes. When the path designates a single place (keys, indices, first descents), the failed change leaves the document exactly as it was. Keys that no path text can produce are refused as well.",
 ["inputs"], "all inapplicable paths of up to 2 (thorough 3) steps, and meaningless keys, on all documents within the bounds",
 TESTS + "; failing sets are tested with a few paths only, and the document afterwards is not looked at.",
 [GET], [("errors while setting", GET + ": SetAbsolutePaths"), ("panicking forms", GET + ": MustSet, MustDelete")],
 ["errors of SetAbsolutePaths, JsonPathSetter, MustSet, MustDelete; JsonMap.GetInsides afterwards"],
 "Partial application of a failing change that designates several places is not claimed either way.")

prop("P10", "A push inserts the value at the given indices and keeps the rest",
 "Pushing a value to an array inserts it so that it stands at each given index of the resulting array - at the end when no index is given - whatever the order of the indices and however often they are repeated; gaps before an index beyond the end are filled with nulls. The old elements keep their order and everything else in the document stays as it was. Popping the index just pushed gives the array back.",
 ["inputs"], "all arrays of up to 3 elements, up to 3 indices from 0 to 5 in any order, at four places of a document",
 "The tests push a few fixed index lists to one array.",
 [GET], [("push", GET + ": MustPush"), ("insertion", "gotils slices.AddElems")],
 ["JsonMap.GetInsides after MustPush"],
 "Negative indices are not claimed for pushing.")

prop("P11", "A pop returns and removes exactly the elements at the given indices",
 "Popping indices from an array returns exactly the elements at those indices in ascending order - the first element when no index is given - and leaves exactly the others in their order; repeated, unsorted and out-of-range indices (negative ones included) make no difference. Everything else in the document stays as it was. Pushing to or popping from a path that leads nowhere panics with an error and changes nothing.",
 ["inputs"], "all arrays of 1 to 4 elements, up to 3 indices from -2 to 5 in any order, at four places of a document",
 "The tests pop a few fixed index lists from one array.",
 [GET], [("pop", GET + ": MustPop")],
 ["result of MustPop; JsonMap.GetInsides afterwards"],
 "")

RUN = "jom/jom.go"
prop("P12", "A value is a script exactly when its first line is a known shebang",
 "A string is a script exactly when its first line is #//! followed by the two characters of a supported language; its source is everything after the first line, unchanged, and its language the one named. A first line of that shape naming an unknown language is refused with an error by everything that looks at it; every other string is plain data, a Go callback is always a script of its own language, and no value of another type ever is one - finding, stripping and running all agree on this.",
 ["inputs"], "all strings of up to 8 (thorough 10) arbitrary bytes, all continuations of the shebang prefix of up to 5 (6) characters over the relevant alphabet, alone and inside a document",
 "The tests use complete, well-formed scripts; the strings around the boundary (a shorter or longer first line, a carriage return, an unknown language) are not tried.",
 ["code/code.go", "code/run.go"], [("reading the shebang", "code/code.go: NewFrom"), ("supported languages", "code/run.go: CheckIfSupported, RegisterLang")],
 ["code.NewFrom; JsonMap.FindScriptFields, Strip, Run on a document holding the string"],
 "")

prop("P13", "Stripping removes exactly the script entries; finding finds any script",
 "Stripping a document removes every object entry whose value is a script or callback, at any depth, also below arrays and arrays of arrays, and leaves everything else exactly as it was; it runs nothing. Finding script fields says whether there is any such entry anywhere, and changes nothing. Both depend only on the present document, not on what was found, stripped or set before, and after stripping no script is found.",
 ["inputs", "histories"], "all documents within the bounds with scripts, look-alikes and callbacks at any places; strip or find, then a change, then strip",
 "The tests strip one fixed document.",
 [RUN], [("separating scripts from data", RUN + ": FindScriptFields"), ("stripping", RUN + ": Strip")],
 ["JsonMap.GetInsides after Strip; result of FindScriptFields"],
 "Scripts that are themselves elements of an array are data: only object entries are claimed.")

prop("P14", "Running a document runs each script once, outer first, keys in order",
 "Running a document runs every script entry exactly once: those of an object before those of the objects inside it, those of one object in the order of their keys. Each script sees its own object as its scope, with the effects of the scripts before it, under the JSON path of that object; scripts in objects that a script adds to its scope are run too, those of objects it removes are not, and a script that fails or names an unknown language ends the run with its error. Afterwards the document is what the scripts made of it, without the entries that were run, so that running again runs only what was added since, and none of this depends on the iteration order of maps.",
 ["inputs", "histories", "schedules"], "all documents within the bounds with scripts that do nothing, add a property, delete a property, or add a script; all map iteration orders for four documents",
 "The tests run fixed documents with one or two scripts per object, under one map order.",
 [RUN, "code/run.go"], [("order and scopes", RUN + ": Run, jsonMapHeap"), ("dispatch by language", "code/run.go: Run")],
 ["order, scopes and sources handed to the language runner; JsonMap.GetInsides after Run"],
 "The language runner is a stand-in of the harness, registered through RegisterLang, so that what a script does is under its control. Order is claimed within an object and between an object and those inside it, not between siblings. A script that deletes another script of its own object is outside.")

prop("P16", "A callback runs once and ends with its result, its panic or the time limit",
 "Running a Go callback calls it exactly once with the scope it was given. If it finishes before the halting delay, the scope with its changes is the result and the call returns at once; if it panics, that very panic value surfaces from the run; if it does not finish within the halting delay, the run returns the halting-problem error then, not earlier and not much later - on every schedule of the callback, the timer and the caller, with exactly one of these outcomes, and a callback that ends leaves no goroutine behind once the delay is over. The same holds for callbacks inside a document, where a failing or endless one ends the whole run with its error.",
 ["schedules", "inputs"], "every interleaving of caller, callback and timer at synchronisation points with up to 1 (thorough 2) preemptions, including the timer firing at any point; callbacks that return, change the scope, panic with an error, a text or a run-time error, or block; five durations against two limits",
 "A test run sees one schedule, never the timer firing while the callback finishes.",
 ["code/go/go.go", RUN], [("interrupts of callback and timer", "code/go/go.go: RunCallback"), ("dispatch", RUN + ": Run")],
 ["result, error or panic of RunCallback and JsonMap.Run; goroutines afterwards"],
 "Time is the engine's virtual clock; natively the counterexample is replayed with real time.")

prop("P17", "A filter selects exactly the values its expression holds for",
 "A filter step on an object or an array selects exactly the values for which its JavaScript expression is truthy, in the order of the array or of the sorted keys, where @ outside quotes stands for the value and a JSON path outside quotes for what that path selects in the whole document. Evaluating changes neither the values nor the document, the time that the evaluation for one value takes does not count against another, and a filter that cannot be evaluated for one of the values (it throws, does not parse, or names a path that fails) fails the whole selection with an error. Setting and deleting through a filter changes exactly the values that it selects.",
 ["inputs", "schedules"], "22 expressions (comparisons, truthiness, typeof, properties of @, paths, literals with @ and $ in them, throwing and malformed ones) on all values within the bounds, at every place of a path within the bounds; all map iteration orders of three keys",
 "The tests evaluate a few expressions on one fixed document of similar objects; null, primitive, empty and mixed values, keys in another order and expressions with quotes are not among them.",
 [GET], [("evaluation of filters", GET + ": filterRunner"), ("filters within paths", GET + ": pathFinder"), ("indices of the values that hold", GET + ": SetAbsolutePaths")],
 ["JsonMap.JsonPathSelector, GetAbsolutePaths, JsonPathSetter, SetAbsolutePaths"],
 "The JavaScript interpreter (otto) is executed symbolically from its source; the meaning of each expression is a Go predicate of the harness. JSON text is an opaque encoding of the value that JSON.parse decodes again (its spelling is not modelled). An expression that spans lines, or a path within it that is directly followed by a bracket, is outside.")

JS = "code/js/js.go"
prop("P22", "A script's changes to json.trail are its object's changes, selectors included",
 "After a JavaScript script has run, the object it is in is exactly what the script left in json.trail - the script entry, functions and undefined properties dropped - and nothing else in the document changed; a script that throws, does not parse, or leaves something that is no object ends the run with an error. Within a script, json.jsonPathSelector(path).getValues() gives what the path selects in json.trail as it is at that moment, setValues(v) changes in json.trail exactly what the path designates (null and undefined delete) or throws a JSONPathError and changes nothing, and calls that make no sense throw a JSONPathError that the script can catch. The console writes one message per call, of its kind, from the scope of the script, in the order of the calls, to its own stream (print or error), with the values written as text and each line indented.",
 ["inputs"], "25 scripts that change, replace or break their scope, all values within the bounds at three places of a document; all paths of up to 2 steps below a property, before and after changes by the script, with nine kinds of values; 15 senseless calls; all sequences of 2 of 6 console calls",
 "The tests run a dozen fixed scripts, each once on one document, and compare the end result; a selector is not used after the scope changed, on arrays of one array, or with nulls and nested values.",
 [JS, RUN], [("scope in and out of the interpreter", JS + ": RunScript"), ("selector object", JS + ": jsonPathSelector"), ("console", JS + ": composePrint")],
 ["JsonMap.GetInsides and panics of JsonMap.Run; js.ExternalConsoleLogStdout, ExternalConsoleLogStderr"],
 "The JavaScript interpreter (otto) is executed symbolically from its source. What a selector gives is compared with the reference evaluator of P02, P07 and P08. The wording of console headers beyond kind and scope, and how objects are written by the console, are not claimed.")

prop("P23", "Scripts and filters that do not end by themselves are ended with an error",
 "A JavaScript script that has not ended when the halting delay is over ends the run with the halting-problem error, which names the script and its scope, at that time - not before, and not much later - wherever the time is spent: in loops, try and finally blocks, callbacks of built-in functions, getters and conversions, or reading its effects back. Scripts and filters that nest calls without end, and objects that contain themselves, lead to an error or to no harm, never to the end of the process. A script that ends in time is not affected by the limit, however much time the scripts before it took, and a filter that does not end for one of its values fails the selection in time and leaves the document unchanged.",
 ["inputs", "schedules"], "16 endless scripts at three places, 11 endless recursions, 5 endless filters on arrays and objects of up to two values, 6 scripts with objects within themselves, scripts of up to 700 ms each before and after each other, against limits of 1 (thorough also 2) seconds",
 "The tests run one endless loop in one script. The other ways of not ending hang or kill the test process.",
 [JS, GET, "globals/const.go"], [("timer and interrupt of scripts", JS + ": RunScript"), ("timer and interrupt of filters", GET + ": filterRunner"), ("limits", "globals/const.go: HaltingDelay")],
 ["result, panic and duration of JsonMap.Run and JsonPathSelector"],
 "Time is virtual: each poll of the interpreter takes a fixed time; a run that uses up an hour of it counts as endless, and calls nested 20000 deep as a stack overflow. Natively the counterexample is replayed with real time.")

prop("P18", "Documents are read, evaluated and written as what they are",
 "A JsonMap that reads a text holds exactly the object or array that the text stands for, whatever it held before, and a text that stands for neither is refused with an error and changes nothing. What is written (as JSON, or as hjson by String) is exactly that document with the same kind of root, reading it back gives the same again, and neither clones nor any change by path, script or stripping change the kind of the root. Eval gives the document as it is after its scripts have run, or returns the error of whatever failed, of any kind, and never panics.",
 ["inputs", "histories"], "all values and short texts within the bounds, read into JsonMaps with four histories; six kinds of changes of array roots; nine scripts at four places",
 "The tests read and evaluate fixed files, each into a new JsonMap.",
 [RUN], [("reading and writing", RUN + ": Unmarshal, Marshal, String"), ("evaluation", RUN + ": Eval"), ("clones", RUN + ": Clone, NewFromMap")],
 ["JsonMap.Unmarshal, Marshal, String, Clone, IsArray, GetInsides; jom.Eval"],
 "hjson-go is executed symbolically from its source; what it makes of a text is the reference. Written JSON is an opaque encoding of a value that the reader decodes again. That hjson-go reads back what String gives is not claimed: its writer quotes some texts wrongly.")

prop("P19", "The command line evaluates and marks up what it is given, or fails",
 "eval prints one line of JSON for the input, or for each file in the order given, which is the document after its scripts have run; markup prints the document with each script as a script of the language at its path, stripped before and evaluated after if asked to. A list of paths and scripts means exactly the pairs written in it, and what is printed does not depend on the iteration order of maps. A command line that makes no sense, a file that cannot be read, and a document or path that cannot be evaluated end with a non-zero status, and nothing else does.",
 ["inputs", "schedules"], "documents, lists of files, lists of paths and scripts, and senseless command lines within the bounds; all map iteration orders",
 "The command line has no tests of its own.",
 ["json-dom.go"], [("subcommands and flags", "json-dom.go: main"), ("lists of files", "json-dom.go: Files"), ("lists of paths and scripts", "json-dom.go: JsonPathScriptPair")],
 ["exit status and standard output of the command line"],
 "The flag package is executed symbolically from its source; os.Args, files and standard output are the engine's. Natively a counterexample is replayed as a process in a scratch directory.")

prop("P20", "Errors say everything that went wrong, in order, under their heading once",
 "An error of one of the kinds that json-dom reports says the number and heading of its kind, once, and then exactly everything it was given, in order. An error made of other errors says what each of them says: those of its own kind without repeating the heading, those of another kind in full.",
 ["inputs"], "all six kinds, up to three pieces of arbitrary text in four forms",
 "The tests compare a few complete messages.",
 ["globals/error.go"], [("texts of errors", "globals/error.go: FillError, FillFromErrors")],
 ["texts of the errors"],
 "")

prop("P21", "Marking up puts exactly that script at the places of its path, or is refused",
 "Marking up a document with a script of a language that can be run puts a text at exactly the places that the path designates that runs as exactly that script in that language. A language that cannot be run is refused with an error that names it, and a path that leads nowhere with an error; a refusal changes nothing unless the path designates several places.",
 ["inputs"], "paths of up to 2 steps on seven documents, every language name of up to 4 bytes, sources within the bounds",
 "The tests mark up one document with one script.",
 [RUN, "code/code.go"], [("marking up", RUN + ": MarkupCode"), ("supported languages", "code/run.go: CheckIfSupported")],
 ["JsonMap.MarkupCode, GetInsides and Run afterwards"],
 "")

prop("P24", "Work on different documents at the same time does not interfere",
 "Documents that have nothing in common can be worked on at the same time, by any number of goroutines: selecting (filters included), setting, deleting, pushing, popping, reading, writing, marking up, stripping, evaluating and running scripts and callbacks. No memory is shared between them without protection, and each document and result comes out exactly as it does when nothing else runs, errors included.",
 ["schedules", "inputs"], "two goroutines, every pair of eleven kinds of work, on documents that hold any number",
 "The tests work on one document at a time; a variable of a package that two scripts share shows only when they overlap.",
 [RUN, "code/js/js.go", GET, PARSE], [("running scripts", "code/js/js.go: RunScript, jsonPathSelector"), ("languages", "code/run.go: Run"), ("parsing", PARSE + ": ParseJsonPath")],
 ["documents, results and errors", "accesses to memory of two goroutines that nothing orders"],
 "Races are found by vector clocks over every access to memory on the explored schedules (otto's interpreter included) and confirmed with the race detector of Go. Changing settings (the halting delay, the console's writers, registering languages) meanwhile is the user's own race.")

prop("P25", "A list of paths means its paths one after the other, however it was built",
 "Adding keys to a list of paths gives every combination of a path of the list and a key, in order, as paths that share no keys; adding them with a check gives in addition one error for each path that leads nowhere in the document, and changes nothing else. Selecting with a list of paths gives what each of them gives, in order, or the error of each that fails, in order, and no values. Setting or deleting with a list does so for one path after the other and ends with the error of the first that fails.",
 ["inputs", "histories"], "up to 3 additions of up to 2 (thorough 3) keys; lists of 2 (thorough up to 3) paths of up to 2 steps on seven documents",
 "The tests build two lists of paths and evaluate lists only where an index list makes them.",
 ["jom/json_map/absolute_paths.go.go", GET], [("adding keys", "jom/json_map/absolute_paths.go.go: AddToAll"), ("selecting with lists", GET + ": GetAbsolutePaths"), ("setting with lists", GET + ": SetAbsolutePaths")],
 ["the list after AddToAll and its errors", "values, errors and the document after GetAbsolutePaths and SetAbsolutePaths"],
 "What one path means is decided by P02 and P04 to P09; here lists are compared with their paths one at a time.")

prop("P26", "What an operation does depends on what a document holds, not on its history",
 "Whatever was done to a JsonMap before - selecting, setting, deleting, pushing, popping, stripping, finding or running scripts, marking up, reading texts, cloning, writing, changing its map directly, successfully or not - any operation on it gives what it gives on a fresh JsonMap that holds the same document with the same kind of root, errors included, runs as many scripts, and leaves the same document. Parsed paths belong to whoever had them parsed: changing them changes no later parse or selection.",
 ["histories", "inputs"], "all histories of 1 to 2 (thorough 3) of 24 operations before any of them, on documents with any number in them",
 "Tests run one operation on a fresh document; anything remembered between operations (a cache of paths or results, traversal state, found scripts) shows only in particular sequences.",
 [GET, PARSE, "code/code.go", "code/run.go"], [("traversal state", GET + ": FindScriptFields, Strip, Run, Clone"), ("parsing", PARSE + ": ParseJsonPath")],
 ["results, errors and documents of JsonMap's operations"],
 "The used and the fresh JsonMap are driven by the same engine run; only equality of the two is asserted - what each operation means is the business of the other properties. The scope path of a root is empty until something has run and $ afterwards; this is not claimed to be alike.")
