how["P01"] = (25, "executing `ParseJsonPath` (its state machine and regular expressions included) on texts of symbolic bytes and comparing acceptance and the resulting steps with a recursive descent parser written from the documented syntax.")
how["P02"] = (60, "executing `GetAbsolutePaths`, `pathFinder`, `JsonPathSelector` and `MustGet` on lazily initialised documents with symbolic steps, against the reference evaluator.")
how["P03"] = (76, "comparing the document (deeply), the kind of its root, the paths, and values returned earlier, before and after every query, on symbolic documents and paths; a selection is repeated after another one.")
how["P04"] = (80, "the same reference as P02, restricted to paths it calls inapplicable: an error per failing path, no values, no run-time panic, and a panic with an error from the panicking form.")
how["P05"] = (20, "selecting each location of the result of a symbolic selection again, and setting a definite location and comparing everything else.")
how["P06"] = (12, "exploring schedules (with preemptions), map iteration orders and goroutine ends; races by vector clocks; results compared with those of the selection alone.")
how["P07"] = (50, "executing `SetAbsolutePaths`, `JsonPathSetter` and `MustSet` on symbolic documents and paths against the reference setter, and a selection afterwards.")
how["P08"] = (30, "as P07 with deletions.")
how["P09"] = (13, "as P07 with the paths that the reference refuses: an error, no panic, and for a single place the document as before.")
how["P10"] = (6, "executing `MustPush` with symbolic arrays and indices against a reference insertion, and popping what was pushed.")
how["P11"] = (3, "executing `MustPop` with symbolic arrays and indices against a reference removal.")
how["P12"] = (3, "executing everything that looks at a value (`NewCode`, finding, stripping, running) on strings of symbolic bytes against a reference reading of the first line.")
how["P13"] = (7, "stripping and finding on documents whose leaves are symbolic choices of scripts, look-alikes and callbacks, against a reference, also twice with a change between.")
how["P14"] = (16, "running documents of symbolic scripts that record and change their scope, otto executed from source, against a reference order and effects.")
how["P16"] = (18, "exploring schedules of callback, caller and timer (which may fire at any point) in `RunCallback`, and virtual time for the limits.")
how["P17"] = (85, "executing filters (the replacement of @ and of paths included) through otto's source on symbolic nodes against expressions evaluated by the reference; map orders; virtual time.")
how["P18"] = (21, "reading, writing, evaluating and changing documents with symbolic values and texts of symbolic characters, and comparing what is read back and the kind of the root.")
how["P19"] = (16, "executing `main` with symbolic arguments and files under the engine's `os`, `flag` executed from source; output and status compared with what the library gives; map orders.")
how["P20"] = (10, "executing `FillError` and `FillFromErrors` on symbolic texts, plain errors and errors of all kinds.")
how["P21"] = (2, "marking up symbolic places and sources and running the result.")
how["P22"] = (130, "running JavaScript scripts on symbolic scopes through otto's source, against reference effects; selectors against P02's and P07's references; the console's text.")
how["P23"] = (16, "running endless and recursive scripts and filters in virtual time: the time at which the error comes, what it says, that it comes at all, and that other scripts are unaffected.")
how["P24"] = (6, "two goroutines that each do one kind of work on a document of their own; vector clocks over all memory accesses, and comparison with the outcome alone.")
how["P25"] = (25, "executing `AddToAll` with symbolic keys against a reference product, and lists of paths against their paths one at a time.")
how["P26"] = (22, "executing histories of operations on one JsonMap and the last of them on a fresh one that holds the same, and comparing results, errors, scripts run and documents.")
