#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
LG="internal/logument/logument.go"; TP="internal/tsonpatch/tsonpatch.go"; TS="internal/tson/tson.go"; SE="internal/tson/serialization.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
NOASSERT="The repository's logument tests only dump the structures they build: none asserts anything about the outcome, and each follows one fixed call sequence."

p("C01","Append publishes exactly the pending patches as one contiguous version",
 "Storing patches (in any accepted form: text, bytes, one operation, a patch, a list of patches) queues every operation, in order and unchanged, and creates no version. An append turns the whole queue into exactly one new version numbered one above the latest, empties the queue, and changes no earlier version, cached snapshot or version number; with nothing queued it does nothing. Versions therefore always form one gap-free ascending run.",
 ["histories","inputs"],"every interleaving of create, store, set, append and every query, for every accepted input form",NOASSERT,
 [LG],[("Store","logument.go:Store"),("Append","logument.go:Append"),("contiguity check","logument.go:isGrown/isContinuous")],
 [("Version","ascending list of version numbers","logument.go:Logument"),("Patches","operations per version","logument.go:Logument"),("PatchPool","queued operations","logument.go:Logument")],
 ["Version, Patches and PatchPool after every call"])
p("C02","A version's snapshot is the replay of its whole history",
 "For every recorded version v, the snapshot of v equals the initial document with all operations of the versions up to and including v applied in order (values and timestamps), whatever was queried before, in which order, and which snapshots are cached. Asking twice gives the same answer, and the answer is remembered for v without altering what any other version yields.",
 ["histories","inputs"],"every history of stored patches over documents with nested objects and arrays, every version, every order of snapshot requests",NOASSERT,
 [LG,TP],[("nearest cached base + replay","logument.go:Snapshot/findLatest"),("patch application","tsonpatch.go:ApplyPatch")],
 [("Snapshots","cached snapshot per version","logument.go:Logument")],["return value of Snapshot; cached Snapshots"])
p("C03","Recorded state and handed-out results never change behind the caller's back",
 "No library call alters a document, patch or patch list that the caller passed in earlier, nor a snapshot, slice or tracked patch set handed out earlier, and a log and the slices cut from it never influence each other. Read-only queries (snapshot, slice, track and their temporal forms) leave the recorded versions, their patches, and already cached snapshots as they were, except that the temporal snapshot and temporal slice may publish the queue as an append would.",
 ["histories","inputs"],"every sequence of calls on a log and on slices of it, with the caller's inputs and all earlier results re-examined after each call","Tests never look at an input or an earlier result again after a later call, so aliasing goes unseen; two tests even document aliasing as current behaviour.",
 [LG,TP],[("copying of stored operations","logument.go:Store"),("pure patch application","tsonpatch.go:ApplyOperation"),("slices built from separate maps","logument.go:Slice/TemporalSlice")],(),["deep projection of every input and result after every call"])
p("C04","Track returns exactly the value-changing operations of a version range",
 "For versions vi..vj, track yields per version, in order, the operations recorded in that range minus those that merely rewrite, without intervening change, the value an earlier operation of the range gave the same location; the first operation on a location is always kept. Applying the tracked operations, version by version, to the snapshot before vi gives the same values as the recorded history. Nothing outside the range appears and the recorded patches are left untouched.",
 ["histories","inputs"],"every history (including removals, re-additions, array element removals and container replacement) and every range vi<=vj",NOASSERT,
 [LG],[("per-path latest value comparison","logument.go:Track")],(),["return value of Track; Patches before/after"])
p("C05","TemporalTrack returns exactly the value-changing operations of a time range",
 "For times ti<=tj, the temporal track yields, per version and in recorded order, the operations whose timestamp lies in [ti,tj] (bounds included) minus those that merely rewrite, without intervening change, the value an earlier operation in that time range gave the same location. Replayed on the first document, they give the same values as all operations of the time range. Versions without such an operation do not appear, and nothing recorded is changed.",
 ["histories","inputs"],"every history with arbitrary (also out-of-order and equal) timestamps and every time range",NOASSERT,
 [LG],[("timestamp filter + latest value comparison","logument.go:TemporalTrack")],(),["return value of TemporalTrack"])
p("C06","TemporalSnapshot shows the document as of a point in time",
 "The snapshot at time t equals the log's first document with every recorded or still queued operation whose timestamp is at most t applied in timestamp order (recorded order among equal timestamps), across all versions and independent of which snapshots are cached. Operations later than t have no effect. The query never reorders or drops recorded operations; at most it publishes the queue, exactly as an append would.",
 ["histories","inputs"],"every history with arbitrary (also out-of-order and equal) timestamps, pending or not, and every t",NOASSERT,
 [LG],[("ordered replay up to t","logument.go:TemporalSnapshot")],(),["return value of TemporalSnapshot; Patches, Version, PatchPool before/after"])
p("C07","A slice is a self-contained log of its version range",
 "Slicing vi..vj gives a log whose versions are exactly vi..vj, whose patches for those versions are the recorded ones, and whose snapshot of every version in the range equals the original's. The slice is usable on its own: it can be queried, set, stored to and appended to, and its first appended version is vj+1.",
 ["histories","inputs"],"every history, every range vi<=vj (including vi=vj, version 0 and ranges holding cached snapshots), followed by any calls on the slice",NOASSERT,
 [LG],[("range copy of snapshots and patches","logument.go:Slice")],(),["fields of the returned log; queries on it"])
p("C08","A temporal slice answers every query in its time range like the original",
 "Slicing a log by times ti..tj gives a log with one gap-free run of versions, containing exactly the recorded operations with timestamps in [ti,tj] under their original version numbers and order (operations still queued are published first). For every t in [ti,tj] its temporal snapshot equals the original's; when no operation falls in the range, it is a one-version log holding that constant state.",
 ["histories","inputs"],"every history and time range, including empty ranges, single instants, ranges spanning versions without matching operations and out-of-order timestamps",NOASSERT,
 [LG],[("timestamp filter and base snapshot","logument.go:TemporalSlice")],(),["fields of the returned log; TemporalSnapshot on it"])
p("C09","Set queues one operation; TestSet only when the value changes",
 "An accepted set (add or replace) queues exactly that operation at the end of the queue, and other operation kinds are ignored. A test-set of a replace queues nothing when the location already holds that value in the latest state (recorded and queued operations included), queues the operation when the value differs, and queues an add when the location does not exist; a test-set of an add behaves like set. A set that cannot be applied is refused and leaves the log unchanged.",
 ["histories","inputs"],"every sequence of set and test-set interleaved with stores, appends and queries, over existing, missing and type-changing locations",NOASSERT,
 [LG],[("value comparison","logument.go:TestSet/leafCompareValue"),("Set","logument.go:Set")],[("PatchPool","queued operations","logument.go:Logument"),("CurrentState","initial document plus accepted sets","logument.go:Logument")],["PatchPool and CurrentState after every call"])
p("C10","Compact drops only redundant operations under its target path",
 "Compacting a path removes, across all recorded versions, only operations at or below that path (whole path segments) that rewrite the value the location already had from an earlier operation, and removes all of those that do so without intervening change; every other operation keeps its version and order. The values of every version's snapshot, and of every temporal snapshot when timestamps never decrease along the history, are the same afterwards. Version numbers do not change.",
 ["histories","inputs"],"every history (including removals and container changes) and every target path, also paths that are textual prefixes of sibling names",NOASSERT,
 [LG],[("per-path latest value comparison","logument.go:Compact")],(),["Patches and all snapshots before/after"])
p("C11","History lists every value change at a path, initial value first, in time order",
 "The history of a path lists, for each recorded location at or below it (whole path segments), first the location's value in the log's first document if it exists there, then every recorded value-changing operation on that location, ordered by timestamp with recorded order among equal timestamps. The result is the same on every call and never fails because a location is absent from the first document.",
 ["histories","inputs"],"every history and path, including locations created later and repeated calls",NOASSERT,
 [LG],[("Compact + collection + initial value","logument.go:History")],(),["return value of History over repeated calls"])
p("C12","Invalid ranges and malformed input are refused without any effect",
 "A request for a version beyond the latest, a version or time range whose start is after its end, or patch/document text that does not parse is refused (it never returns a result). After a refused request the log is exactly as it was before and stays fully usable.",
 ["histories","inputs"],"every log state and every invalid range or malformed text, followed by further calls","The only test lines requesting an out-of-range version are commented out.",
 [LG],[("range checks","logument.go:findLatest/Slice/Track/TemporalSlice/TemporalTrack"),("parse errors","logument.go:NewLogument/Store")],(),["outcome and full state after every refused call"])
p("C13","A patch operation changes exactly the location its path names",
 "Applying an add or replace sets the addressed object member or array element to the operation's value with the operation's timestamp, creating missing intermediate members of objects (as objects, or as arrays when the next segment is an index) and extending a short array with nulls; a remove deletes exactly that member or element, closing the gap in an array. Every other location keeps its value, type and timestamp, at any depth and for any key text (pointer escapes ~0 and ~1, dots, empty keys); path text starting with a slash is read as a JSON pointer, other text as a dotted path.",
 ["inputs"],"every document (objects, arrays, nulls, nesting), every path into or beside it, every value type and operation kind","The tests that exercise application fail on the pinned commit, and a handful of fixed paths cannot cover depth, escapes, arrays inside objects inside arrays, or growth.",
 [TP],[("path splitting/decoding","tsonpatch.go:ApplyOperation"),("recursive update","tsonpatch.go:applyTraverse")],(),["result document of ApplyOperation/ApplyPatch"])
p("C14","Patch application is pure and all-or-nothing",
 "Applying a patch applies its operations in order, each to the result of the previous one; an empty patch yields the document itself. If any operation cannot be applied (wrong or negative index, index past the end for a removal, path running through a leaf, unsupported kind or value), an error is returned, never a crash. In every case the input document and the patch are left exactly as they were.",
 ["inputs"],"every document and patch sequence, including every kind of inapplicable operation at every position (array indexes small enough for the extended array to fit in memory)","No test applies an invalid operation or looks at the input document after application.",
 [TP],[("error returns and copying","tsonpatch.go:applyTraverse/ApplyPatch/getIndex")],(),["result/error and re-projection of input document and patch"])
p("C15","A generated patch turns the original into the modified document by value",
 "For any two documents the generated patch, applied to the original, yields a document equal to the modified one ignoring timestamps, with changed or added leaves carrying the modified document's timestamps and unchanged leaves keeping theirs. Between documents equal by value the patch is empty, no operation addresses a location whose value is unchanged, and none is without effect. When the change cannot be expressed by leaf-valued operations (a container or null appears where there was none, other than by removing array elements before it), an error is returned, never a crash or a wrong patch.",
 ["inputs"],"every pair of documents: type changes, nested containers, growing and shrinking arrays, keys needing escapes","The only generation test logs the patch without asserting; the round-trip tests fail on the pinned commit.",
 [TP],[("recursive diff","tsonpatch.go:GeneratePatch/handleValues/diff/compareArray")],(),["patch returned by GeneratePatch, replayed"])
p("C16","A timestamp-aware patch reproduces the modified document exactly",
 "The patch generated with timestamps, applied to the original, yields exactly the modified document including every leaf's timestamp. It is empty exactly when the documents are identical, and it contains no operation for a leaf whose value and timestamp are both unchanged (except inside arrays whose length changed) and none without effect. Changes that leaf-valued operations cannot express give an error.",
 ["inputs"],"every pair of documents, with value and timestamp changes independent per leaf","No test covers the timestamp-aware generator except through random datasets without assertions.",
 [TP],[("recursive diff with timestamps","tsonpatch.go:GeneratePatchWithTimestamp/handleValuesWithTimestamp/compareArrayWithTimestamp")],(),["patch returned by GeneratePatchWithTimestamp, replayed"])
p("C17","Patches survive serialization unchanged",
 "Writing a patch or a single operation as text (formatted or compact) and reading it back gives the same operations in the same order: kind, path, value and full 64-bit timestamp, for any path and string content (valid Unicode). An operation with a null or missing value reads back with no value.",
 ["inputs"],"every patch: any path text, string/number/boolean/null values, 64-bit timestamps, empty patches","The tests print patches but never read them back.",
 [TP],[("String/Marshal/Unmarshal/FromJson","tsonpatch.go")],(),["re-read patch"])
p("C18","TSON text round-trips every document",
 "Writing any document as TSON text, compact or indented, and parsing it gives the identical document: same structure, values, types, nulls and non-negative timestamps, with any negative timestamp read back as the default (absent) one. This holds at top level, in objects and in arrays, for any string content (valid Unicode) and any finite number.",
 ["inputs"],"every document over all leaf types, extreme numbers, control and non-ASCII characters, empty containers and keys, timestamps up to 64 bits","Tests parse two example files and print the output; no output is ever parsed back.",
 [SE],[("marshalTson/MarshalIndent","serialization.go"),("Unmarshal/Parser","serialization.go")],(),["Unmarshal(Marshal(d)), Unmarshal(MarshalIndent(d))"])
p("C19","The parser accepts exactly well-formed TSON and places timestamps correctly",
 "Text following the documented TSON grammar is accepted and yields the document it denotes: a timestamp after a key or after a primitive, or before an array element, becomes that leaf's timestamp, and a leaf without one (or with an empty one) gets the default timestamp. Text with unbalanced or missing delimiters, missing keys or values, malformed numbers, strings or timestamps, or anything after the document is rejected with an error; the parser never crashes on any input.",
 ["inputs"],"every token sequence up to a length bound, and random mutations of valid text","Four fixed parse cases.",
 [SE],[("recursive descent parser","serialization.go:Parser")],(),["Unmarshal result or error"])
p("C20","Conversions to and from JSON forms lose nothing but timestamps",
 "Converting a document to timestamped JSON, as text or as an object, and back gives the identical document (64-bit timestamps included); an array of leaves converts to the list of their values, and no other array does; converting to plain JSON and back gives the same document with every timestamp at its default, at every nesting level and for documents that are a single leaf. No conversion alters its input, and the sorted form denotes the same document.",
 ["inputs"],"every document, including members literally named value or timestamp, nulls, empty containers, root leaves and large timestamps","One test converts one JSON file and prints the result.",
 [TS],[("To/FromCompatibleTson*, To/FromJson*, ToCompatibleTsonBytesSorted","tson.go")],(),["documents after conversion"])
p("C21","Lookup, equality and latest-timestamp queries agree with the document",
 "Looking up a path yields exactly the value at that location, under the same path rules patches use, and an error (never a crash) when nothing is there. Two documents compare equal exactly when structure, values and timestamps coincide, and equal-without-timestamps exactly when structure and values coincide. The latest timestamp is the greatest timestamp among the leaves (zero for a container with none above zero).",
 ["inputs"],"every document, every path text, every pair of documents differing in one value, type, member or timestamp","Three fixed lookups; equality is never tested against unequal documents.",
 [TS],[("GetValue, Equal, EqualWithoutTimestamp, GetLatestTimestamp, ToArray","tson.go")],(),["return values"])
p("C22","A generated dataset is a consistent chain of documents and patches",
 "In a generated dataset, every file parses, all files of a car have the same locations and leaf types, and applying the patch with number k to file k-1 yields exactly file k, values and timestamps included. With a change and maintain rate of zero no scalar leaf changes; with a change rate of one every scalar leaf gets a new timestamp; with maintain rate one and change rate zero only timestamps change; at rates in between, each scalar leaf changes with the change rate, and gets a new timestamp with the two rates together. Timestamps never decrease from one file to the next.",
 ["inputs","configurations"],"every schema, size, number of cars and files, and change/maintain rate","The generator tests print or save one random dataset and never apply a patch to a file.",
 ["internal/vssgen/vss.go","internal/vssgen/args.go"],[("Generate/GenerateNext/Save","vss.go"),("dataset loop","args.go:Generate")],(),["files written under the output directory"])
p("C23","The web demo serves the stored files and their faithful patched view",
 "For every car and file number k of a dataset, the patched view of k denotes exactly the same document as the stored file k; the update view returns the stored first document, or the stored patch file when a patch number is given, byte for byte. Requests are independent of each other and of their order.",
 ["inputs","histories"],"every car and patch number of a generated dataset, in any request order","There is no test of the web demo.",
 ["web_demo.go"],[("patchHandler/updateHandler","web_demo.go")],(),["HTTP response bodies"])
p("C24","Scenario switching follows the battery with a cooldown",
 "In the mixed scenario, the vehicle switches from urban traffic to charging when the battery is at or below 10 percent, and back to the scenario it left when the battery reaches 99.95 percent or more while charging, and switches at no other time; a switch happens only when at least 60 seconds of simulated time have passed since the previous one (or since the start), and then at the first such step. A step reports true exactly when it switches. On a switch the vehicle's signals take the new scenario's change patterns (the battery rises while charging and falls in traffic); otherwise the vehicle is left as it is.",
 ["histories"],"every sequence of battery levels and simulation times","There is no test of the scenario state machine.",
 ["exp/scenario.go"],[("UpdateScenarioState","scenario.go")],[("ScenarioState","current/previous scenario, last change time, battery level","scenario.go")],["CurrentScenario, PreviousScenario and the reported flag per step"])
p("C25","The temporal-JSON baseline answers like the recorded history",
 "A temporal document built from a stream of add, replace and remove operations answers, for every location and every time, the value the latest operation at or before that time gave it (nothing before its first operation and after a removal); a period lasts until the value changes or is removed; a document given its periods one by one answers alike; its track of a location over a time range lists exactly the value periods overlapping the range in order, and event search returns exactly the start times of the listed periods whose value satisfies the predicate. Building it leaves the operation list unchanged.",
 ["histories","inputs"],"every stream of operations over several locations, every time and range","There is no test of the baseline.",
 ["exp/tjson.go"],[("FromTSONPatches, TemporalSnapshot, TemporalTrack, FindEvents","tjson.go")],(),["query results"])
p("C26","The experiment's recorded patches explain its documents and counters",
 "The experiment runs every scenario, and in every run the final timestamp-structured document equals the initial one with exactly the recorded value-change patches applied, each such patch changes the value it replaces, and the patch stream is ordered by time with each sensor appearing only at multiples of its update interval. The reported counters (updates, value changes, timestamp-only changes, patch counts and sizes, bandwidth and saving) equal what the recorded streams contain, and the sensor tables and cumulative counts over time show the same. A numeric change smaller than 0.005 counts as none; up to that, the plain JSON document, explained by its own patches, agrees with the timestamp-structured one, and carries the time of the last update of every sensor.",
 ["histories","configurations"],"every scenario and every random evolution of the sensors","There is no test of the experiments.",
 ["exp/exp_scenario.go","exp/utils.go","exp/doc_data_save.go"],[("runRealisticExperiment","exp_scenario.go"),("updateTsonDoc/isEqual","utils.go")],(),["files written by the experiment run"])
p("C27","Generated documents follow the schema and their leaf lists are complete",
 "Every leaf of a generated first document is a signal the schema declares, at the location its dotted name spells, and holds a value of its declared data type (whole numbers within the bounds of the type, percentages between 0 and 100, one of the allowed values where the schema lists them, null for a type the generator does not know). With size ratio one every declared signal is there, with ratio zero none, and in between each with that probability. The leaf list of a generated document names every signal exactly once with its node, and the document rebuilt from it, like the map of the document (a copy, which the caller may change), is the document; the recorded metadata are the options used, and these are what the command line says, each option that it leaves out having its documented default.",
 ["inputs","configurations"],"every schema (any nesting, data types, allowed lists and extra attributes) and every size ratio","The generator tests run on one schema and assert that a document came back; the leaf list is compared once, against a fixed order, and fails.",
 ["internal/vssgen/vss.go","internal/vssgen/extension.go","internal/vssgen/args.go"],[("NewVssJson/removeKeys/Generate/LeafNodes","vss.go"),("BuildFromLeafNodes","extension.go"),("SaveMetadata","args.go")],(),["files written under the output directory","return values"])
p("C28","Simulated signals follow their change patterns",
 "In every simulated scenario run a sensor's recorded values evolve as its change pattern says: a constant never changes; a linear one moves by its slope times its update interval, stopping at its limits; a random walk moves by at most its step size and stays within its limits; noise stays within its amplitude of the baseline; a sinusoidal one follows its wave; a toggle flips as often as its probability says, and walks and noise go up and down alike. Every value keeps its data type and stays in the sensor's declared range.",
 ["histories","configurations"],"every scenario, sensor and simulated time","There is no test of the signal simulation.",
 ["exp/vss_config.go","exp/utils.go","exp/exp_scenario.go"],[("change patterns and their ranges","vss_config.go, scenario.go"),("generateNewValue","utils.go")],(),["values read at each step, from the recorded patch streams"])
p("C29","Both baselines of the query experiment answer as the recorded stream does",
 "The experiment takes the latest recorded run, and for every recorded stream and initial document, every snapshot the temporal query experiment takes gives, from the log as from the temporal JSON document, every location's value at that time: the latest recorded one, or the initial one; a track lists from the log the operations recorded on the location in the range (those that repeat the value before may be left out) and from the baseline the value periods overlapping it; an event search lists from the log the times of the recorded values over the threshold, and from the baseline the start times of the periods with such values. The reported result sizes are those of the answers, whatever queries ran before; the table of saved results has one row per result, with its sizes and times and their relative differences; the documents written operation by operation (CreateSnapshot) are those after each recorded operation.",
 ["histories","inputs"],"every stream of value changes, every query time, range, path and threshold, in any order of queries","There is no test of the temporal query experiment.",
 ["exp/utils_temporal.go","exp/exp_temporal.go"],[("NewTemporalQueryExperiment and the three experiments","utils_temporal.go"),("RunTemporalQueryExperiments","exp_temporal.go")],(),["result files and records of the experiment"])
p("C30","Entering a scenario sets the vehicle up for it, whatever came before",
 "A new vehicle has every defined signal exactly once, in its category, with its type, update interval and default value. Entering a scenario (a new vehicle's, or by a switch) gives every signal the change pattern its definition lists for the scenario, with fresh parameters that follow from its limits and the scenario and not from earlier scenarios: in urban traffic the speed starts at 40 to 60 and walks within 0 to 70; on the highway it starts at 90 to 110 and stays around 100; while charging the vehicle stands still (speed, steering, acceleration and pedals are 0), charges at 11 to 13 kW, its charge rises by 0.2 and its remaining time falls by 0.05 per second; the charge drains by 0.1 in the city and 0.2 on the highway. All other values are kept, and the definitions and other vehicles do not change.",
 ["histories","configurations"],"every sequence of scenarios and every vehicle state they are entered in","There is no test of the scenarios.",
 ["exp/scenario.go","exp/vss_config.go"],[("InitializeVehicleData, updateAllSensorPatterns, apply...Settings, applyScenarioSettingsForMixed","scenario.go"),("VSSSensors","vss_config.go")],[("VehicleData","values, change patterns and parameters of the signals","vss_config.go")],["signals after InitializeVehicleData and after UpdateScenarioState"])
p("C31","The page shows the answers for the selection made, in whatever order they come",
 "The demo's page shows the texts of the server as they are: every digit of a timestamp or number and every character, whatever they contain. The state, patch and result boxes show only what belongs to the selected car and patch, or still what they showed before (an answer for an earlier selection never replaces anything); once every request is answered they show the first document of the selected car, the selected patch, and, if Append was pressed for this selection, the document with the patches up to the selected one applied. A failed request changes no box and does not keep later ones from working.",
 ["histories","schedules","inputs"],"every sequence of selections, presses, and answers (or failures) of the server in any order, and every text it may send","There is no test of the page.",
 ["index.html"],[("updateVehicle/updatePatch/applyPatches","index.html"),("setCodeBlockContent/syntaxHighlight","index.html")],[("the page","selected car and patch, texts shown in the boxes, requests without an answer","index.html")],["text of the boxes after every event"])
p("C32","A saved snapshot holds the document its name says",
 "Snapshot is offered only when the result box shows the document of the selected car with the patches up to the selected one; choosing another car or patch takes the offer back. Pressing it saves what the result box shows under the name car_C_patch_N Snapshot (N being the number of the patch as the page lists it), lists each name once, and shows it; choosing a listed snapshot shows what was saved under that name, whatever was saved, selected or answered in between. Nothing else saves, renames or removes a snapshot.",
 ["histories","schedules"],"every sequence of selections, presses, and answers (or failures) of the server in any order","There is no test of the page.",
 ["index.html"],[("onAppendSnapshotClicked/saveSnapshot/updateSnapshotView","index.html")],[("the page","the button's label, the saved snapshots and the one shown","index.html")],["label of the button, listed names and shown snapshot after every event"])
p("C33","Separate logs, documents and patches can be used at the same time",
 "Goroutines that each use logs, documents and patches of their own (a slice and the log it was cut from count as separate logs once the slice is there, and so do logs made from the same document or given the same patches) get, from every call, exactly what the same calls give when run alone, whatever the interleaving: the same results, documents, queues and refusals, with no crash and no access to memory another goroutine writes. Documents and patches that several goroutines only read, by applying, comparing, looking up, writing or converting them, may be shared.",
 ["schedules","histories","inputs"],"every interleaving of calls on separate values, and every history before them","No test uses more than one goroutine.",
 [LG,TP,TS,SE],[("every exported function","logument.go, tsonpatch.go, tson.go, serialization.go")],[("storage shared by values","lists cut from or appended to each other, documents snapshots have in common","logument.go, tsonpatch.go")],["results of the calls of each goroutine","reads and writes of shared memory"])
p("C34","Stored experiment documents and sensor tables hold what they were given",
 "After any sequence of saves, a data storage's directory holds exactly one file for each thing saved (each kind of document, and each number of a patch and time of a snapshot), with the value saved last, as JSON; a save that fails says so and changes nothing, and storages in other directories are untouched. A sensor recorder's table for each key sensor has one row for each recorded time at which the vehicle has the sensor, whatever its category, in order, with the simulation time and the value (fractions to four decimals). Once the recorder is closed every row is in the file; before, the file has the first rows, at least all up to the last time that was a whole second.",
 ["histories","crash_points","inputs"],"every sequence of saves and recorded times over several storages and recorders, every value, and every moment at which the files are looked at","There is no test of the files the experiments write.",
 ["exp/doc_data_save.go","exp/sensor_data_save.go"],[("saveJSONToFile and the Save functions","doc_data_save.go"),("RecordSensorData/Close","sensor_data_save.go")],[("DataStorage, SensorDataRecorder","directory, open tables","doc_data_save.go, sensor_data_save.go")],["files in the storage's directory after every save; the tables' files before and after Close"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
