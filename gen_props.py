#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list stays easy to review)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="semantics/oca-bundle/src/"
p("C01","A built bundle is exactly the fold of its commands",
 "Building an OCAFILE produces a bundle whose capture base, classification, meta data and per-attribute overlays (label, information, encoding, conformance, format, unit, cardinality, condition, entry codes, entries, links, framings) are exactly what applying its commands one after another gives. A later command for the same attribute, language or property replaces the earlier value and touches nothing else; removing an attribute removes the attribute and everything attached to it. Nothing the commands did not state appears in the bundle, and nothing they stated is missing; only files nesting arrays more than 100 deep are refused.",
 ["programs","inputs"],"every OCAFILE: every sequence of ADD and REMOVE commands over every overlay kind, any attribute names, languages and values, any number of repetitions and re-declarations",
 "The existing tests build one or two fixed files and compare one SAID; they never re-declare a value, remove an attribute that has overlays, or interleave kinds, and the quantifier is over all command sequences.",
 [B+"build.rs",B+"state/oca.rs",B+"state/attribute.rs",B+"state/oca/overlay"],
 [("apply_command folds one command into the working box",B+"build.rs"),("Attribute::merge combines declarations",B+"state/attribute.rs"),("generate_bundle distributes attributes over overlays",B+"state/oca.rs")],
 [("OCABox","attributes, meta, classification accumulated so far",B+"state/oca.rs")],["the JSON encoding of the bundle returned by build"])
p("C02","A faulty file is rejected whole and every fault is located",
 "If any command of an OCAFILE cannot be applied (it names an attribute that does not exist at that point, an unknown encoding or an unknown language, or sets a meta property that is reserved because it would shadow a member of the overlay), the build returns an error and no bundle. Every command that cannot be applied is reported, in order, with the number and text of the source line it starts on; commands that can be applied are not reported.",
 ["programs","inputs"],"every OCAFILE mixing applicable and inapplicable commands, with comments, blank lines, continuation lines and with or without FROM",
 "Only one error path (an unknown local reference) has a test; positions are never checked, and the property quantifies over every mixture and layout.",
 [B+"build.rs","semantics/oca-file/src/ocafile/mod.rs","oca/src/facade/build.rs"],
 [("from_ast collects errors per command with commands_meta",B+"build.rs"),("parser records commands_meta","semantics/oca-file/src/ocafile/mod.rs")])
p("C03","Every SAID in a bundle is the digest of the object carrying it",
 "In every bundle the system returns or stores, the identifier of the capture base, of each overlay and of the bundle is the digest of that very object's serialized content with the identifier blanked; each overlay names the bundle's own capture base, and the stated serialization length is the real one. The same holds for every intermediate bundle recorded in a history and for each object stored on its own.",
 ["inputs","programs","histories"],"every bundle obtained by build, by extension of another bundle, by fetching, listing or searching, and every intermediate step",
 "Tests pin a handful of SAIDs produced by the same code; no test recomputes a digest independently or looks at stored copies.",
 [B+"state/oca.rs",B+"state/oca/capture_base.rs",B+"state/oca/overlay.rs","oca/src/facade/build.rs"],
 [("generate_bundle signs capture base, overlays, bundle in order",B+"state/oca.rs"),("fill_said / sign",B+"state/oca/overlay.rs")])
p("C04","The SAID is a function of content, and only of content",
 "Two bundles with equal content have the same SAID, whatever the order of commands, attributes or entries that produced them, however often it is recomputed and in whichever process; two bundles with different content have different SAIDs. The same holds for capture bases and for each overlay.",
 ["programs","histories","schedules"],"all pairs of builds, including permuted and split commands, detours through removed attributes, and repeated runs with different hash seeds",
 "A test compares one run with one constant; dependence on hash-map iteration order or on the route shows only across many runs and permutations.",
 [B+"state/oca.rs",B+"state/oca/overlay",B+"state/entry_codes.rs",B+"state/entries.rs"],
 [("sorted serialization of every map",B+"state/oca/overlay.rs"),("serialize_overlays sorts by type and SAID",B+"state/oca.rs")])
p("C05","A bundle survives its JSON form unchanged",
 "Reading back the JSON of any built bundle gives a bundle with the same content and SAID, which encodes to the same bytes again. Continuing to edit the bundle read back gives exactly what continuing to edit the original gives.",
 ["programs","inputs"],"every bundle that can be built, with any further commands applied after the round trip",
 "One test loads one fixed bundle; overlays with languages, conditions, framings, grouped entry codes and odd strings are not sampled.",
 [B+"state/oca.rs",B+"controller.rs",B+"state/oca/overlay"],
 [("serialize_overlays / deserialize_overlays",B+"state/oca.rs"),("OCABox::from(OCABundle)",B+"state/oca.rs")])
p("C06","Generated OCAFILEs rebuild the same bundle",
 "The OCAFILE text produced from a bundle that is not empty, and the OCAFILE text produced from the recorded history of a stored bundle, each build a bundle with the same SAID as the one they were produced from; the commands produced from a bundle, applied in order, give its content. The only exception is a history spread over several files which declares an attribute again in a later one, since one file may add an attribute only once.",
 ["programs","inputs","histories"],"every bundle content and every recorded history",
 "One fixed bundle is round-tripped by a test; quoting, grouped entry codes, classifications, links, framings and removals are never combined.",
 ["semantics/oca-file/src/ocafile/mod.rs",B+"state/oca.rs","oca/src/facade/fetch.rs"],
 [("generate_from_ast",  "semantics/oca-file/src/ocafile/mod.rs"),("OCABundle::to_ast",B+"state/oca.rs"),("get_oca_bundle_ocafile","oca/src/facade/fetch.rs")])
p("C07","Parsing keeps every command and ignores layout",
 "Parsing an OCAFILE yields exactly the commands written, in order, with the attribute names, types, languages, properties and values as written, and the file's meta data. Keyword case, spacing, blank lines, comments, line continuations and the quoting style of a value do not change the result wherever the grammar allows them; within one command the order of the entries of a mapping carries no meaning.",
 ["inputs","programs"],"every sequence of commands in every layout the grammar allows",
 "Parser tests check that samples parse and print them; almost none compare the resulting commands, and layouts are a combinatorial space.",
 ["semantics/oca-file/src/ocafile/mod.rs","semantics/oca-file/src/ocafile/instructions/add.rs","semantics/oca-file/src/ocafile/instructions/remove.rs","semantics/oca-file/src/ocafile/instructions/helpers.rs","semantics/oca-file/src/ocafile.pest"],
 [("pest grammar","semantics/oca-file/src/ocafile.pest"),("instruction extractors","semantics/oca-file/src/ocafile/instructions")])
p("C08","Commands survive printing and JSON",
 "Printing parsed commands back as an OCAFILE and parsing that text gives the same commands; serializing commands to JSON and reading them back gives the same commands. The order of entries within one mapping of a command carries no meaning.",
 ["inputs","programs"],"every command the parser can produce",
 "A few fixed commands are printed in tests; value kinds (lists, groups, references, nested arrays, framings, removals) times quoting are not covered.",
 ["semantics/oca-file/src/ocafile/mod.rs","semantics/oca-ast/src/ast/mod.rs","semantics/oca-ast/src/ast/attributes.rs","semantics/oca-ast/src/ast/recursive_attributes.rs"],
 [("generate_from_ast","semantics/oca-file/src/ocafile/mod.rs"),("Serialize/Deserialize of Command","semantics/oca-ast/src/ast/mod.rs")])
p("C09","Within one file attributes are added once and removed only if present",
 "A file that adds an attribute already present at that point of the file, or removes an attribute or classification not present at that point, is rejected when it is parsed; every other file passes this check. An attribute that was removed may be added again, and a file that starts from another bundle may remove what that bundle is presumed to hold.",
 ["programs"],"every sequence of ADD and REMOVE commands for attributes and classification in one file",
 "Two unit tests call the rule on one prepared state; sequences that add, remove and add again are not explored.",
 ["semantics/oca-ast/src/validator.rs","semantics/oca-file/src/ocafile/mod.rs"],
 [("OCAValidator::validate","semantics/oca-ast/src/validator.rs")])
p("C10","No input crashes or hangs the library",
 "Any OCAFILE text, JSON document, condition or query handed to the parser, the builder, the loader, the validator or the queries ends in a result or in an error value: never in a panic, an abort or an endless loop. Afterwards the library still answers every other call, the same call in the same state answers the same, and only a successful build has changed what is stored.",
 ["inputs","histories"],"every text and JSON input, well-formed or damaged, including valid files with unusual languages, names, empty values, unresolved references and empty files",
 "Tests use well-formed inputs; the property is about all the others.",
 ["semantics/oca-file/src/ocafile/mod.rs",B+"build.rs",B+"controller.rs",B+"state/oca.rs","oca/src/facade/build.rs","oca/src/facade/fetch.rs","transformation/transformation-file/src/build.rs"],
 [("error enums of every layer","oca/src/facade/build.rs")])
p("C11","Recorded history is finite, complete and replays to the same SAID",
 "For every bundle ever built, and at any later time, the recorded history is a finite chain of commands from the first command to that bundle; replaying those commands from nothing gives that SAID, and after each of them the SAID recorded for that step. Building other bundles, or the same one again, never changes the history recorded for a bundle.",
 ["histories","programs"],"every sequence of builds, including files that undo earlier commands, repeat a command, extend other bundles or reach the same bundle by different routes",
 "Tests look at one linear history; cycles and overwritten histories appear only when separate builds meet at the same bundle.",
 ["oca/src/facade/build.rs","oca/src/facade/fetch.rs",B+"build.rs"],
 [("build_step records parent and command per SAID","oca/src/facade/build.rs"),("get_oca_bundle_steps walks the chain","oca/src/facade/fetch.rs")],
 [("oca.<said>.operation","parent SAID and command that produced the bundle","oca/src/facade/build.rs")])
p("C12","FROM extends the stored base and leaves it alone",
 "A file starting with FROM and the SAID of a stored bundle builds the content of that bundle with the following commands applied; its first recorded step has the base as parent (unless the bundle that step leads to was stored before), and the base and its history are unchanged. A FROM naming a bundle that is not stored, or one after other commands, is an error located on its line, and nothing is built.",
 ["histories","programs"],"every stored base (including intermediate steps of other builds and extended bundles) and every following command sequence, chains of FROM of any length",
 "One test extends one base by one attribute.",
 ["oca/src/facade/build.rs",B+"build.rs",B+"state/oca.rs"],
 [("parse_and_check_base","oca/src/facade/build.rs"),("OCABox::from","semantics/oca-bundle/src/state/oca.rs")])
p("C13","Local names resolve to the bundle last built under them",
 "A reference by name, at any depth of an attribute type or as a link target, is replaced by the SAID of the bundle most recently built under that name before any identifier is computed. A name that was never registered is an error naming it and nothing is built or registered; names already registered are kept, and listing the names shows exactly the registered ones with their current SAID.",
 ["histories","programs"],"every interleaving of named builds, re-registrations, failures and uses of names in every position a reference can take",
 "One test registers two names and uses each once at depth at most one.",
 ["oca/src/local_references.rs","oca/src/facade/build.rs","oca/src/facade/fetch.rs"],
 [("replace_refn_with_refs","oca/src/local_references.rs"),("References::find/save","oca/src/facade/build.rs")],
 [("OCAReferences","name -> SAID","oca/src/facade/build.rs")])
p("C14","Fetching with dependencies returns the reference closure",
 "Fetching a bundle together with its dependencies returns the bundle and exactly the set of other bundles reachable from it through attribute references at any array depth, each once and whatever their order, and fails if one of them is not stored. Fetching without dependencies returns the bundle alone and does not need them.",
 ["histories","inputs"],"every reference graph over stored and missing bundles: chains, diamonds, repeated references, nested arrays",
 "No test fetches with dependencies.",
 ["oca/src/facade/fetch.rs"],
 [("get_oca_bundle recursion","oca/src/facade/fetch.rs"),("retrive_all_references","oca/src/facade/fetch.rs")])
p("C15","Relations and stored objects agree with the bundles",
 "Exploring a bundle that a build ended in lists exactly its capture base and overlays; exploring a capture base lists exactly the bundles builds ended in that contain it and the overlays of those, exploring an overlay those bundles that contain it and its capture base; an identifier that was never built has no relations. Each listed object can be fetched by its identifier and is the one in the bundle.",
 ["histories"],"every sequence of builds in which capture bases and overlays are shared between bundles",
 "No test reads a relation back after a second build that shares an object.",
 ["oca/src/facade/explore.rs","oca/src/facade/build.rs","oca/src/facade/fetch.rs"],
 [("add_relations","oca/src/facade/explore.rs"),("get_oca_objects","oca/src/facade/fetch.rs")],
 [("OCARelations","per SAID: type and related SAIDs","oca/src/facade/explore.rs")])
p("C16","The change model links each object to its command and predecessor",
 "For every command of a build, the derived change model names the command's own digest and the bundle it led to; a command on the capture base is linked to the resulting capture base, and a command on an overlay to the resulting overlay of that very kind, language and target. Each entry's predecessor is the previous bundle, capture base or same overlay of that build, the first one having none, also when the build extends another bundle. After any builds the store holds an entry for every command applied, and every entry it holds is one derived by some build.",
 ["programs"],"every command sequence over all overlay kinds, languages, link targets and frames",
 "One test checks that entries exist for four commands; predecessors and overlay identity are not checked.",
 ["semantics/oca-dag/src/lib.rs","oca/src/facade/build.rs"],
 [("build_core_db_model / apply_step","semantics/oca-dag/src/lib.rs"),("build_models","oca/src/facade/build.rs")])
p("C17","Rebuilding changes nothing and a failed build leaves no trace",
 "Building a file that was already built, in whole or as part of another file, changes nothing a query can see except the bundle a name points to. A build or validation that ends in an error changes nothing at all, and validating a file stores nothing but its name.",
 ["histories","programs"],"every sequence of successful, repeated, failing and validate-only builds",
 "No test compares the stores before and after.",
 ["oca/src/facade/build.rs","oca/src/repositories/oca_bundle_cache_repo.rs","oca/src/repositories/capture_base_cache_repo.rs","oca/src/repositories/oca_bundle_fts_repo.rs"],
 [("Facade::build / validate_ocafile","oca/src/facade/build.rs"),("insert or ignore into caches","oca/src/repositories/oca_bundle_cache_repo.rs")])
p("C18","An interrupted build is repaired by building again",
 "If a build is cut off at any of its store writes, before the write or half way through it, every bundle built before is still returned unchanged with its history, and queries still answer. Building the same file again after reopening gives answers as from a store whose build was never interrupted.",
 ["crash_points","fault_sequences","histories"],"every write position of every build, one or several interruptions, on top of every earlier history",
 "No test interrupts anything.",
 ["oca/src/facade/build.rs","oca/src/facade/explore.rs","oca/src/facade/fetch.rs","oca/src/data_storage.rs"],
 [("order of writes in Facade::build","oca/src/facade/build.rs")])
p("C19","Listing pages partition the built bundles and capture bases",
 "For any page size, the pages of the bundle listing are disjoint, each holds at most that many records, together they hold every bundle a build ended in exactly once, and the stated total is their number on every non-empty page; a page past the end is empty. The same holds for capture bases, and listing again gives the same order as long as nothing new is built.",
 ["histories","inputs"],"every sequence of builds, every page size and page number",
 "One test lists one page.",
 ["oca/src/facade/fetch.rs","oca/src/repositories/oca_bundle_cache_repo.rs","oca/src/repositories/capture_base_cache_repo.rs"],
 [("fetch_all with limit/offset","oca/src/repositories/oca_bundle_cache_repo.rs")])
p("C20","Search finds exactly the bundles whose name or description matches",
 "A query is split at white space and words of fewer than three characters are ignored; searching finds every bundle a build ended in of which the name or the description, in one language, contains each remaining word in any case of letters, and no other, each once, and finds nothing if no word remains. Every record names its bundle, scope and metadata phrase with the match marked, and results are paged like listings, the best scored first; a given language only affects the ranking. No query text is an error or a crash.",
 ["histories","inputs"],"every set of built bundles, every query text including punctuation and quotes, language filter, page size and page",
 "One test searches one prefix and checks the total.",
 ["oca/src/repositories/oca_bundle_fts_repo.rs","oca/src/facade/fetch.rs","oca/src/facade/build.rs"],
 [("FTS index insert/search","oca/src/repositories/oca_bundle_fts_repo.rs")])
p("C21","Every storage back end is the same map",
 "For each back end, reading a key of a namespace returns the last value written to that key in that namespace or nothing, listing a namespace returns exactly its current entries, namespaces never affect each other, and a persistent back end keeps everything across reopening. A write that fails, also half way, leaves what the key had. All back ends answer the same history of operations identically for keys of any characters (up to 80 bytes), and keys cannot reach outside the store.",
 ["histories","configurations"],"every sequence of writes, reads, listings and reopenings, any keys and values, on each back end",
 "Back ends have no tests of their own except through one build.",
 ["oca/src/data_storage.rs"],
 [("DataStorage implementations","oca/src/data_storage.rs")])
p("C22","Validation accepts what was built and detects any tampering",
 "The bundle validator accepts every bundle the system builds whose conditions are well-formed, and rejects a bundle in which any identifier, the link from an overlay to the capture base, or any content of the capture base, an overlay or the bundle was changed, added or removed after it was built, naming what is wrong. Members a reader does not know and the stated length are not content: reading drops the first and recomputes the second. When a condition is invalid, the errors about conditions alone are reported.",
 ["inputs","fault_sequences"],"every built bundle and every single or multiple change to its JSON",
 "Three fixed bundles with one edit each.",
 [B+"state/validator.rs"],
 [("Validator::validate SAID checks",B+"state/validator.rs")])
p("C23","Enforced translations: exactly the missing ones are reported",
 "With a non-empty set of enforced languages, validation reports, for each kind of translated overlay (meta, entry, label, information) present, exactly the enforced languages that have none, the languages present but not enforced, and the attributes or properties one language has and another lacks; a bundle complete in every enforced language is accepted.",
 ["inputs","configurations"],"every combination of enforced languages, present languages and translated attributes",
 "One test removes one translation.",
 [B+"state/validator.rs"],
 [("Validator translation checks",B+"state/validator.rs")])
p("C24","Conditions keep their dependencies and evaluate as written",
 "A condition is stored with its attribute references numbered by first use and the list of those attributes, and reading it back restores the text as written; evaluating it with values for its dependencies gives the truth value of the written expression, and a missing value, a self reference or an ill-formed expression is an error. Bundle validation rejects a condition that refers to a missing attribute, to itself, or is ill-formed (it does not give a truth value on stand-in values of the types of its attributes), and accepts the others.",
 ["inputs","programs"],"every expression over attribute references, all values, all orders and repetitions of references",
 "One test evaluates one comparison.",
 [B+"state/oca/overlay/conditional.rs",B+"state/validator.rs",B+"state/oca.rs"],
 [("set_condition / check_condition",B+"state/oca/overlay/conditional.rs"),("validate_conditional",B+"state/validator.rs")])
p("C25","The version graph stores what was added and links both ways",
 "In the version graph, an object added once under given parents is returned with exactly its operations and those parents; children lists are exactly the inverse of parents lists, and the ancestors of an object are returned from it back to its roots. Building a version history from a file records, for every content it passes through, the step that first reached it, as a finite chain whose replay gives the same bundle, and stops with an error at the first command that cannot be applied.",
 ["histories"],"every sequence of additions with any parents and every file",
 "Two tests add a line of two objects and print.",
 ["semantics/oca-dag/src/versioning/mod.rs","semantics/oca-dag/src/versioning/ocafile.rs","semantics/oca-dag/src/versioning/bundle.rs","semantics/oca-dag/src/data_storage.rs"],
 [("Graph.add / get","semantics/oca-dag/src/versioning/mod.rs"),("build_oca","semantics/oca-dag/src/versioning/ocafile.rs")])
p("C26","Transformation files parse, build and combine faithfully",
 "A transformation file yields exactly its RENAME and LINK commands in order, and building it gives a self-addressed transformation whose source, target and attribute map are those of the file, later pairs replacing earlier ones for the same attribute; its commands survive their JSON form. The precompiler named in the file decides which kind of file it is read as. A bundle combined with transformations encodes to a self-addressed document containing exactly those parts and reads back unchanged.",
 ["inputs","programs"],"every sequence of commands and layouts, every meta header, every combination of parts",
 "Two samples are parsed and printed.",
 ["transformation/oca-file/src/ocafile/mod.rs","transformation/transformation-file/src/build.rs","transformation/transformation-file/src/state/mod.rs","transformation/ast/src/ast/mod.rs","oca-file/src/ocafile/mod.rs","oca/src/facade/bundle.rs"],
 [("parse_from_string","transformation/oca-file/src/ocafile/mod.rs"),("from_ast","transformation/transformation-file/src/build.rs"),("precompiler dispatch","oca-file/src/ocafile/mod.rs"),("Bundle::encode","oca/src/facade/bundle.rs")])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
for x in P:
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n); assert len(x["title"])<=80
print(len(P))
