import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

MERGE="src/ucis/merge/db_merger.py"; BLD="src/ucis/report/coverage_report_builder.py"; REP="src/ucis/report/coverage_report.py"
W="src/ucis/xml/xml_writer.py"; R="src/ucis/xml/xml_reader.py"; F="src/ucis/xml/xml_factory.py"; Y="src/ucis/yaml/yaml_reader.py"

p("C01","Merge is the union of its sources with per-bin hit counts summed",
 "Merging any list of databases produces a database that contains exactly the union of the sources' design instances (with their hierarchy), covergroups, covergroup instances, coverpoints, crosses and bins (each identified by its path of names, a bin also by its kind), and the hit count of every bin is the sum of the counts that bin has in all sources. Nothing is lost, duplicated or invented, however many sources there are, whichever of them contain an item, and also when one source holds several same-named siblings. Weights, at-least thresholds, design-unit names and the coverpoints a cross refers to are those of the first source that contains the item.",
 ["inputs"],"every list of 0..n source databases built from (nested) design instances, with or without design unit, / covergroups / covergroup instances / coverpoints / crosses / bins with any names, kinds, counts, weights and thresholds",
 "test_merge samples a handful of 2-database merges with at most two covergroups, small counts and no ignore/illegal bins; loss of hits depends on which of n sources holds which item, on kinds sharing a name, on sibling order and on magnitudes.",
 [MERGE],[("DbMerger.merge and the per-level _merge_* helpers",MERGE)],["DbMerger.merge(dst, sources)","scopes()/coverItems() of the destination database"],
 [("name->source lists","sources of one item, per nesting level","DbMerger._merge_*")])
p("C02","Merge result is independent of source order and grouping",
 "For sources that agree on the attributes of the items they share, the merged database is the same (up to the order of siblings) for every order of the sources and for every way of merging them in stages, a staged merge being a merge of earlier merge results. Merging a single database reproduces it, and adding an empty database or one that only repeats existing items with zero hits changes nothing.",
 ["inputs","histories"],"all permutations and all bracketings of every list of up to 4 small source databases",
 "The tests never merge the same sources in two orders or in stages; order dependence only shows for particular overlaps of the sources.",
 [MERGE],[("DbMerger.merge",MERGE)],["DbMerger.merge(dst, sources)","scopes()/coverItems() of the destination"])
p("C03","Merging leaves the sources intact and shares no state with the result",
 "A merge changes nothing observable in any source database, and afterwards the result and the sources are independent: hits added to or items created in one of them never show in any other. A merger object or a destination used for one merge does not influence a later merge into a fresh destination.",
 ["histories"],"all sequences of merges, hit increments and item creations up to the bound, over 2-3 source databases and their merge results",
 "Tests build, merge and compare once; aliasing between result and source is only visible when one side is modified after the merge.",
 [MERGE,"src/ucis/mem/mem_scope.py","src/ucis/coverpoint.py"],[("createBin builds fresh cover data for the destination",MERGE)],["source and destination databases after each step"])
p("C04","Reported coverage percentages follow the bin, weight and goal definitions",
 "In the coverage report of any database, a coverpoint or cross has coverage 100 * (normal bins whose count reaches their at-least threshold) / (normal bins), ignore and illegal bins never counting and 0 being reported when it has no normal bins. A covergroup type or covergroup instance has the weight-weighted mean of its own coverpoints and crosses, and the report total is the weight-weighted mean over all covergroup types of all design instances; a mean over total weight 0 is 0. Building the report never fails on such a database.",
 ["inputs"],"every database with non-negative weights, thresholds and counts, any number (including zero) of instances, covergroups, coverpoints, crosses and bins of each kind",
 "test_coverage_report checks a few fixed percentages with weight 1 and at_least 1; zero weights, empty groups, several design instances, weighted crosses and thresholds above 1 are never combined.",
 [BLD,REP],[("build_covergroups / build_covergroup / build_coverpoint / build_cross",BLD)],["CoverageReportBuilder.build(db)"])
p("C05","The coverage report mirrors the database item for item",
 "The coverage report contains exactly one entry per covergroup type, covergroup instance, coverpoint, cross and bin of the database, with the database's name and weight, in database order, bins of coverpoints separated into normal, ignore and illegal, a cross listing its normal bins only, and each bin carrying its hit count and at-least goal and reporting itself hit exactly when count >= goal. Where names are distinct, every name-to-entry map of the report leads to the entry with that name for every entry in the corresponding list. Building a report leaves the database unchanged, and building it again gives an equal report.",
 ["inputs"],"every database as in C04",
 "Tests look up single entries of fixed databases; omissions and mix-ups depend on structure (kinds, crosses, instances, duplicate names on different levels).",
 [BLD,REP],[("CoverageReportBuilder",BLD),("CoverageReport object tree",REP)],["CoverageReportBuilder.build(db)","CoverageReport.covergroups / covergroup_m / coverpoint_m / cross_m"])
p("C06","The text report states every item and percentage of the coverage report",
 "The text report formatters print, for every database, one line per covergroup type, covergroup instance, coverpoint and cross in report order, with nesting shown by indentation, giving its name and its coverage percentage rounded to no less than two decimals (or to the number of decimals configured), so that an item shown as 100% or 0% really is within rounding of it. With details enabled every bin of the coverage report is listed under its own item and kind with its count exactly once, hit bins before missed bins when that ordering is selected; the headings of ignore and illegal bins appear only where there are such bins. Nothing else is printed.",
 ["inputs","configurations"],"every database and every setting of details, ordering and rounding",
 "test_report only checks that reporting runs or compares one small report; wrong rounding, lost items and indentation errors need particular structures and values.",
 ["src/ucis/report/format_rpt_text.py","src/ucis/report/text_coverage_report_formatter.py"],[("FormatRptText","src/ucis/report/format_rpt_text.py"),("TextCoverageReportFormatter","src/ucis/report/text_coverage_report_formatter.py")],["FormatRptText().report(db, out, [])","TextCoverageReportFormatter(report, fp).report()"])
p("C07","The JSON report is a faithful transcription of the coverage report",
 "The JSON report is valid JSON for every database and carries the total coverage and, in report order and with the same nesting, every covergroup type, covergroup instance, coverpoint and cross with its name and coverage, and every bin of the coverage report with its name, count and goal under the item and kind it belongs to. Items absent from the database do not appear.",
 ["inputs"],"every database, including ones with crosses, ignore/illegal bins, no covergroups, non-ASCII names and large counts",
 "The only JSON test runs one YAML file without crosses and checks nothing in the output.",
 ["src/ucis/report/format_rpt_json.py","src/ucis/schema/covreport.json"],[("FormatRptJson.report*","src/ucis/report/format_rpt_json.py"),("classes generated from the report schema","src/ucis/schema/covreport.json")],["FormatRptJson().report(db, out, [])"])
p("C08","XML output always conforms to the UCIS interchange schema",
 "For every database that has at least one design instance and whose covergroups (or, where present, their instances) have at least one coverpoint, each with at least one bin, writing XML succeeds and yields a well-formed standalone document that the bundled UCIS schema accepts, whatever names, counts, weights, thresholds, source locations and test-history data the database holds. Each source file referenced by any scope is listed exactly once under an id of its own. Writing does not modify the database, and writing twice gives the same coverage content.",
 ["inputs","configurations"],"all such databases with names over any XML-representable characters; any time zone and locale setting",
 "Validation tests use one fixed simple database with complete test data in one locale and time zone.",
 [W,"src/ucis/xml/schema/ucis.xsd"],[("XmlWriter.write and helpers",W)],["XmlWriter().write(fp, db)","validate_ucis_xml"])
p("C09","Writing and re-reading XML preserves all functional coverage",
 "Writing a database to XML and reading it back yields the same design instances (with the same hierarchy and design-unit name), covergroup types, covergroup instances, coverpoints, crosses with the same crossed coverpoints, and bins, in the same order and with the same names, kinds, hit counts, covergroup, instance, coverpoint and cross weights, and at-least thresholds. The type coverage of a covergroup with instances comes back as the bin-wise sum over its instances; a covergroup without instances comes back with its own data as type coverage and as one instance of the same name. The coverage report is therefore unchanged wherever the type data is that sum.",
 ["inputs"],"all schema-expressible databases (C08) whose coverpoints and crosses use one threshold for all their bins and whose type-level coverpoints carry the weights and thresholds of the instances; sibling names distinct",
 "Round-trip tests cover a few databases with weight 1, at_least 1, one instance and simple names.",
 [W,R,F],[("XmlWriter",W),("XmlReader",R)],["XmlWriter().write -> XmlReader().read / XmlFactory.write -> XmlFactory.read","XmlUCIS.write"])
p("C10","Writing and re-reading XML preserves the test history",
 "Every history node of a database comes back from an XML round trip, in order, with the same logical and physical name, kind, parent node, pass/fail status, simulation time and unit, working directory, CPU time, seed, command, arguments, compulsory flag, date, user, cost, tool category, vendor fields, same-tests count and comment, and is found when history nodes of its kind are requested. This holds in every time zone.",
 ["inputs","configurations"],"all lists of history nodes with any parent structure, any XML-representable strings, any valid date-time, any finite non-negative numbers, statuses OK, ERROR and FATAL; time zones with and without daylight saving",
 "Tests write one history node with one date and read back almost none of its fields.",
 [W,R,"src/ucis/mem/mem_history_node.py","src/ucis/history_node.py"],[("write_history_nodes",W),("readHistoryNode",R)],["historyNodes(kind) and the HistoryNode getters after the round trip"])
p("C11","Schema-conforming XML from other tools is read with the right meaning",
 "Reading any document the UCIS schema accepts yields its design instances (nested as their instance ids say), covergroup types (the covergroup instances of one covergroup section grouped by the type name they give), instances, coverpoints, crosses and bins with the recorded names, kinds, counts, weights and thresholds, with type coverage the bin-wise sum over the instances of the type. Lexical freedom of XML and XML Schema does not change the meaning: namespace prefixes, attribute order and quoting, whitespace, comments and processing instructions, character and entity references, number and boolean notations, date-times with fractions or zone offsets, omitted optional attributes, range or sequence bins, other metrics' sections, user attributes, document encoding, gzip compression, and reading by name, from a binary stream, text stream or string.",
 ["inputs"],"schema-valid documents with distinct sibling names, one range or sequence per bin and ids that refer to declared source files, derived from base documents by every single (thorough: every pair of) lexical variation at every position of the document",
 "Tests read two or three fixed documents, each with one lexical style.",
 [R,F,"src/ucis/xml/__init__.py"],[("XmlReader.read*",R),("XmlFactory._open_file / read",F)],["XmlFactory.read(file or stream)","XmlReader().loads / read"])
p("C12","Documents that violate the UCIS schema are rejected",
 "Reading a document through the XML back-end raises an error, and returns no database, whenever the document is not well-formed or does not conform to the bundled UCIS schema: a missing required attribute or element, a value of the wrong type, an unknown element or attribute, wrong element order, truncation, or a cross that names a coverpoint its covergroup instance does not have. A conforming document is never rejected.",
 ["inputs"],"every single structural mutation of base documents at every element and attribute, every truncation point, plain and gzip",
 "No test feeds an invalid document.",
 ["src/ucis/xml/__init__.py",F,R],[("validate_ucis_xml before reading","src/ucis/xml/__init__.py"),("XmlFactory.read",F)],["XmlFactory.read raising / returning","validate_ucis_xml"])
p("C13","YAML coverage data is read exactly, with type coverage derived from instances",
 "Reading a valid YAML coverage document yields one covergroup per entry with its weight, every listed instance, coverpoint, cross and normal, ignore and illegal bin with the stated names, integer counts and at-least thresholds (default 1) and cross members, in document order. The type coverage of each covergroup is the union over its instances: a bin of the type has the summed count of the same-named bin of the same kind in all instances, with the kind and threshold it has there (coverpoints and crosses have weight 1, instances the weight of their type). A covergroup without instances is accepted and is empty.",
 ["inputs"],"every schema-valid YAML/JSON document within the bound whose instances of one type agree on thresholds",
 "test_yaml_reader loads four documents, with at most two instances, and no ignore/illegal bins or thresholds at type level.",
 [Y,"src/ucis/schema/coverage.json"],[("YamlReader.load / process_covergroup / record_coverpoint / record_cross",Y)],["YamlReader().loads(text)","YamlReader().load(stream)"])
p("C14","Malformed YAML coverage data is rejected",
 "Reading YAML coverage data raises an error, and returns no database, when the document breaks the coverage schema (missing name, count, bins or crossed coverpoints, value of a wrong type at any place) or when a cross refers to a coverpoint that its covergroup instance does not define.",
 ["inputs"],"every single schema-breaking mutation at every place of base documents",
 "No test feeds an invalid YAML document except one missing-coverpoints case.",
 [Y,"src/ucis/schema/coverage.json"],[("jsonschema validation in YamlReader.load",Y),("cross/coverpoint resolution",Y)],["YamlReader().loads raising"])
p("C15","The in-memory database behaves as the UCIS tree it was told to be",
 "After any sequence of creation and update calls, iterating a scope with a type mask yields exactly the children whose type matches the mask, in creation order and with the name, type, weight, source location and parent-specific data they were created with; cover items likewise by bin kind. A hit increment or a newly created item changes only the bin or scope it was applied to, also when the caller reuses or later modifies the argument objects, and history nodes are found by kind in creation order.",
 ["histories"],"all sequences of creation, increment, weight update and iteration calls up to the bound, compared with a plain tree model after every step",
 "Tests build a few fixed trees in one order and never compare the complete observable state after each step.",
 ["src/ucis/mem/mem_scope.py","src/ucis/mem/mem_ucis.py","src/ucis/mem/mem_covergroup.py","src/ucis/mem/mem_cross.py","src/ucis/mem/mem_scope_iterator.py","src/ucis/mem/mem_cover_index_iterator.py","src/ucis/mem/mem_history_node_iterator.py"],
 [("MemScope.create*/scopes/coverItems","src/ucis/mem/mem_scope.py"),("iterators","src/ucis/mem/mem_scope_iterator.py")],["scopes(mask)","coverItems(mask)","historyNodes(kind)","getters"])
p("C16","Property access is exact and the C-style API equals the object API",
 "For the in-memory back-end, an integer or string property that the object accepts and that is set on an object reads back as the value last set on that object and on no other, through the property calls as well as through the dedicated getters and setters, and setting one property leaves the other properties of the object alone. Every C-style function has exactly the effect of the corresponding object method, so a database built through either API is observably the same.",
 ["histories"],"all sequences of property writes up to the bound over every (object kind, property) pair; all construction programs within the bound through both APIs",
 "Tests set single properties on single objects; interference between properties or objects needs a sequence.",
 ["src/ucis/__init__.py","src/ucis/obj.py","src/ucis/scope.py","src/ucis/cvg_scope.py","src/ucis/covergroup.py","src/ucis/mem/mem_obj.py","src/ucis/mem/mem_cvg_scope.py","src/ucis/mem/mem_covergroup.py","src/ucis/mem/mem_history_node.py"],
 [("ucis_* functions","src/ucis/__init__.py"),("get/setIntProperty chain","src/ucis/cvg_scope.py")],["ucis_GetIntProperty / ucis_SetIntProperty / ucis_Get|SetStringProperty","object getters"])
p("C17","Results do not depend on what was processed before",
 "The result of reading, writing, merging, building a report or formatting it depends only on the arguments of that call: for any history of earlier operations in the same process, with the same or with fresh reader, writer, merger and formatter objects and whether or not earlier operations failed, the result equals the one obtained in a fresh process.",
 ["histories"],"all sequences up to the bound of read-XML, read-YAML, write-XML, merge, build-report, text and JSON report operations over a set of different databases and failing inputs, with shared and fresh worker objects",
 "Each test uses fresh objects once, in one order.",
 [R,W,Y,MERGE,"src/ucis/report/format_rpt_text.py","src/ucis/report/format_rpt_json.py","src/ucis/rgy/format_rgy.py"],
 [("per-call state of the reader/writer/formatter objects",R),("class-level caches of schemas and registry","src/ucis/rgy/format_rgy.py")],["results of each operation in the sequence"])
p("C18","The ucis commands convert, merge and report without changing coverage",
 "For inputs the XML format can express, `ucis convert` writes an XML database with the same functional coverage as its input, `ucis merge` writes the merge of its inputs, and `ucis report` prints exactly the report of its input, to standard output or to the file named by --out, for XML and YAML inputs and text and JSON reports, defaults being xml and txt. Chaining commands agrees with the direct computation: reporting on a converted database equals reporting on the original, and merging files equals merging the databases read from them.",
 ["inputs","configurations"],"all chains of commands up to the bound over sets of input databases and formats",
 "Only two tests call command functions, each with one input.",
 ["src/ucis/__main__.py","src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_merge.py","src/ucis/cmd/cmd_report.py","src/ucis/rgy/format_rgy.py","src/ucis/xml/db_format_if_xml.py","src/ucis/yaml/db_format_if_yaml.py"],
 [("main and sub-commands","src/ucis/__main__.py"),("format registry","src/ucis/rgy/format_rgy.py")],["exit code, stdout and output files of ucis.__main__.main"])
p("C19","A failing command says so and never destroys existing results",
 "When a `ucis` command cannot do its job (an input is missing, unreadable, malformed or of another format, a format name is unknown or not writable, the output cannot be created, or the database cannot be rendered), it exits with a non-zero status and an error message. A file that already existed at the output path is then left exactly as it was, a partial output file is never left behind, and input files are never modified. A command that exits with status 0 has written its complete output.",
 ["fault_sequences","inputs"],"every failing input kind for every command and argument position, and a failure injected at every step of each command's execution",
 "No test exercises a failing command.",
 ["src/ucis/__main__.py","src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_merge.py","src/ucis/cmd/cmd_report.py","src/ucis/xml/xml_ucis.py","src/ucis/xml/xml_factory.py"],
 [("exception handling in main","src/ucis/__main__.py"),("output written only after rendering","src/ucis/xml/xml_ucis.py")],["exit status, stderr/stdout, output and input files"])
p("C20","The library back-end hands every call to the UCIS C library unchanged",
 "With the library back-end, every creation, property, test-data, iteration and write call reaches the UCIS C library as exactly one call of the corresponding C function (plus the defaults a new covergroup, coverpoint or scope sets) with the arguments the caller gave: the right database and parent handles, names, source locations, weights, types, flags, cross members, test data, bin kinds and hit counts, for all values the C types can hold. What the library answers (properties, test data, iterated objects, source locations) is what the caller gets, and a creation or write that the library refuses is reported as an error.",
 ["inputs","histories"],"all construction programs up to the bound with every argument over its alphabet, against a recording UCIS library",
 "The library tests are skipped without a vendor library, so nothing of this back-end is tested.",
 ["src/ucis/lib/lib_ucis.py","src/ucis/lib/lib_scope.py","src/ucis/lib/lib_covergroup.py","src/ucis/lib/lib_coverpoint.py","src/ucis/lib/lib_cross.py","src/ucis/lib/lib_cover_data.py","src/ucis/lib/lib_test_data.py","src/ucis/lib/lib_source_info.py","src/ucis/lib/libucis.py"],
 [("ctypes prototypes and structures","src/ucis/lib/libucis.py")],["the calls received by a recording C library"])
p("C21","More hits never lower coverage, and coverage stays within 0..100",
 "All reported percentages lie between 0 and 100, an item is at 100 exactly when every normal bin of every positively weighted part has reached its threshold, and adding hits to any bin, or merging in further runs of the same coverage model, never lowers any percentage of the report. Hits in ignore and illegal bins never change any percentage.",
 ["histories"],"all histories of hit increments and merges of same-structure runs up to the bound",
 "Tests never compare reports before and after additional hits.",
 [BLD,MERGE,"src/ucis/mem/mem_cover_index.py"],[("percentage computation",BLD),("count summation",MERGE)],["CoverageReportBuilder.build after each step"])
p("C22","Operations on separate data do not interfere when they overlap in time",
 "Two operations (reading XML or YAML, writing XML, merging, building or printing a report, building or walking a database) that overlap in time in two threads, each with its own reader, writer, merger, formatter, streams and databases, both give exactly the result (or the error) they give alone, wherever one is suspended while the other runs, also when they are the first operations of the process. The same holds for operations that only read one and the same database.",
 ["schedules"],"every ordered pair of operations and every schedule with at most two switches in front of source lines of pyucis",
 "The tests run one operation at a time; state shared through classes, modules or default arguments that is set up at the start of an operation shows only when another operation runs in between.",
 [W,R,Y,MERGE,BLD,"src/ucis/report/format_rpt_text.py","src/ucis/report/format_rpt_json.py"],[("per-object working state of readers, writers and mergers",R+", "+W+", "+MERGE),("lazily built schema caches","src/ucis/report/format_rpt_json.py, "+Y)],["results of both operations"])
p("C23","Formats are listed, found and used exactly as registered",
 "The format registry (FormatRgy) is an exact map from names to the format last registered under them, for database formats and report formats apart: listing gives every registered name once, in sorted order, a lookup finds a name exactly if it is registered and then gives the interface, name, capabilities and description it was registered with; the defaults are xml and txt. `ucis list-db-formats` and `ucis list-rpt-formats` print one line with name and description per registered format. convert, merge and report use the interface registered under the names given (or the default names): each input is read once, in order, by the input format; the result is written once, by the output format, to the path given; an unknown name is refused before anything is read or written. A report format that writes to a stream gets the output stream, one that writes to a directory an empty directory of the name given.",
 ["histories","inputs"],"all sequences of registrations (new names, replacements, names in both registries) up to the bound, all queries after each; all commands x formats x destinations after them",
 "The tests never register a format nor list formats; replacement, names shared by the two registries and directory reports are not sampled at all.",
 ["src/ucis/rgy/format_rgy.py","src/ucis/rgy/format_if_db.py","src/ucis/rgy/format_if_rpt.py","src/ucis/cmd/cmd_report.py","src/ucis/cmd/cmd_merge.py","src/ucis/cmd/cmd_convert.py","src/ucis/cmd/cmd_list_db_formats.py","src/ucis/cmd/cmd_list_report_formats.py"],
 [("FormatRgy maps","src/ucis/rgy/format_rgy.py"),("format lookup in the commands","src/ucis/cmd/*.py")],["registry queries","output of the list commands","calls a recording format receives"])
import json, os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
