#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors and texts stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Well-formed text parses to exactly the tree it denotes",
 "Any tree of words and strings, written in any of the layouts the text format allows (indentation of any width with spaces or tabs, several nodes chained on one line, bare words, the three quote styles, literal blocks, comments), is parsed to exactly that tree: same nodes, same content, same order, same nesting. Nothing is dropped, duplicated, re-parented or altered.",
 ["inputs"], "every tree of non-control text, and every valid layout of it",
 "The tests parse a few dozen hand-written texts; the layouts combine (quote style x indentation x chain x block x comment x position) far beyond that.",
 ["block.go", "lexer.go", "event.go", "parser.go"],
 [("line grammar and indentation stack", "block.go:line/tree"), ("quoted strings", "lexer.go:Quoted"), ("literal blocks", "lexer.go:Block"), ("tree building from events", "event.go:Tree")],
 observe_at=["FromString", "FromBytes"])
prop("C02", "Blank lines, comments and line ends never change the parsed tree",
 "Inserting or removing blank lines, whitespace-only lines, comments or trailing spaces between nodes, indenting the whole document uniformly, or changing the line ends (outside quoted strings) among LF, CR LF and CR, never changes the tree a text parses to.",
 ["inputs"], "every well-formed text and every sequence of layout-only edits of it",
 "Tests have one comment and one CRLF case; a metamorphic relation between two texts is not tested at all.",
 ["block.go", "lexer.go"],
 [("line skipping", "block.go:line"), ("comments and breaks", "lexer.go:Comment/Break/Space")],
 observe_at=["FromString"])
prop("C03", "The parse result does not depend on how the input is delivered",
 "Text and binary input parse to the same graph whether delivered as a string, as bytes, from a file, or through a reader that returns it in pieces of any size (one byte at a time, with interleaved empty reads, or with the end of file reported together with the last data), at any size and alignment of the input relative to internal buffers.",
 ["inputs", "schedules"], "every text (below and far above the internal buffer size) and every way of splitting it into reads",
 "Tests read small strings from memory buffers only: no input crosses the buffer boundary at more than one alignment and no reader returns short reads.",
 ["lexer.go", "parser.go", "binary.go"],
 [("buffer refill", "lexer.go:fill"), ("reader entry points", "parser.go:FromReader/FromFile/FromBytes"), ("binary reader", "binary.go:read")],
 observe_at=["FromReader", "FromString", "FromBytes", "FromFile", "FromBinaryReader"])
prop("C04", "Text written from a graph parses back to the same graph",
 "Emitting a graph as text and parsing that text gives back a graph with the same nodes, content, order and nesting, for any depth and any printable content below the first level (spaces, newlines, quotes, backslashes, hashes, commas, parentheses, Unicode), with first-level nodes being plain words. Emitting the re-parsed graph yields the same text again.",
 ["inputs"], "every graph of non-empty text content without control characters whose first-level nodes are plain words",
 "Tests emit a handful of graphs; quoting and escaping depend on combinations of characters, depth and position.",
 ["graph.go", "block.go", "lexer.go"],
 [("emitter quoting, escaping, indentation", "graph.go:_text"), ("unescaping", "lexer.go:Quoted")],
 observe_at=["Graph.Text", "FromString"])
prop("C05", "Binary serialization round-trips every graph",
 "Converting a graph to the binary format and back gives a graph with the same nodes, order, nesting and content bytes, for any shape, any depth, and any non-empty content of any length, including content with zero bytes or bytes that have a meaning in the format.",
 ["inputs"], "every graph with non-empty string or byte content, any size up to memory limits",
 "Tests round-trip three graphs of short ASCII words.",
 ["binary.go", "event.go"],
 [("encoder", "binary.go:bin/newVarInt"), ("decoder", "binary.go:line/varInt/parse")],
 observe_at=["Graph.Binary", "FromBinary", "FromBinaryReader", "FromBinaryFile"])
prop("C06", "Decoding arbitrary binary data always terminates safely",
 "Decoding any sequence of bytes as a binary graph (random, truncated at any point, or corrupted anywhere) always returns, without crashing and without time or memory out of proportion to the input. When a valid stream is cut short, every node that was completely received before the cut is still returned in its place.",
 ["inputs", "crash_points"], "every byte string; every truncation point and byte corruption of a valid stream",
 "Tests decode only complete valid streams.",
 ["binary.go", "event.go"],
 [("decoder termination", "binary.go:line/read"), ("level bookkeeping", "event.go:AddAt/Tree")],
 observe_at=["FromBinary", "FromBinaryReader"])
prop("C07", "The log returns every object at the position given when it was added",
 "For any history of adding graphs and binary objects, closing and reopening, every position returned by an add always reads back exactly the object added there, both as a graph and in its stored binary form; the next position reported by a read is the position of the following object, so chaining from 0 visits all objects once in insertion order; reading past the end yields no object. Reads never change what the log holds.",
 ["histories"], "every interleaving of adds (graph/binary), reads at any known position, sequential scans, close/reopen, file-backed and in-memory logs",
 "The single log test adds a few objects and reads them forward once.",
 ["log.go", "binary.go"],
 [("append and position", "log.go:Add/AddBinary"), ("read and next position", "log.go:Get/GetBinary")],
 observe_at=["OpenLog", "Log.Add", "Log.AddBinary", "Log.Get", "Log.GetBinary", "Log.Bytes", "FromBinaryBufioReader"])
prop("C08", "A torn log tail never damages the objects before it",
 "If the log file is cut at any byte position, as after a crash during an add, then after reopening it every object wholly before the cut still reads back intact with the right next position, and reading at the torn position terminates without crashing or inventing content.",
 ["crash_points", "histories"], "every truncation point of every log history",
 "No test truncates a log.",
 ["log.go", "binary.go"],
 [("object framing", "binary.go:line/parse"), ("position arithmetic", "log.go:Get/GetBinary")],
 observe_at=["Log.Get", "Log.GetBinary"])
prop("C09", "A path selects exactly the addressed node, or nothing",
 "Looking up a path descends at each name to the first child with that name, at [n] to the n-th child, at {n} to the children of the n-th sibling having the preceding name and at {} to those of all of them; when any step does not exist the result is nothing (nil, an empty result, or the error of the typed getters), never another node and never a crash. The typed getters return the value of that same node converted to the requested type.",
 ["inputs"], "every graph (with repeated names) and every path of names, quoted names, indices and selectors over it, hitting and missing",
 "Tests check a few paths on fixed graphs.",
 ["eval.go", "flow.go", "graph.go", "gettypes.go"],
 [("path parsing", "flow.go:Path/Index/Selector"), ("path resolution", "eval.go:getPath/evalPath"), ("typed getters", "gettypes.go:GetString...")],
 observe_at=["Graph.Get", "Graph.GetString", "Graph.GetInt64", "Graph.Eval"])
prop("C10", "Setting a path changes that place only, and reading it returns the value",
 "After setting a path to a value, reading the same path returns that value, whether the path existed, existed partly or not at all; missing steps are created once, the first existing match is reused, and every node not on the path (including siblings and duplicates of its names, and their order) is unchanged.",
 ["histories", "inputs"], "every graph, every path of names with an optional final index, every sequence of sets",
 "Tests do single sets on small graphs and look at the text of the result.",
 ["graph.go", "flow.go", "eval.go"],
 [("set", "graph.go:set"), ("path parsing", "flow.go:Path")],
 observe_at=["Graph.Set", "Graph.Get"])
prop("C11", "Graph editing operations behave as on an ordered tree",
 "Any sequence of adding, inserting sub-graphs, creating or reusing named children, setting a child, deleting by content or position, clearing, substituting, searching by pattern and listing children has the effect it has on an ordered labelled tree: only the addressed children change, all matches and only matches are affected, and order is preserved.",
 ["histories"], "every sequence of edit operations on every graph",
 "Tests call each operation once or twice on tiny graphs.",
 ["graph.go", "gettypes.go"],
 [("edit operations", "graph.go:Add/AddNodes/Delete/DeleteAt/Create/NodeOrNew/NodeSet/Clear/Substitute/Copy"), ("Find", "gettypes.go:Find")],
 observe_at=["Graph.Out"])
prop("C12", "Copies are equal and independent; equality is exact",
 "A clone or copy of a graph equals it, shares no node with it, and neither is affected by later edits of the other. Two graphs compare equal exactly when they have the same shape, order and content (content of any type, byte slices included), and a comparison never crashes.",
 ["inputs", "histories"], "every graph with content of any supported type (nil content included), every later edit of either side, every one-step difference",
 "Tests compare two or three string graphs.",
 ["graph.go"],
 [("Clone/Copy", "graph.go:Clone/Copy"), ("Equals", "graph.go:Equals")],
 observe_at=["Graph.Clone", "Graph.Copy", "Graph.Equals"])
prop("C13", "Typed access returns the stored value or the caller's default",
 "Reading a node as integer, float, boolean, string, bytes, number or scalar returns the value stored there if its text or native value represents that type, and otherwise exactly the default given (or the documented zero value), for every native content type and every string. It never crashes and never changes the node.",
 ["inputs"], "every content value of every native type, and arbitrary strings",
 "Tests sample a few conversions.",
 ["gettypes.go"],
 [("conversions", "gettypes.go:_int64f/_float64f/_boolf/number/_string")],
 observe_at=["Graph.Int64", "Graph.Float64", "Graph.Bool", "Graph.String", "Graph.Scalar", "Graph.Number"])
prop("C14", "Expressions evaluate with the documented operators and precedence",
 "Evaluating an expression built of numbers, strings, paths, arithmetic, comparison and logical operators, negation (!) and parentheses gives the value that precedence, left associativity and the operator rules prescribe (integer arithmetic on integers, floating point when a float takes part, + also joining strings), whatever its shape, depth and spacing. Division or remainder by an integer zero yields no value instead of a crash.",
 ["programs", "inputs"], "every well-formed expression over every context of numeric, string and boolean variables",
 "Tests evaluate some twenty fixed expressions of at most three operators.",
 ["flow.go", "expression.go", "eval.go"],
 [("expression parsing", "flow.go:Expression/UnaryExpression"), ("tree reordering", "expression.go:_ast/precedence"), ("evaluation", "eval.go:evalExpression/calc/compare/logic")],
 observe_at=["NewExpression", "Graph.Eval"])
prop("C15", "Assignments in expressions update exactly the assigned path",
 "Evaluating an assignment (=, +=, -=, *=, /=, %=) in an expression or template stores the value of the right side, or of the old value combined with it by that operator, at the path on the left and changes nothing else; sequences of assignments behave as on a store of variables.",
 ["programs", "histories"], "every sequence of assignments over existing and missing paths",
 "Tests do two or three single assignments.",
 ["eval.go", "graph.go", "template.go"],
 [("assignment", "eval.go:assign"), ("storage", "graph.go:set")],
 observe_at=["Graph.Eval", "Graph.Process"])
prop("C16", "A template renders its text, values and control flow exactly",
 "Processing a template yields its fixed text verbatim, each variable ($path, ${path}) replaced by the text of its value (nothing if it does not exist), $(expression) evaluated in its place for its effect without output, the branch selected by $if/$elseif/$else, the body of $for once per element in order with the loop variable bound to it, and the end of the innermost loop at $break, for any nesting and any text size.",
 ["programs", "inputs"], "every template of text, $path, ${path}, $(expression), if/elseif/else, for and break at any nesting, over every context",
 "Tests render about twenty fixed templates with at most two nested directives.",
 ["template.go", "flow.go", "eval.go", "lexer.go"],
 [("template parsing", "template.go:Template/Variable/Text"), ("flow nesting", "template.go:flow"), ("rendering", "template.go:process")],
 observe_at=["NewTemplate", "Graph.Process"])
prop("C17", "No input text can crash or hang a parser or evaluator",
 "Feeding any bytes to the text parser, the path, expression and template parsers, the schema checker or the JSON and XML importers, and then emitting, reading, evaluating or processing the result against any graph (the empty and the missing one included), always returns without crashing, hanging or using time or memory out of proportion to the input.",
 ["inputs", "programs"], "every byte string as input to every textual entry point and every consumer of its result",
 "Tests use only well-formed inputs, with a couple of exceptions.",
 ["lexer.go", "block.go", "flow.go", "expression.go", "eval.go", "template.go", "schema.go", "encoding.go", "io/gxml/xml.go"],
 [("parsers", "lexer.go, block.go, flow.go, template.go"), ("evaluators", "eval.go, function.go, template.go:process")],
 observe_at=["FromString", "NewPath", "NewExpression", "NewTemplate", "Graph.Eval", "Graph.Process", "FromJSON", "gxml.FromXML"])
prop("C18", "Reading, printing and evaluating never modify what they are given",
 "Looking up, typed access, emitting as text, HTML, JSON or binary, comparing, searching, checking and evaluating an expression without assignment leave the graph and the parsed path, expression, template or schema exactly as they were, so that the same call gives the same result again and many of them can run concurrently on the same graph and compiled template with the results of a sequential run.",
 ["inputs", "schedules"], "every graph and read-only operation, every sequence and every concurrent interleaving of them",
 "Tests never repeat a call on the same object and never run concurrently.",
 ["graph.go", "encoding.go", "eval.go", "template.go", "binary.go", "gettypes.go", "html.go"],
 [("emitters", "graph.go:Text, encoding.go:JSON, html.go:Html"), ("evaluation", "eval.go"), ("template rendering", "template.go:process")],
 observe_at=["Graph.Text", "Graph.JSON", "Graph.Html", "Graph.Binary", "Graph.Eval", "Graph.Process"])
prop("C19", "Typed parsing changes scalar types only",
 "Parsing text with type recognition gives the same tree as plain parsing, except that an unquoted word that reads as an integer, a float or true/false is stored as that native value; quoted strings and literal blocks always stay strings.",
 ["inputs"], "every well-formed text with numeric, boolean and look-alike words in quoted and unquoted form",
 "One test parses four words.",
 ["block.go", "lexer.go", "parser.go"],
 [("typed scalars", "lexer.go:ScalarType"), ("typed tree", "block.go:OgdlTypes/line")],
 observe_at=["FromStringTypes", "FromString"])
prop("C20", "Sorting is an ordered permutation of the children",
 "Sorting the children of a node by a field as string or as integer keeps every child exactly once with its whole content, and leaves them in non-decreasing order of that field's value (a missing or non-numeric field counting as empty or zero).",
 ["inputs"], "every list of children and every field path",
 "No test sorts more than a few nodes.",
 ["sort.go"],
 [("sorters", "sort.go:stringSorter/intSorter")],
 observe_at=["Graph.Sort", "Graph.SortAsString", "Graph.SortAsInt"])
prop("C21", "A schema accepts exactly the graphs that conform to it",
 "Checking a graph against a schema succeeds exactly when for every schema node the graph has, at the same position, a node of the required literal content or of the required type (integer, float, boolean, string, binary), at every depth; any single violation makes it fail with a non-empty explanation.",
 ["inputs"], "every schema of literals and types, every conforming graph and every one-step mutation of it",
 "One or two fixed schemas are tested.",
 ["schema.go"],
 [("structural check", "schema.go:Check/checkNode")],
 observe_at=["Graph.Check"])
prop("C22", "JSON import keeps every key and value, deterministically",
 "Importing a JSON document gives a graph holding every object key with its value beneath it and every array element in order, integers as 64-bit integers and other numbers as floats, strings and booleans unchanged. Importing the same document again gives the same graph, and malformed or cut short JSON gives an error and no graph.",
 ["inputs"], "every JSON document: nested objects and arrays, numbers of any form, any Unicode strings",
 "One fixed document is tested; map iteration order makes single runs inconclusive.",
 ["encoding.go"],
 [("conversion", "encoding.go:FromJSON/toGraph")],
 observe_at=["FromJSON"])
prop("C23", "JSON export is valid JSON carrying every value",
 "Exporting any graph as JSON yields a valid JSON document in which every node of the graph appears, in order, as a key or as a value with its text or numeric content intact.",
 ["inputs"], "every graph with string, numeric or boolean content, of any shape, including content with quotes, backslashes and control characters",
 "Two small fixed graphs are tested.",
 ["encoding.go"],
 [("emitter", "encoding.go:json/writeString/writeValue")],
 observe_at=["Graph.JSON"])
prop("C24", "A remote call returns exactly the handler's answer to that request",
 "For any request and answer graphs of any size, however the network fragments the bytes, in both protocol versions, over one connection reused for many calls and with many clients at once, each call delivers to the handler registered for its first node exactly the graph sent and returns to its caller exactly the graph that handler answered; a request without a handler gets the not-found answer.",
 ["histories", "schedules", "inputs"], "every sequence of requests over any number of concurrent clients, every message size and every fragmentation of the byte stream",
 "There is no test of the remote functions at all.",
 ["ogdlrf/client.go", "ogdlrf/server.go", "binary.go"],
 [("framing", "ogdlrf/server.go:process, ogdlrf/client.go:callV2"), ("routing", "ogdlrf/server.go:router"), ("protocol 1", "ogdlrf/server.go:process1, ogdlrf/client.go:callV1")],
 observe_at=["Client.Call", "Server.Serve", "Serve", "Serve1"])
prop("C25", "Malformed network traffic affects nobody but its sender",
 "Whatever bytes a peer sends to a server (random data, wrong lengths, cut messages, sudden disconnects), the server keeps running and every other client, connected before or after, still gets correct answers. Whatever bytes a server sends back, a client call returns an error or a graph within its timeout instead of crashing.",
 ["fault_sequences", "inputs"], "every sequence of malformed messages and disconnects mixed with well-formed traffic, against both protocol versions",
 "There is no test of the remote functions at all.",
 ["ogdlrf/server.go", "ogdlrf/client.go", "binary.go"],
 [("message validation", "ogdlrf/server.go:process/process1"), ("decoder", "binary.go:line"), ("client error paths", "ogdlrf/client.go:Call")],
 observe_at=["Serve", "Serve1", "Client.Call"])
prop("C26", "XML import mirrors the element tree",
 "Importing a well-formed XML document gives a graph in which every element is a node under its parent's node in document order, named by its local name with accents removed and hyphens turned into underscores, holding first one child per attribute named @attribute with the attribute's value, and every non-blank piece of text with surrounding white space removed.",
 ["inputs"], "every well-formed XML document: nesting, attributes, namespaces, entities, CDATA, comments",
 "There is no test of the XML importer.",
 ["io/gxml/xml.go"],
 [("token to tree", "io/gxml/xml.go:FromXML")],
 observe_at=["gxml.FromXML"])
prop("C27", "The lexer can peek and step back without losing its place",
 "At any position of any input, reading bytes or characters and then stepping back as many (within the guaranteed look-back of half the buffer), or peeking, leaves the reader so that it delivers the same sequence again; the sequence delivered is the whole input, each byte or character once, and then the end of stream.",
 ["histories", "inputs"], "every interleaving of read, step-back and peek operations over every input of any size and alignment",
 "Tests do a few reads and unreads on inputs smaller than the buffer.",
 ["lexer.go"],
 [("buffer window", "lexer.go:fill/Byte/UnreadByte/Rune/UnreadRune"), ("peeking", "lexer.go:PeekByte/PeekRune")],
 observe_at=["NewLexer", "Lexer.Byte", "Lexer.UnreadByte", "Lexer.Rune", "Lexer.UnreadRune", "Lexer.PeekByte", "Lexer.PeekRune"])
prop("C28", "The command-line tools print what the library computes",
 "Each command-line tool (path query, template processor, JSON and XML converters) applied to input files prints exactly the result of the corresponding library operations on the files' content, and terminates without crashing on any input, missing paths included.",
 ["inputs"], "every input file and path, template, JSON or XML text given to the tools",
 "The tools have no tests.",
 ["cmd/gpath/main.go", "cmd/gtemplate/main.go", "cmd/json2ogdl/main.go", "cmd/xml2ogdl/main.go"],
 [("tool mains", "cmd/*/main.go")],
 observe_at=["standard output of the tools"])
prop("C29", "Functions called from paths receive the evaluated arguments, or an error",
 "Calling a Go function or a method of a Go object stored in the graph from a path, expression or template passes each argument's value in order (for methods converted to the parameter's type among integers, floats, strings, booleans and lists of strings) and yields exactly the function's result; a wrong number of arguments of a function, an argument whose type does not fit, or a name that does not exist yields an error or no value, never a crash.",
 ["programs", "inputs"], "every supported function or method signature and every list of argument expressions, matching or not",
 "Tests call four fixed functions with matching arguments.",
 ["function.go", "eval.go"],
 [("call", "function.go:function"), ("argument conversion", "function.go:convert")],
 observe_at=["Graph.Eval", "Graph.Process"])
prop("C30", "Chained access on a missing node is always safe",
 "Every read, edit, comparison, search, sort and output operation can be applied to the missing (nil) node that a failed lookup returns, gives the empty, default or not-found result and never crashes, so that chains of operations need no intermediate checks.",
 ["programs", "histories"], "every chain of public operations starting at a lookup that fails, with every argument",
 "Tests check two or three methods on nil.",
 ["graph.go", "gettypes.go", "eval.go", "sort.go", "schema.go", "encoding.go", "html.go", "binary.go"],
 [("nil receivers", "graph.go, gettypes.go, sort.go, schema.go")],
 observe_at=["every exported Graph method"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
