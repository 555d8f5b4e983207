#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json, os
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("P01","A write that reports success delivered the whole document, counted exactly",
 "For any document, indentation and header choice, when a write of an MPD, Period or other value to an io.Writer returns no error the destination has received exactly the bytes WriteToString returns for the same document, and when the destination fails, short-writes (for an encoder given a raw destination: with the error io.Writer demands) or panics at any byte the write reports that failure, what was delivered is a prefix of those bytes, and nothing is sent to the destination after its first failure. The byte count returned, with or without an error, is exactly the number of bytes the destination accepted. The same goes for text written by EscapeText (which, like an encoder, needs a destination that reports short writes), whose output reads back as the text.",
 ["inputs","fault_sequences","crash_points"],
 "every document, indent and header combination; every sequence of per-call outcomes of the destination (accept, accept part with or without error, transient or permanent error, panic) at every byte offset",
 "The tests write to buffers that never fail; no test injects a failing or short writer, and the failure offset relative to the 4096-byte encoder buffer is unbounded.",
 ["mpd/io.go","xml/marshal.go"],[("countingWriter counts accepted bytes","mpd/io.go WriteXML"),("sticky bufio.Writer error, cachedWriteError","xml/marshal.go"),("Encode/Flush return the writer's error","xml/marshal.go")],
 observe=["MPD.Write","Period.Write","WriteXML","MPD.WriteToString","Period.WriteToString","xml.Encoder"])
p("P02","Encoded output depends only on the document, never on earlier use",
 "Encoding a document (whole MPD, Period or any other value, by any of the writing functions) yields the same bytes and error whatever was encoded before, including earlier encodings that failed, panicked, were abandoned half way, used other indentation or namespaces, or whose pooled resources were dropped, reused in any order or never reused. Once a write call has returned or panicked its destination is never written to again.",
 ["histories","fault_sequences","crash_points"],
 "every history of encodings (successful, failing, panicking, with any indent or header) mixed with memory-pressure events that empty pools, process restarts, and every order in which pooled encoders are handed out",
 "sync.Pool reuse is timing and GC dependent; the tests encode one or two documents in a row and never after a failed or panicked encoding.",
 ["mpd/io.go","xml/marshal.go","xml/typeinfo.go"],[("AcquireEncoder/ReleaseEncoder reset","xml/marshal.go"),("type caches","xml/typeinfo.go")],
 state=[("encoderPool","pooled encoders with residual printer state","xml/marshal.go"),("tinfoMap, typeImplMap","type caches built on first use","xml/typeinfo.go")],
 observe=["bytes and error of every write","bytes arriving at earlier destinations"],hook="build-time overlay (no change in /repo): sync.Pool is replaced by a simulator-owned pool")
p("P03","Concurrent writers are isolated from one another",
 "Any number of goroutines may write or encode different documents at the same time, some of them to destinations that stall or fail, and under every interleaving each destination receives exactly the bytes, count and error it would have received had that write run alone. No interleaving causes a data race, deadlock or panic.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of any number of concurrent writes, including first-ever use of the types involved, with stalling, failing and panicking destinations",
 "No existing test encodes concurrently; go test -race sees only the schedules the OS happens to choose.",
 ["mpd/io.go","xml/marshal.go","xml/typeinfo.go"],[("per-call encoder from a sync.Pool","xml/marshal.go"),("sync.Map type caches","xml/typeinfo.go")],
 state=[("encoderPool","shared","xml/marshal.go"),("tinfoMap/typeImplMap","shared","xml/typeinfo.go")],
 hook="build-time overlay: yield points, simulator-owned sync primitives")
p("P04","Concurrent parsing equals sequential parsing, even on first use",
 "Any number of goroutines may parse documents at the same time through any of the reading functions or their own decoders, including as the very first use of the library in the process, and each gets exactly the result or error it would get alone. No interleaving causes a data race, deadlock or panic, or lets content of one document appear in another.",
 ["schedules","histories","inputs"],
 "every interleaving of any number of concurrent parses (valid, malformed and truncated inputs, readers that stall or fail) from a cold or warm process",
 "The only concurrency test in the tree races a handful of Unmarshal calls on one tiny type; schedules are not controlled.",
 ["mpd/io.go","xml/read.go","xml/xml.go","xml/typeinfo.go"],[("per-call Decoder","xml/xml.go"),("sync.Map type caches with LoadOrStore","xml/typeinfo.go")],
 state=[("tinfoMap/typeImplMap","shared lazily built caches","xml/typeinfo.go")],
 hook="build-time overlay: yield points, simulator-owned sync primitives")
p("P05","Reading, cloning or writing a shared MPD never changes it",
 "Writing an MPD or Period, cloning any part of it, and calling any of its read accessors (parents, types, starts, durations, segment templates, init, media, codecs, mime type, content protections, indexes, splice info) leaves every part of it unchanged. Consequently any number of goroutines may do these things to one MPD at once, with every interleaving race-free and every result equal to the sequential result.",
 ["schedules","histories","inputs"],
 "every history and interleaving of read-only operations on one shared document, including writes whose destination fails or panics half way",
 "Tests call each accessor on a private document and look at the return value only.",
 ["mpd/io.go","mpd/mpd.go","mpd/period.go","mpd/parents.go","xml/marshal.go"],[("value receivers / no caching in accessors","mpd/mpd.go, mpd/period.go"),("marshal only reads through reflect with dontInitNilPointers","xml/marshal.go")],
 hook="build-time overlay: yield points")
p("P06","Decoding does not depend on how the bytes are delivered",
 "For every input, valid or not, the decoded values, tokens, input offsets, line and column positions and the outcome (success or the same error) are the same whether the bytes arrive in one piece, one at a time, in any other split, with empty reads in between, with the end of input reported together with or after the last bytes, through a byte-slice, string, file, io.Reader or io.ByteReader, or (up to the first error) as tokens from a token source. For documents without namespaces, colons in names and repeated attributes the result, strict or relaxed, with any entity map, list of elements to close and charset reader, is that of the standard encoding/xml package.",
 ["schedules","inputs","fault_sequences"],
 "every document and every split of its bytes into reads, including zero-length reads and data delivered together with io.EOF; every position at which the decoder is switched between tokens, raw tokens, skipping and struct decoding",
 "Tests read from strings.Reader, with one hand-written split reader on one document.",
 ["xml/xml.go","xml/read.go","mpd/io.go"],[("getc/ungetc and the saved-text buffer","xml/xml.go"),("switchToReader wraps non-ByteReaders in bufio","xml/xml.go"),("TokenReader path","xml/xml.go")],
 observe=["Decoder.Token/RawToken/Decode/Skip","InputOffset/InputPos","MPDFromBytes/ReadFromString/ReadFromFile"])
p("P07","A cut-off or failed read is never taken for a document",
 "When input ends before the document element is closed, at any byte, or the underlying reader or file fails at any point before that, every reading function returns an error (the reader's own error when the reader failed) and no MPD. When the whole document element was delivered the document is returned complete (a reader that fails only afterwards may give its error instead), and the file, string, byte-slice and stream readers agree on the result for the same bytes.",
 ["crash_points","inputs","fault_sequences"],
 "every document, every truncation point (a torn or partly persisted file, a dropped connection), every read error kind and offset, short and interrupted reads",
 "Tests cover two or three hand-picked truncations of tiny documents and no I/O error while reading.",
 ["mpd/io.go","xml/read.go","xml/xml.go"],[("io.EOF turned into a syntax error unless at top level","xml/xml.go Token"),("os.ReadFile error return","mpd/io.go")],
 hook="build-time overlay: os.ReadFile/os.Open go through a fault-injecting file layer")
p("P08","Corrupt input is contained",
 "Whatever bytes are parsed — bit flips, cut, duplicated, moved or spliced spans, absurd nesting, bogus entities, numbers, names or encodings — parsing ends in bounded work with either a value or an error: it never panics, exhausts the stack or loops. Nothing that was parsed, successfully or not, changes the result of any later parse or write.",
 ["inputs","histories","fault_sequences"],
 "every corruption of every document, any nesting depth, and any history of corrupt and good documents through the same process",
 "Tests replay a fixed list of malformed snippets and one nesting-depth case; storage or transport corruption of real manifests and its effect on later operations is not sampled.",
 ["xml/read.go","xml/xml.go","mpd/io.go","mpd/duration.go"],[("depth limit for unmarshalling","xml/read.go"),("recover-free error returns, d.err sticky","xml/xml.go"),("strict attribute value parsing","mpd/duration.go")],
 hook="build-time overlay: loop-step budget makes non-termination deterministic")
p("P09","What is published is what a client reads",
 "For every MPD built through the API, each attribute, element and text value that was set appears in the written XML under its specified name, namespace and position and nothing else does, and parsing any serialization of that content (any prefixes, quoting, whitespace between elements, comments, character references or CDATA) gives an MPD whose fields hold exactly those values. White space around the child elements of an Event counts as none, and elements that hold any attributes keep unknown ones. This holds through any chain of publishers and relays, lossy or duplicating transports and node restarts, except for documented omissions of default values.",
 ["inputs","histories","fault_sequences"],
 "every MPD over the whole supported vocabulary (MPEG-DASH, CENC, PlayReady, DASH-IF, Marlin, SCTE-214, URL parameters, xlink), every equivalent XML spelling, every sequence of publish, relay, restart, message loss, duplication and reordering",
 "Tests round-trip a fixed set of sample manifests, compare field values for a few of them and never vary the XML spelling or the combination of fields.",
 ["mpd/mpd.go","mpd/up.go","mpd/scte214.go","mpd/io.go","xml/marshal.go","xml/read.go","xml/typeinfo.go","xml/xml.go"],[("struct tags are the schema","mpd/mpd.go"),("namespace prefix handling","xml/marshal.go createPrefix, xml/xml.go translate"),("escaping","xml/xml.go EscapeString/escapeText")])
p("P10","Relaying a manifest reaches a fixed point after one hop",
 "Parsing any accepted manifest and writing it gives a manifest that every later parse-and-write hop reproduces byte for byte with the same indentation, whatever mix of reading and writing functions, indentations, clones and process restarts lies between. No hop adds, drops, reorders or rewrites anything, and changing the indentation changes only white space between elements. A manifest with a number or flag its field cannot hold is refused, never altered.",
 ["histories","inputs"],
 "every accepted manifest, foreign or self-made, and every sequence of relays (reader kind, writer kind, indent, header, clone, restart in between)",
 "Tests do one parse-write hop on sample files and compare with a golden file.",
 ["mpd/io.go","mpd/mpd.go","mpd/duration.go","xml/marshal.go","xml/read.go"],[("write . parse idempotent per type","mpd/*.go"),("prefix creation is deterministic","xml/marshal.go")])
p("P11","SCTE-35 messages pass through relays untouched",
 "SCTE-35 content of an event, wrapped in Signal or carried directly, keeps across any number of relays the namespace URI it arrived with (canonical, 2016 or a mix), all of its elements and values, unknown attributes with their namespaces, and extension content verbatim, whatever prefixes or default-namespace declarations the source used; surrounding DASH elements stay in the DASH namespace. Messages built with the constructors are written in the canonical namespace, and the uniform accessor returns the same splice information for both carriage forms (the wrapped one if an event has both).",
 ["inputs","histories","fault_sequences"],
 "every SCTE-35 message over the supported vocabulary, every namespace declaration style, every combination with other events, every relay history including restarts and concurrent traffic of the other namespace",
 "A dozen fixtures are round-tripped once; combinations of namespace styles, unknown attributes and extensions, and interleaving with messages in the other namespace are not.",
 ["mpd/scte35.go","mpd/mpd.go","xml/marshal.go","xml/read.go"],[("untagged XMLName captures and replays the namespace","mpd/scte35.go"),("any-attribute and innerxml fields","mpd/scte35.go"),("xmlns inheritance in writeStart","xml/marshal.go")])
p("P12","A clone is complete and shares nothing with its original",
 "Cloning an MPD, Period or AdaptationSet yields a copy equal to the original in every exported value, with all parent links inside it pointing into the copy. Afterwards, under every sequence of edits, appends, parent re-linking, further clones and writes on either side, neither ever observes a change made to the other.",
 ["histories","inputs","schedules"],
 "every document and every interleaved edit history over a growing family of clones of whole documents and parts",
 "Tests clone one document and change one field.",
 ["mpd/mpd.go","mpd/period.go","mpd/parents.go"],[("deepcopy.MustAnything + SetParents","mpd/mpd.go Clone, mpd/period.go Clone")])
p("P13","Parent links and inherited properties track every edit history",
 "After parsing, cloning, appending through the API, or relinking following direct edits, every Period, AdaptationSet, Representation and SubRepresentation reports as parent exactly the element that contains it, and period indexes match document order. Codecs, mime type, content protections and the segment template as a whole resolve to the element's own if present and otherwise its parent's, and initialization and media names are those of the resolved template with identifiers replaced, always as of the current content; asking an unlinked element for what needs a parent reports that condition as an error where the API has one.",
 ["histories","inputs"],
 "every sequence of parses, appends, insertions, removals, moves between parents, re-linking, clones and value edits",
 "Tests build one tree top-down and query it once.",
 ["mpd/parents.go","mpd/mpd.go","mpd/period.go","mpd/io.go"],[("SetParents and Append* maintain unexported parent pointers","mpd/parents.go")],
 state=[("parent","back link of Period/AdaptationSet/Representation/SubRepresentation","mpd/mpd.go")])
p("P14","Period timeline answers stay right through every live update",
 "At every instant of a live or on-demand presentation's life — periods announced early, given starts, given durations, appended, removed, reordered, the manifest turned static, the clock stepping — each period's start, duration, type and absolute start equal what ISO/IEC 23009-1 5.3.2.1 derives from the current manifest, or an error where the manifest does not determine it. An error is never returned for a value the period states itself or that follows directly from its neighbour's stated times, or for the last period of a static presentation from the presentation's stated duration.",
 ["histories","inputs","configurations"],
 "every history of timeline updates on manifests with any number of periods, any subset of start/duration attributes, static or dynamic, any availabilityStartTime",
 "Tests check a table of about ten hand-written manifests at one instant each.",
 ["mpd/period.go","mpd/mpd.go","mpd/io.go"],[("GetStart recursion over preceding periods","mpd/period.go"),("GetDuration/GetType case analysis","mpd/period.go"),("AbsoluteStart","mpd/period.go")])
p("P15","Times survive publishing, relaying and clock steps without drift",
 "Every non-negative duration written to a manifest is valid xs:duration text denoting the value to the documented precision (milliseconds from one millisecond up, full precision below), parses back to exactly the denoted value, and never changes again over later hops; every text of the documented form P[nD][T[nH][nM][nS]] in range is accepted, and whatever is accepted denotes a duration and is read as the value it denotes, cropped at most below the nanosecond, never wrapped, while text that denotes none is refused. Wall-clock stamps produced at any clock reading in the years 1 to 9999, with the clock jumping either way, denote the instant cropped to milliseconds in UTC, convert back to that instant, and order as the instants do.",
 ["inputs","histories","fault_sequences"],
 "every duration value and accepted text, any number of hops; every clock reading in the representable range and every jump or skew sequence",
 "Tests list about thirty durations and five instants; rounding and carry edges and repeated hops are not covered.",
 ["mpd/duration.go","mpd/io.go","mpd/ptrs.go","mpd/mpd.go"],[("Duration.String / ParseDuration","mpd/duration.go"),("ConvertToDateTime*/ConvertToSeconds","mpd/io.go")])
p("P16","The token encoder keeps documents well formed under any call sequence",
 "Whatever sequence of start, end, text, comment, directive, processing-instruction and whole-value encodings, flushes, indent changes and closes a caller issues, mismatched or unfinished nesting and illegal tokens are rejected with an error at the offending call, and the bytes of the accepted calls (of valid names and characters, without repeated attributes, prefixes only on names with a namespace) form well-formed, namespace-well-formed XML that decodes to exactly the accepted tokens, declarations and indentation aside. A closed encoder accepts nothing more, closing with open elements or a failed destination reports an error, and after a destination failure every later call that writes reports it.",
 ["histories","programs","fault_sequences"],
 "every sequence of encoder calls with any names, namespaces, prefixes and attributes, and every destination failure point in between",
 "Tests list fixed token sequences to an in-memory buffer.",
 ["xml/marshal.go","xml/xml.go"],[("element stack with namespace and prefix maps","xml/marshal.go writeStart/writeEnd"),("getPrefix/createPrefix","xml/marshal.go"),("printer.closed and sticky error","xml/marshal.go")])
p("P17","Misbehaving user marshalers and unmarshalers are contained",
 "User-supplied marshalers, unmarshalers and text converters that fail, panic, write unbalanced tokens, read too little or try to read too much affect only the element they were called for: the enclosing operation returns their error (or lets their panic through) or an error of its own, they can never close, consume or see content outside their own element, and siblings are decoded and encoded exactly as if the callback had behaved. Operations on other documents, values and pooled encoders are unaffected, and so are later ones on the same decoder or encoder unless an error or panic came out of the outermost call.",
 ["programs","histories","fault_sequences"],
 "every behaviour of callbacks at every position in a document: any number of tokens read or written, any early return, error or panic, raw-token use, skipping, nested decoding and encoding",
 "Tests have a few fixed well-behaved and broken callbacks in isolation.",
 ["xml/marshal.go","xml/read.go","xml/xml.go"],[("marker on the element stack around MarshalXML","xml/marshal.go marshalInterface"),("pushEOF/popEOF around UnmarshalXML","xml/read.go"),("unmarshalDepth forbids RawToken","xml/read.go")])
p("P18","Documents sent one after another on a stream arrive once each, in order",
 "When several documents follow one another on one stream, decoding them one at a time yields each exactly once, in order and equal to decoding it alone, with no namespace, default, text or error carried over, regardless of separators, of skipped or token-read documents in between, and of how the stream is chunked; at the end exactly io.EOF is reported, and a fault in or after document k never alters documents before k. Encoding several documents one after another through one encoder is the mirror image.",
 ["histories","schedules","fault_sequences"],
 "every sequence of documents and of per-document consumption modes, every chunking, every failure or truncation point",
 "Tests decode one document per decoder, with one two-document example.",
 ["xml/read.go","xml/xml.go","xml/marshal.go"],[("decoder stack and namespace map unwound at each end element","xml/xml.go popElement"),("Decode consumes exactly one element","xml/read.go")])
p("P19","Returned values stay valid whatever happens afterwards",
 "Strings, MPDs, decoded values, copied tokens and returned byte slices never change after they were returned, even if the caller then overwrites the input buffer it parsed from, keeps using or recycles the same decoder or encoder, or other documents are processed; token byte slices obtained without copying stay valid until the next token is requested. What a constructor returned is the caller's alone: editing it changes no other result, earlier or later. Input buffers and documents passed in are never modified, and destinations are never handed memory that later changes what they already received.",
 ["histories","schedules"],
 "every history of operations following a return, including reuse of the caller's buffers and of every pooled resource in any order",
 "Tests look at a result immediately after the call that produced it.",
 ["mpd/io.go","xml/xml.go","xml/read.go","xml/marshal.go"],[("strings copied out of d.buf, name interning by copy","xml/xml.go"),("CharData copied when stored","xml/read.go"),("pooled bufio buffers","xml/marshal.go")],
 hook="build-time overlay: simulator-owned sync.Pool")
p("P20","Work and memory stay proportional, and a long-lived process accumulates nothing",
 "Reading, writing or cloning a document that consists of one part repeated n times (at fixed nesting and with a fixed number of namespaces in scope), and building one part by part, executes a number of library statements and allocates an amount of memory that grow at most in proportion to n. In a process that goes on reading and writing distinct documents in every way (also one after another with one decoder or one encoder), among them cut, damaged, failing, panicking and abandoned ones, neither the memory retained once their results are dropped nor the work and the memory that a given operation takes grows with the number of documents handled before.",
 ["inputs","histories","fault_sequences"],
 "every part, way of reading or writing and number of repetitions; every history of earlier documents, failures and abandoned operations",
 "Tests and benchmarks handle a few manifests of fixed size, once each, and look at the result only.",
 ["xml/xml.go","xml/read.go","xml/marshal.go","xml/typeinfo.go","mpd/io.go","mpd/parents.go"],
 [("name interning per decoder, not per process","xml/xml.go internBytes"),("caches keyed by type only","xml/typeinfo.go tinfoMap, typeImplMap"),("pooled encoders reset on release","xml/marshal.go ReleaseEncoder"),("freed stack entries reused","xml/xml.go push/pop"),("Append* link one child","mpd/parents.go")],
 hook="build-time overlay: statement counter, simulator-owned sync.Pool and sync.Map")
p("P22","Any Go type maps to XML as with encoding/xml, from its first use on",
 "For every Go type and value without namespaces (no colon in a name, no infinite number), encoding gives the bytes encoding/xml gives and an error where it gives one, and decoding any document without repeated attributes into any type, with or without namespaces in its tags, empty or already filled, gives the value encoding/xml gives or an error where it gives one; only that tabs and line feeds of character data are written as they are, that attributes read again into a list of attributes replace the earlier ones, that embedded pointers nothing was read for stay nil, that an attribute with a field for its namespace goes to that field and not also to one without a namespace, that prefix declarations have the URI of xmlns as their namespace and are given to no named field, and that what makes encoding/xml panic is not covered. This holds for the first use of a type in the process, when many goroutines use it or its parts for the first time at once under every interleaving, and after uses of it that failed.",
 ["inputs","schedules","histories"],
 "every type (field kinds, nesting, embedding, recursion, tags valid or not), value, document and pre-filled target; every order and interleaving of first uses",
 "Tests use a few dozen hand-written types, one after another in a process that has used them before.",
 ["xml/typeinfo.go","xml/marshal.go","xml/read.go"],
 [("field collection and conflict resolution","xml/typeinfo.go getTypeInfo, addFieldInfo"),("attribute lookup by map","xml/typeinfo.go attrs, xml/read.go unmarshal"),("type caches filled on first use","xml/typeinfo.go tinfoMap, typeImplMap"),("start tag and field encoding","xml/marshal.go marshalValue, marshalStruct")],
 hook="build-time overlay: yield points, simulator-owned sync.Map and sync.Pool")
p("P21","Small API helpers compute what they say",
 "Profile-list extension never duplicates a profile and keeps order, segment-base helpers give adjacent byte ranges, and constructors set exactly the fields their parameters name.",
 ["inputs"],"every argument value","Tests sample a few arguments.",["mpd/mpd.go","mpd/ptrs.go"],[("AddProfile, SetSegmentBase, New*","mpd/mpd.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
