#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CORE="crates/analyzer-core/src/"; HOST="crates/analyzer-host/src/"; ABS="crates/analyzer-abstractions/src/"; P4="crates/p4-analyzer/src/"

prop("C01","Incremental edits keep the server's text equal to the client's",
 "After any sequence of document-change events, each either replacing a start/end position range (positions past the end of a line or of the document mean that end) or replacing the whole text, the server's copy of the document is exactly the text obtained by performing those replacements on the text the document started with. This holds whatever the text contains, including multi-byte characters, empty lines, an empty document and a last line without a terminator, and no in-range edit makes the server panic.",
 ["inputs","histories"],
 "every initial text over a small alphabet (ASCII letter, 2-, 3- and 4-byte characters, newline, carriage return) up to a length bound, every range with start<=end including past-the-end positions, every replacement text, sequences of edits",
 "The repository's test enumerates only byte-reachable positions of three fixed files and takes its expected result from the same position conversion it is testing, so an insertion at the end of an unterminated file is never compared with the protocol's meaning; sequences of edits are not tested at all.",
 [CORE+"lsp_file.rs",CORE+"lib.rs",HOST+"lsp_impl/active_initialized.rs"],
 [("lazy incremental edit",CORE+"lsp_file.rs LspFile::lazy_add"),("applying change batches",CORE+"lib.rs Analyzer::file_change_event")],
 [("file text","the server's copy of the document"),("line index","byte offset of the last byte of every line")],
 ["LspFile::get_file_content after each edit"])

prop("C02","The line index after edits equals that of a freshly opened document",
 "After any sequence of document-change events, everything the server knows about line structure - the stored line-end table, the character count of each line and every position/offset conversion - is identical to what it would know had the resulting text just been opened from scratch. The character count of a line is the number of its characters and its terminator, and no history of edits can leave behind a stale, missing or duplicated line.",
 ["inputs","histories"],
 "all single edits and all sequences of edits up to a depth bound over small texts, including whole-text deletion, growth from empty, removal of the last line terminator and edits after those",
 "The tests compare the table after one edit of three fixed documents; a table that is right after one edit and wrong for the next one (or after delete-all then retype) is not visible to them.",
 [CORE+"lsp_file.rs"],
 [("splicing and shifting of the line table",CORE+"lsp_file.rs LspFile::lazy_add"),("from-scratch table",CORE+"lsp_file.rs LspFile::parse_string")],
 [("ranges","byte offset of the last byte of every line")],["LspFile::get_ranges, line_char, byte_to_lsp, lsp_to_byte"])

prop("C03","Positions and byte offsets convert exactly and consistently",
 "For every document, converting a byte offset to a line/character position gives the line containing it and the number of characters before it on that line (any byte of a character maps to that character), and converting a position to an offset gives the first byte of that character, with a character past the end of its line meaning the line's end and a line past the last meaning the end of the document. The two conversions invert each other on character boundaries, and neither ever panics or yields an offset that splits a character.",
 ["inputs"],
 "all texts up to a length bound over an alphabet with 1- to 4-byte characters and line ends; all offsets from 0 past the end; all positions past the last line and column",
 "Tests check a handful of offsets of one ASCII document; the conversions are tested against each other, not against their meaning, and the last unterminated line is never converted.",
 [CORE+"lsp_file.rs",HOST+"lsp_impl/active_initialized.rs"],
 [("offset to position",CORE+"lsp_file.rs LspFile::byte_to_lsp"),("position to offset",CORE+"lsp_file.rs LspFile::lsp_to_byte")],
 None,["return values of the conversions"])

prop("C04","Incremental re-parsing equals parsing from scratch",
 "After any history of edits to a parser's token buffer interleaved with parses, parsing gives exactly the result (the same syntax tree or the same rejection) that a new parser for the same grammar gives on the current buffer contents. Reused memoized results are never stale, and no legal edit makes the parser panic, whatever has or has not been parsed before.",
 ["inputs","histories","programs"],
 "all grammars in a bounded family (every rule kind, nested, with lookahead past the match), all inputs and edits over a small token alphabet up to a length bound, all interleavings of edits and parses up to a depth",
 "One grammar and one nine-step edit script are tested; invalidation depends on which rules examined which positions, so only exhaustive combination of grammars, texts and edits distinguishes a correct memo table.",
 [CORE+"parser.rs"],
 [("memo invalidation",CORE+"parser.rs Parser::apply_edit"),("memo reuse and examined lengths",CORE+"parser.rs Matcher::memoized_eval_rule")],
 [("memo_table","per-position memoized rule results with the length of input they examined")],["Parser::_match"])

prop("C05","The parser implements PEG semantics for any well-formed grammar",
 "For every grammar whose rules are all defined and which has a start rule, parsing succeeds exactly when the start rule matches the entire input under PEG semantics (ordered choice without backtracking into a chosen alternative, greedy repetition, negative lookahead consuming nothing), and the returned tree mirrors the grammar and the tokens consumed. A grammar without a start rule or with a reference to an undefined rule is rejected when the parser is built.",
 ["inputs","programs"],
 "all grammars of a bounded family over terminals, choice, sequence, repetition and negation, all inputs over a small alphabet up to a length bound; left-recursive grammars and repetition of empty-matching rules are outside the statement",
 "Four grammars with one or three inputs each are tested, no grammar with negation or with ordered-choice conflicts.",
 [CORE+"parser.rs"],
 [("rule evaluation",CORE+"parser.rs Matcher::eval_rule"),("grammar validation",CORE+"parser.rs Parser::from_rules")],None,["Parser::from_rules, Parser::_match"])

prop("C06","Messages survive framing whatever the stream's fragmentation",
 "Any sequence of messages written to a byte stream is read back as the same messages in the same order and then a clean end of stream, however the bytes are divided between reads and whatever the messages contain (multi-byte text, embedded header-like text, empty or null parameters). The declared content length is the exact byte length of the body, additional header fields do not matter, and reading one message consumes exactly its own bytes.",
 ["inputs","schedules"],
 "all sequences of up to a few messages from a pool covering every message kind, id kind and awkward payload; all ways of splitting the stream into reads (all cut sets up to a size, and every fixed chunk size), short writes, interrupted reads",
 "Tests never read a message at all; fragmentation of the stream is chosen by the operating system and differs per run.",
 [HOST+"json_rpc.rs",HOST+"json_rpc/message.rs"],
 [("frame reader",HOST+"json_rpc.rs read_msg_text"),("frame writer",HOST+"json_rpc.rs write_msg_text")],None,["Message::read, Message::write"])

prop("C07","Malformed or truncated input is rejected without damage",
 "For any bytes on the input stream, reading a message either yields a message that is really there, reports an error, or reports the end of the stream; it never panics, never hangs, and never consumes bytes past the frame it was reading. A stream that ends inside a frame never yields a message, and a frame with a bad length, bad header line, invalid UTF-8 or a body that is not a message is reported as an error while a well-framed bad body leaves the next frame readable.",
 ["inputs","fault_sequences"],
 "every truncation point of valid streams, every single-byte substitution/insertion/deletion from a byte alphabet in a header, every body from a pool of non-messages, I/O errors at every read",
 "No test feeds invalid bytes; the set of corruptions is combinatorial.",
 [HOST+"json_rpc.rs"],
 [("header parsing",HOST+"json_rpc.rs read_msg_text"),("body decoding",HOST+"json_rpc.rs Message::buffered_read")],None,["Message::read result and stream position"])

prop("C08","Messages are classified and serialized as JSON-RPC 2.0 prescribes",
 "A JSON object with a method and an id is a request, with a method and no id a notification, and with an id and no method a response; ids keep their type and value (the number 1 and the string \"1\" stay different), and parameters, results, error codes, messages and data come through unchanged. Every message written carries the version marker \"2.0\" and only the fields of its kind, with absent parameters, results and errors omitted, and responses built for a request carry exactly that request's id.",
 ["inputs"],
 "the full cross product of presence/kind of id, method, params, result and error members over a pool of JSON values, and all constructor arguments from the pool",
 "Tests only compare two serialized strings; classification depends on member combinations and their order of trial, which nothing enumerates.",
 [HOST+"json_rpc.rs",HOST+"json_rpc/message.rs"],
 [("untagged message kinds",HOST+"json_rpc/message.rs Message"),("constructors",HOST+"json_rpc.rs Request/Response/Notification::new")],None,["Message::read, Message::write"])

prop("C09","A completion source resolves once and every waiter sees it",
 "However its users are scheduled, exactly one attempt to complete a completion source succeeds and every later attempt is refused; every consumer, whether it started waiting before, during or after completion, eventually obtains exactly the value or error of the successful attempt. Observed state only moves from pending to that one result, and no wake-up is ever lost.",
 ["schedules"],
 "all interleavings (up to a preemption bound) of 2-3 threads that complete, await and observe the same source, with every mix of values and errors",
 "The tests use sequential or timed schedules; losing a wake-up needs the completion to fall between a consumer's check and its registration.",
 [ABS+"futures_extensions.rs"],
 [("completion",ABS+"futures_extensions.rs FutureCompletionSource::set_inner_value"),("awaiting",ABS+"futures_extensions.rs FutureCompletionSource::future")],
 [("completed/value/on_completed","flag, result slot and wake-up event")],["results of set_value/set_err/future/state"])

prop("C10","The task pool runs every task to completion and stops cleanly",
 "While the pool is running every spawned task is polled, polled again after every wake-up (from any thread, including while it is being polled), and driven to completion exactly once, and no task is polled by two callers at once or after finishing. Stopping the pool, or cancelling it and then waking or stopping it, ends it with the matching result, and neither wake-ups nor stops arriving at the same moment make anything panic or hang.",
 ["schedules","histories"],
 "all interleavings up to a preemption bound of the pool loop with threads that wake tasks, spawn tasks, stop and cancel; tasks that wake themselves, are woken repeatedly, spawn others or finish late",
 "No test covers the pool; lost or duplicated wake-ups and stop races only show in particular interleavings.",
 [ABS+"futures_extensions/async_extensions.rs"],
 [("run loop",ABS+"futures_extensions/async_extensions.rs AsyncPool::start"),("waking",ABS+"futures_extensions/async_extensions.rs AsyncWork::wake_by_ref"),("stop",ABS+"futures_extensions/async_extensions.rs AsyncPool::stop")],
 [("WORK_CHANNEL","queue of runnable tasks")],["task poll log, result of start"])

prop("C11","The server follows the language-server lifecycle",
 "Before initialize succeeds every other request gets the server-not-initialized error and notifications other than exit have no effect; after it, until the client's initialized notification, requests get the server-not-initialized error; then requests are served until shutdown, after which every request gets the invalid-request error; exit ends the server from any state. A request or notification that fails leaves the lifecycle where it was, and no message sequence skips, repeats or reverses a phase.",
 ["histories","configurations"],
 "all sequences up to a depth over the lifecycle messages, ordinary requests and notifications, unknown methods and bad parameters, with and without workspace folders",
 "The tests send one fixed exchange; the lifecycle is a property of all message orders.",
 [HOST+"fsm.rs",HOST+"lsp/dispatch.rs",HOST+"lsp/dispatch_target.rs",HOST+"lsp_impl/active_uninitialized.rs",HOST+"lsp_impl/initializing.rs",HOST+"lsp_impl/active_initialized.rs",HOST+"lsp_impl/shutting_down.rs",HOST+"lsp_impl/stopped.rs"],
 [("state machine",HOST+"fsm.rs LspProtocolMachine::process_message"),("per-state dispatch tables",HOST+"lsp_impl/*.rs create_dispatcher"),("dispatch",HOST+"lsp/dispatch.rs DefaultDispatch::dispatch")],
 [("current_state","lifecycle phase")],["responses and termination seen by the client"])

prop("C12","Every request is answered exactly once; notifications never are",
 "Every request the server receives while it is running - known or unknown method, valid or invalid parameters, in any lifecycle phase - gets exactly one response carrying its own id, either a result or an error with the code its condition calls for (invalid parameters, not initialized, invalid request, internal error). Notifications and responses from the client never produce a response, and responses come in the order the requests were processed.",
 ["histories","inputs"],
 "all sequences up to a depth over requests and notifications with numeric and string ids, valid, missing, null and wrong parameters, unknown methods, in every phase",
 "Tests look at one initialize response; a dropped or doubled response needs a particular message in a particular phase.",
 [HOST+"lib.rs",HOST+"lsp/dispatch.rs",HOST+"lsp/dispatch_target.rs",HOST+"fsm.rs"],
 [("request dispatch and error mapping",HOST+"lsp/dispatch_target.rs RequestDispatchTarget::process_message"),("unhandled messages",HOST+"lsp/dispatch.rs DefaultDispatch::dispatch")],None,["messages on the client side of the channel"])

prop("C13","Server-to-client requests have unique ids and get their own replies",
 "All requests the server sends to the client during a session carry different ids, and each is resolved by the client's response with that id and no other, in whatever order responses arrive; an error response or a result of the wrong shape is reported to the caller that made the request. Responses with unknown or already answered ids are ignored without disturbing anything, and notifications do not wait.",
 ["schedules","histories","fault_sequences"],
 "all orders of issuing requests from several holders and of delivering right, wrong, duplicate, error, null and malformed responses",
 "No test has two server requests outstanding; id collisions and mis-routing need concurrent requests.",
 [HOST+"lsp/request.rs",HOST+"fs.rs",HOST+"lib.rs"],
 [("id allocation and clone",HOST+"lsp/request.rs RequestManager::send_request / Clone"),("response routing",HOST+"lsp/request.rs RequestManager::start")],
 [("awaiting_requests","outstanding requests by id")],["outgoing requests; results of the awaiting calls"])

prop("C14","For a document open in the editor the editor's text is the truth",
 "From the moment the client opens a document until it closes it, every answer and diagnostic about that document is computed from the text the client last sent - the opened text plus its changes - never from content loaded from disk, however file loads, watch notifications, deletions on disk and load failures are interleaved with it. A background load that finishes late, fails late or was requested before the document was opened has no effect on it.",
 ["schedules","histories","fault_sequences"],
 "all interleavings up to a depth of open, change, save, close, watched-file events and the completion (with content or missing) of each outstanding file load",
 "Needs a disk load to finish at a particular moment relative to client messages; tests have no scheduler and no controllable file system.",
 [HOST+"lsp_impl/state.rs",HOST+"lsp_impl/active_initialized.rs",HOST+"lsp/workspace.rs"],
 [("late-load check",HOST+"lsp_impl/state.rs process_background_analyze_requests"),("open/close state",HOST+"lsp/workspace.rs File"),("watched files",HOST+"lsp_impl/active_initialized.rs on_watched_file_change")],
 [("is_open_in_ide","document owned by the client"),("parsed_unit","analysis result or error")],["completion responses and published diagnostics"])

prop("C15","Background loading reaches every file that is needed and never wedges",
 "Every source file found when a workspace is indexed, referenced by an analysed include, or announced as created or changed on disk while not open is fetched once the file system answers, and afterwards requests about it are answered from that content; a file that cannot be read makes requests about it fail with an error, and a file that appears later becomes available. No failure or ordering of loads stops other files from loading or leaves a request unanswered once its load has finished.",
 ["schedules","histories","fault_sequences"],
 "all completion orders and outcomes of file loads for workspaces of 1-3 files with includes, interleaved with requests and watched-file events",
 "The tests never load a file through the server.",
 [HOST+"lsp_impl/state.rs",HOST+"lsp/workspace.rs",HOST+"lsp_impl/active_initialized.rs",HOST+"lsp_impl/initializing.rs"],
 [("background worker",HOST+"lsp_impl/state.rs process_background_analyze_requests"),("indexing",HOST+"lsp/workspace.rs Workspace::index"),("requiring includes",CORE+"lib.rs Analyzer::preprocessed")],
 [("background_parse_channel","queue of files to load")],["file system calls, completion responses"])

prop("C16","A document belongs to the workspace folder that contains it",
 "For any set of workspace folders and any document URI, lookup always returns the one stable entry for that URI, held by the folder whose path contains the document, preferring the innermost when folders are nested; a folder never claims a sibling whose name merely starts with the same text. A document outside every folder, or with any other scheme, is still handled and never crashes the server.",
 ["inputs","configurations"],
 "all sets of up to three folders from a pool with nesting, shared prefixes, trailing slashes and dotted names, against all URIs of a pool, in all map orders",
 "No test calls the lookup; the outcome also depends on hash-map order.",
 [HOST+"lsp/workspace.rs"],
 [("containment test and lookup",HOST+"lsp/workspace.rs WorkspaceManager::get_file"),("per-folder entries",HOST+"lsp/workspace.rs Workspace::get_file")],
 [("workspaces/files","folder and file tables")],["WorkspaceManager::get_file"])

prop("C17","The server terminates, and only then, with everything answered",
 "After exit, cancellation, or the closing of the client's channel, the server's main task finishes without hanging, spinning or panicking, whatever messages are still queued and whatever background work is outstanding, closes its channels, and reports success for exit and cancellation for a cancelled run. Responses produced before the end are all delivered, and without one of these causes the server keeps running.",
 ["schedules","histories","fault_sequences"],
 "all positions of exit, cancel and channel close within message sequences up to a depth, with loads and server requests outstanding, and messages arriving after exit",
 "The exit test is commented out in the repository because it does not exit; shutdown races need a controlled schedule.",
 [HOST+"lib.rs",HOST+"lsp/request.rs",ABS+"futures_extensions/async_extensions.rs"],
 [("receive loop",HOST+"lib.rs AnalyzerHost::receive_messages"),("machine loop",HOST+"lib.rs AnalyzerHost::run_protocol_machine"),("join",HOST+"lib.rs AnalyzerHost::start")],None,["completion and result of AnalyzerHost::start"])

prop("C18","Workspace start-up registers, indexes and reports progress in order",
 "When the client signals initialized for a session with workspace folders, the server registers for watched source files exactly once, then enumerates every folder exactly once for source files, with the progress it announces always bracketed: a token the client accepted, one begin, reports, one end. Without workspace folders none of this happens, and refusal of any of these requests by the client neither crashes the server nor stops it from reaching the initialized phase's outcome.",
 ["histories","fault_sequences","configurations"],
 "zero to three folders; every answer (accept, error) of the client to registration and progress creation; every order of the answers",
 "Only the text of the registration request is tested.",
 [HOST+"lsp_impl/initializing.rs",HOST+"lsp/workspace.rs",HOST+"lsp/progress.rs"],
 [("registration and indexing",HOST+"lsp_impl/initializing.rs on_client_initialized"),("progress",HOST+"lsp/progress.rs ProgressManager"),("folder enumeration",HOST+"lsp/workspace.rs WorkspaceManager::index")],None,["messages to the client, folder enumerations"])

prop("C19","Trace output follows the trace value the client set",
 "Trace notifications are sent exactly when the current trace value is not off, carry the event's message always and its fields exactly when the value is verbose, and the value in force is the one most recently set by initialize or by a set-trace notification. Producing trace output never fails or disturbs the server, even after the channel is closed.",
 ["histories","schedules"],
 "all sequences up to a depth over setting each value, emitting events with and without fields, and closing the channel; setting and emitting from several threads",
 "No test exercises the layer.",
 [HOST+"tracing.rs",HOST+"lsp_impl/active_initialized.rs",HOST+"lsp_impl/active_uninitialized.rs"],
 [("layer",HOST+"tracing.rs LspTracingLayer::on_event"),("set trace",HOST+"lsp_impl/state.rs State::set_trace_value")],[("trace_value","current level")],["$/logTrace notifications"])

prop("C20","Completion and hover answers reflect the current document",
 "A completion request on a document returns each identifier of the document's preprocessed text exactly once, in order of first appearance, as of all changes processed before it; for a document that could not be loaded it returns an error. A hover request reports the very position it was asked about.",
 ["inputs","histories"],
 "all documents over a small fragment alphabet (identifiers, keywords, macros, conditionals, comments) and all edit/request interleavings up to a depth",
 "No test issues a completion or hover request.",
 [HOST+"lsp_impl/active_initialized.rs",CORE+"lib.rs"],
 [("completion",HOST+"lsp_impl/active_initialized.rs on_text_document_completion"),("hover",HOST+"lsp_impl/active_initialized.rs on_text_document_hover")],None,["responses"])

prop("C21","Published diagnostics match the analysis of the current text",
 "Whenever the server publishes diagnostics for a document, the set it publishes is complete for the text it currently holds: exactly the lexical and preprocessor problems of that text, each with the range of the offending text in line/character terms and its severity, and none left from earlier text. Fixing a problem and publishing again clears it.",
 ["inputs","histories"],
 "all documents over a fragment alphabet containing each kind of problem, with multi-byte text and several lines; all edit/save histories up to a depth",
 "No test looks at diagnostics.",
 [HOST+"lsp_impl/active_initialized.rs",CORE+"lib.rs",CORE+"lexer.rs",CORE+"preprocessor.rs"],
 [("publishing",HOST+"lsp_impl/active_initialized.rs process_diagnostics"),("collecting",CORE+"lib.rs Analyzer::diagnostics"),("merging error tokens",CORE+"lib.rs process_error_tokens")],None,["textDocument/publishDiagnostics"])

prop("C22","Lexing is total and its tokens tile the text",
 "For every text the lexer terminates without panicking and produces tokens whose spans are non-empty, in order, on character boundaries, start at the beginning, end at the end and leave no gap and no overlap, so concatenating them gives the text back. Every character the language does not allow is covered by an error token and reported, and runs of bad input are reported once as one range.",
 ["inputs"],
 "all texts up to a length bound over an alphabet of characters that matter to the lexer, and all sequences of lexical fragments up to a length",
 "A dozen fixed strings are tested, and those tests do not build here.",
 [CORE+"lexer.rs",CORE+"lib.rs"],
 [("token rules and callbacks",CORE+"lexer.rs Token"),("error merging",CORE+"lib.rs process_error_tokens")],None,["token stream and diagnostics of lex"])

prop("C23","Tokens are classified as the language defines",
 "Every token has the kind the P4 lexical rules give its text: keywords and identifiers are told apart by the longest match, comments run to the end of the line or to the first terminator, operators and brackets are single characters, and an integer literal has exactly the width, signedness, base and value it is written with. An integer that is malformed or does not fit, and an unterminated block comment, are errors and never a wrong value.",
 ["inputs"],
 "all fragment sequences up to a length over keywords, identifiers, comments, punctuation and whitespace; all integer literals over the literal alphabet up to a length",
 "A dozen fixed strings; the literal grammar alone has thousands of short cases.",
 [CORE+"lexer.rs"],
 [("token rules",CORE+"lexer.rs Token"),("integer literals",CORE+"lexer.rs read_int, parse_width, parse_base"),("comments",CORE+"lexer.rs read_comment")],None,["token kinds and values"])

prop("C24","Conditional inclusion keeps exactly the selected text",
 "For any arrangement of if/elif/else/endif directives, however nested, the preprocessed output contains exactly the tokens outside conditionals and in the first alternative of each conditional whose condition holds (or its else when none does), and directives in text that is not selected have no effect. Dangling, duplicate or missing directives are each reported, never crash the preprocessor, and balanced input produces no such report.",
 ["inputs","programs"],
 "all sequences of directive and text fragments up to a length, conditions true/false/macro-dependent, with defines and undefs inside and outside skipped text",
 "Ten fixed snippets with nesting depth one, none with nested skipped conditionals, and they do not build here.",
 [CORE+"preprocessor.rs"],
 [("main loop",CORE+"preprocessor.rs PreprocessorState::preprocess"),("skipping",CORE+"preprocessor.rs skip_conditional_directive")],
 [("conditional_stack","open conditionals")],["output tokens and errors of preprocess"])

prop("C25","Preprocessor conditions evaluate like C integer expressions",
 "A condition evaluates to the value C's preprocessor rules give it: operator precedence and associativity, comparison, logical, bitwise, shift and arithmetic operators over integers, decimal and hexadecimal literals, defined tests and object macros as last defined or undefined. No condition - division by zero, overflow, oversized shift, self-referential macro, undefined name - crashes or hangs the analysis, and a condition with no defined value counts as false.",
 ["inputs","programs"],
 "all expressions up to a size over all operators, literals, defined and macro names under all small macro environments, in all spacings",
 "Four expressions are tested.",
 [CORE+"preprocessor.rs"],
 [("expression parser",CORE+"preprocessor.rs parser::exp3..exp12"),("evaluation",CORE+"preprocessor.rs interpret_pp_expr")],[("definitions","macro table")],["which branch a conditional selects"])

prop("C26","Includes expand in place, in order, once per chain, and are tracked",
 "An include directive whose file is known contributes that file's tokens, in their order, at the place of the directive, with macros defined there visible afterwards, and each output token names the file and span it came from; an unknown file is reported and requested, and expands once it becomes known. Relative paths are relative to the file with the directive, a path that cannot be resolved is reported, and a file may be included again outside its own chain. Include cycles of any length terminate with a report, and the list of dependencies names every file included with whether it was found.",
 ["inputs","programs","histories"],
 "all include graphs over up to three files with text before, between and after the directives, with conditionals and defines, and all orders of making files known",
 "The include path of the preprocessor is never executed by a test.",
 [CORE+"preprocessor.rs",CORE+"lib.rs"],
 [("include expansion",CORE+"preprocessor.rs PreprocessorState::preprocess"),("resolution and dependency tracking",CORE+"lib.rs preprocess"),("requiring",CORE+"lib.rs Analyzer::preprocessed")],
 [("state","files already entered")],["preprocessed tokens, include_dependencies, required files"])

prop("C27","Analysis depends only on current file contents",
 "The analysed file set behaves as a map from path to latest text: updates and edits replace, deletes remove, other files are unaffected, and listing gives exactly the present files. Tokens, preprocessed output, dependencies and diagnostics of a file depend only on the current texts, not on the history of updates, edits, deletes and queries by which they came about.",
 ["histories"],
 "all sequences up to a depth of update, incremental edit, delete and query over two to three files that include each other",
 "No test performs two updates; staleness needs a query between them.",
 [CORE+"lib.rs",CORE+"base_abstractions.rs"],
 [("store",CORE+"lib.rs Analyzer::update / file_change_event / delete"),("queries",CORE+"lib.rs lex, preprocess")],[("fs","current contents by file id")],["Analyzer queries after each step"])

prop("C28","The buffer driver delivers messages in order and only when permitted",
 "However the test thread and the server's reader and writer are scheduled, queued messages are read in the order queued, each exactly once and never before it has been permitted, permits are neither lost nor spent twice, and every message written is returned by exactly one read of the output, in order and in complete frames. Waiting returns once its condition holds, and no call deadlocks or panics.",
 ["schedules"],
 "all interleavings up to a preemption bound of one reader, one writer and one controller calling the permit, queue, clear, wait and collect operations",
 "Tests use one message and sleep-based timing.",
 [P4+"driver/buffer_driver.rs"],
 [("reader",P4+"driver/buffer_driver.rs BufferStruct::read_queue"),("permits",P4+"driver/buffer_driver.rs allow_*_read_blocking"),("output",P4+"driver/buffer_driver.rs message_write, get_output_buffer")],
 [("input_queue/read_queue_count/output_buffer","queue, permits, captured output")],["messages returned and collected"])

prop("C29","The driver relays messages both ways and ends with its channels",
 "Every message that can be read from the input source reaches the server's channel in order, and every message the server sends is written to the output in order and completely before the driver finishes. The driver finishes when the server closes its side or the run is cancelled, with the matching result, and the end or failure of the input source is passed on so that the server learns its client is gone.",
 ["schedules","fault_sequences"],
 "all interleavings up to a bound of source, sink, server-side channel use, closing and cancelling; end of input and I/O failure at every message",
 "Two timing-dependent tests that never end the input.",
 [P4+"driver.rs"],
 [("input pump",P4+"driver.rs Driver::sender_task"),("output pump",P4+"driver.rs Driver::receiver_task"),("shutdown",P4+"driver.rs Driver::start")],None,["messages on both sides, result of Driver::start"])

prop("C30","The native file system finds exactly the source files of a folder",
 "Enumerating a folder returns exactly the files below it, at any depth, whose names match the source-file pattern, each once and as a URI from which its content can be fetched, whatever characters occur in file and folder names. Fetching returns the exact text of a readable text file and reports absence for a missing or undecodable file or a URI that is not a local file, and neither operation ever panics.",
 ["inputs","configurations"],
 "all directory trees up to a size over a pool of awkward names (spaces, glob metacharacters, dots, unicode, percent signs, no extension, directory named like a source file) and file contents (empty, multi-byte, invalid UTF-8)",
 "One fixed tree of plain names is tested, and that test does not build here.",
 [P4+"native_fs.rs"],
 [("enumeration",P4+"native_fs.rs NativeFs::enumerate_folder"),("contents",P4+"native_fs.rs NativeFs::file_contents")],None,["results of the two operations"])

prop("C31","LSIF output is well formed with unique ids",
 "Everything the index writer emits is one JSON object per line with the fields the index format requires, every element has an identifier no other element of the file has, and identifiers returned to the caller are the ones written. The file written to disk is exactly what was emitted, in order, under the requested name and folder or their defaults.",
 ["histories","configurations"],
 "all sequences up to a length of document and raw-entry emissions over a URI pool with characters needing escaping, and all combinations of output settings",
 "The writer has no tests.",
 ["crates/lsif-p4/src/lsif_writer.rs"],
 [("emission",'crates/lsif-p4/src/lsif_writer.rs append_file, document'),("writing",'crates/lsif-p4/src/lsif_writer.rs write_file_to_disk')],[("id/file","next id, emitted text")],["the file on disk"])

prop("C32","The Node adapter forwards exactly the framed messages it receives",
 "However the standard input of the Node front end is divided into chunks - several messages in one chunk, a message or header spread over many, bodies larger than the buffer, multi-byte text - the message bodies handed to the WebAssembly server are exactly those sent, in order, each once. Every response is written to standard output with a content length that is the byte length of its body.",
 ["inputs","schedules"],
 "all sequences of up to three messages from a pool of sizes and contents and all divisions into chunks up to a number of cuts",
 "The package has no tests; chunking is decided by the operating system.",
 ["packages/p4-analyzer/src/server/index.ts"],
 [("reassembly","packages/p4-analyzer/src/server/index.ts onReceiveRequestBuffer"),("responses","packages/p4-analyzer/src/server/index.ts onResponseBuffer")],
 [("requestBuffer/requestBufferOffset","bytes received and not yet forwarded")],["sendRequest calls and stdout writes"])

prop("C33","The server process answers every request before it ends, on any schedule",
 "From the bytes on standard input to those on standard output the server process as a whole - console driver, host, analyzer and native file system on their own threads - answers every request it is sent exactly once and with the right result before it ends, whether by an exit notification or because the input ends, however the input arrives and its threads interleave. Everything it writes is whole, well-formed messages that the session calls for. When it is cancelled it stops promptly, reports cancellation and leaves no message torn.",
 ["schedules","histories"],
 "all interleavings of the reader, writer, host, loader and file-system threads up to a bound of delays, for every short session, ending and pacing of the input",
 "No test runs the server end to end; each part is tested alone with one timing.",
 [P4+"driver.rs",P4+"commands/lsp_server.rs","crates/analyzer-host/src/lib.rs"],
 [("start and end",P4+"commands/lsp_server.rs LspServerCommand::run"),("host loop","crates/analyzer-host/src/lib.rs AnalyzerHost::start"),("console",P4+"driver/console_driver.rs")],
 [("queues","messages read and not handled, responses made and not written")],["standard output until the process ends"])

prop("C34","The index generator lists every source file before the process ends",
 "When the index generator's process ends, with status zero, the file it was asked for exists under the requested name and holds one document vertex, with an identifier of its own, for each source file below the workspace and header folders and for no other file; if the folders do not overlap each file is listed once. This holds for every content of the folders and every interleaving of its threads.",
 ["schedules","configurations"],
 "all interleavings of the generator's host, driver and loader threads up to a bound of delays for every pair of small folder trees, their nesting and the output settings",
 "The generator has no tests, and its main function ends the process from the middle of a join of three tasks.",
 ["crates/lsif-p4/src/lsif_generator.rs",P4+"driver/buffer_driver.rs"],
 [("generation","crates/lsif-p4/src/lsif_generator.rs LsifGenerator::generate_dump, setup_workspace, stop_workspace"),("client",P4+"driver/buffer_driver.rs BufferStruct")],
 [("workspace files","files found and not yet written")],["the file on disk at process end"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        assert p["statement"].count(". ")<=2,(p["id"])
        f.write(json.dumps(p)+"\n")
print(len(P))
