#!/usr/bin/env python3
# Regenerates properties.jsonl (one place to edit the property texts).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
WE="pkg/webextensions/"
BB="cmd/burl_backend/"
p("R01","Every request gets exactly one reply with its own id and its own outcome",
 "For every complete JSON-RPC request the native messaging host receives, however many are in flight and in whatever order their handlers finish, exactly one reply bearing the same id is sent, and it holds the outcome of that request's own method and argument and of no other. A request that cannot be served (unpublished method name, wrong argument shape) gets exactly one error reply with its id, and the session goes on. No reply is ever sent that answers no request.",
 ["schedules","inputs","histories"],
 "all sequences of requests, all numbers in flight, all interleavings of handlers, reader and writers",
 "The tests send at most four parallel calls to a trivial handler through an in-memory pipe and let the Go runtime choose one interleaving; the real backend's handlers, method map and example backend are not run at all.",
 [WE+"server.go",WE+"frame.go",BB+"burl_backend.go","examples/webextensions_backend/webextensions_example_backend.go"],
 [("server codec wrapper",WE+"server.go serverCodec"),("method name map",WE+"server.go MappedServerCodec"),("handlers",BB+"burl_backend.go")],
 [("pending ids","request id per sequence number","net/rpc/jsonrpc serverCodec.pending")],["host stdout"])
p("R02","Output is always a sequence of whole length-prefixed messages",
 "Everything a native messaging host, or the client library, writes to its output stream is a concatenation of messages, each a 4-byte native-order length followed by exactly that many bytes holding one JSON value, whatever the message sizes, the concurrency of senders, and short or blocked writes of the transport. If a write fails, what the peer received is a prefix of such a sequence: after a partially written message nothing more is ever written.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings of concurrent senders and all patterns of short, blocked and failing writes at any byte offset",
 "The tests use io.Pipe, which never shortens or fails a write, and never look at the bytes.",
 [WE+"frame.go",WE+"server.go",WE+"client.go"],
 [("buffered frame writer",WE+"frame.go FrameBufferedWriter.WriteFrame"),("codec write order",WE+"server.go WriteResponse, client.go WriteRequest")],
 [("frame buffer","bytes of the message being assembled",WE+"frame.go FrameBufferedWriter.Buffer")],["bytes on the output stream"])
p("R03","Message decoding does not depend on how the stream is fragmented",
 "The host and the client library decode the same sequence of messages however the transport cuts the byte stream into reads: inside the length prefix, inside a multi-byte character, or between the JSON text and whitespace that pads the message, and whatever the message length, including an empty gap between messages of any size. Each message is handled as soon as its bytes have arrived, without waiting for later messages, and one message never takes bytes of the next.",
 ["schedules","inputs","fault_sequences"],
 "all fragmentations of all sequences of valid messages of all lengths",
 "In the tests every Read returns what one Write wrote and all messages are shorter than 64 bytes, so buffer-boundary and split-prefix cases never occur.",
 [WE+"frame.go",WE+"server.go",WE+"client.go"],
 [("length-limited reader",WE+"frame.go FrameLimitedReader.ReadHeader"),("codec read order",WE+"server.go ReadRequestHeader, client.go ReadResponseHeader")],
 [("remaining length","bytes of the current message not read yet",WE+"frame.go FrameLimitedReader.N")],["replies, handler invocations"])
p("R04","End of input drains accepted work, then the host shuts down cleanly",
 "When the host's input ends or breaks (between messages, inside the length prefix, inside a message, or by a read error), every request completely received before that point is still executed and its reply delivered, and nothing is executed for a message whose JSON text is incomplete. The host then closes its streams and exits normally within bounded time, without needing anything further from its peer.",
 ["crash_points","schedules","histories"],
 "all byte offsets at which the input stream can end or fail, with any set of requests in flight",
 "The tests close the client only when all calls have completed.",
 [WE+"frame.go",WE+"server.go",BB+"burl_backend.go"],
 [("header/body EOF handling",WE+"frame.go ReadHeader"),("drain before close","net/rpc Server.ServeCodec"),("close",WE+"frame.go SplitFrameReadWriteCloser.Close")],
 observe=["host stdout, exit status, handler side effects"])
p("R05","No incoming message can crash or wedge the host",
 "Whatever messages arrive (any method, any argument values including extreme numbers, nulls, wrong types, huge or empty lists, invalid JSON, oversized length prefixes) and whatever the configured note files contain (for instance skipped or very deep heading levels), the host process never crashes. Each well-formed request is answered with a result or an error and later requests are still served; a message that does not begin with a well-formed JSON-RPC request or whose length exceeds the allowed maximum at worst ends the session in an orderly way, without any part of it being executed.",
 ["inputs","histories","schedules"],
 "all message sequences and all note file contents, in combination and in any concurrency",
 "The tests only send valid requests to a stub handler; the backend package has no tests. A panic in one handler kills every other request in flight, which only histories of mixed requests show.",
 [WE+"frame.go",WE+"server.go",BB+"burl_backend.go","pkg/burl_links/link_tree.go","pkg/burl_links/node_count.go","pkg/burl_links/extract_org.go"],
 [("length limit",WE+"frame.go MaxInSize"),("argument validation",BB+"burl_backend.go handlers"),("tree limiting","pkg/burl_links/node_count.go FilterChildrenCount"),("tree serialisation","pkg/burl_links/node_count.go reflectFlatten")],
 observe=["host stdout, exit status"])
p("R06","A stalled request never delays the others",
 "While any number of requests are stalled (Emacs hangs or is slow, a handler sleeps, a note file takes arbitrarily long to read), requests that do not need the stalled resource are accepted and answered. When the stall ends, every stalled request is answered too.",
 ["schedules","fault_sequences","histories"],
 "all stall points and durations, all mixes of stalled and healthy requests",
 "No test has a handler that takes time or a resource that stalls.",
 [BB+"burl_backend.go","pkg/burl_emacs/emacs.go",WE+"server.go","examples/webextensions_backend/webextensions_example_backend.go"],
 [("handler per goroutine","net/rpc Server.ServeCodec"),("lazy load once",BB+"burl_backend.go BurlBackend.once")],
 observe=["reply order relative to stall release"])
p("R07","Each client call completes exactly once, with its own result or an error",
 "Every call made through the native messaging client library completes exactly once: with the result the peer sent for that very call, with the error the peer sent for it, or with a transport error. This holds for any number of concurrent calls, for replies in any order, for a peer that dies, closes, truncates, sends garbage, an oversized length or replies to unknown ids, and for a client closed at any moment; closing never hangs as long as the peer process exits when its input ends, and once the connection is lost no call is left waiting. Creating a client for a program that cannot be started fails and leaves no process behind.",
 ["schedules","fault_sequences","crash_points"],
 "all interleavings of calls, replies, close and peer failure at every byte of the reply stream",
 "The tests cover a healthy peer only, and Close only when idle.",
 [WE+"client.go",WE+"frame.go"],
 [("client codec wrapper",WE+"client.go clientCodec"),("command client",WE+"client.go NewClientCommand, ClientCommand.Close")],
 observe=["call completion, Close result, child process"])
p("R08","Each capture is handed to Emacs exactly once and unaltered",
 "Each valid capture request results in exactly one hand-over of exactly its org-protocol URI to the configured Emacs client, with the configured extra client arguments, after Emacs was found ready for org-protocol; success is replied only if that hand-over succeeded. This holds with any number of captures and other Emacs requests in flight: none is lost, duplicated, or replaced by another's data. A preview request, a wrong format or a non-org-protocol URI is never handed to Emacs.",
 ["schedules","inputs","configurations"],
 "all interleavings of concurrent captures and visits, all numbers of configured extra client arguments",
 "The Emacs package has no tests; the argument vector is assembled in shared storage so only certain interleavings and argument counts can mix up two requests.",
 ["pkg/burl_emacs/emacs.go",BB+"burl_backend.go",BB+"args.go"],
 [("capture steps","pkg/burl_emacs/emacs.go OrgProtocol"),("argument vector","pkg/burl_emacs/emacs.go execEmacs")],
 [("UserArgs","configured extra arguments","pkg/burl_emacs/emacs.go")],["emacsclient invocations"])
p("R09","Emacs failures are reported to the requester, never masked or retried",
 "If any step of a capture or visit fails (client program missing, Emacs server not running, org-protocol not loaded, non-zero exit, death by signal, garbage output) the request is answered with an error that says the server is not running when that is the reason and otherwise carries the client's own message, later steps of that request are not run, and no step is repeated. A request whose steps all succeed is answered with success, however slow the client is and however much it prints after its answer.",
 ["fault_sequences","schedules","histories"],
 "all sequences of client outcomes over the steps of all requests in flight",
 "No test runs the Emacs package; failure paths depend on exit codes, signals and start errors at particular steps.",
 ["pkg/burl_emacs/emacs.go",BB+"burl_backend.go"],
 [("exit code 9 convention","pkg/burl_emacs/emacs.go Args, execEmacs"),("step order","pkg/burl_emacs/emacs.go VisitFile, OrgProtocol")],
 observe=["reply vs emacsclient invocations"])
p("R10","Only configured note files can be opened in Emacs, at the line asked for",
 "A visit request opens a file in Emacs only if its path is exactly one of the configured note files; any other path is refused with an error and nothing is run for it. An accepted visit opens exactly that file once, at the requested line when it is positive, without waiting for the user to finish editing, and this stays so with any requests in flight.",
 ["inputs","schedules","configurations"],
 "all requested paths and lines, all configurations, all interleavings with other requests",
 "No test runs the visit handler, the file list or the Emacs package.",
 [BB+"burl_backend.go","pkg/burl_emacs/emacs.go"],
 [("allow list",BB+"burl_backend.go Visit"),("open command","pkg/burl_emacs/emacs.go VisitFile")],
 observe=["emacsclient invocations"])
p("R11","URL mentions report exactly what the notes contain, under any concurrency",
 "A URL mentions reply lists, in document order and below its true file and its true chain of enclosing headings, only links of the configured notes that match a queried URL variant (scheme http/https interchangeable, redundant trailing '#', '&', '?', '/' of the query optional), with exact total counts at every level. It shows at most the requested number of links (8 if none was requested) and exactly min(limit, total) when no URL repeats below one heading. The answer does not depend on which other requests ran before or run at the same time, nor on how the files are read in pieces.",
 ["schedules","histories","inputs"],
 "all note trees, all queries and limits, all interleavings including concurrent first use",
 "Only the regular expressions are tested; tree building, counting, limiting, lazy loading and sharing of the loaded tree between requests are not.",
 [BB+"burl_backend.go","pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go","pkg/burl_links/link_tree.go","pkg/burl_links/node_count.go","pkg/burl_links/link_source.go","pkg/burl_url/url.go"],
 [("lazy load once",BB+"burl_backend.go BurlBackend.once"),("per-request clone","pkg/burl_links/node_count.go CountDescendants"),("limiting","pkg/burl_links/node_count.go FilterChildrenCount"),("heading stack","pkg/burl_links/extract_org.go Extract")],
 [("fileGroup","link tree shared by all requests",BB+"burl_backend.go")],["mentions replies"])
p("R12","Link set replies equal the notes' content at request time",
 "A link set reply is exactly the set, without repeats, of links in the configured notes that start with one of the requested prefixes, reading every file at request time: for each file it reflects one state the file had between the request and the reply, even while an editor replaces files and other requests run. When the method is disabled by configuration, or a prefix list is invalid, empty or too long, the request is refused and no link is disclosed.",
 ["schedules","histories","inputs","configurations"],
 "all note contents, prefix lists and configurations, all interleavings with file replacement and other requests",
 "The tests extract from one string; files, several sources, concurrency, changes on disk and the method switch are not run.",
 [BB+"burl_backend.go","pkg/burl_links/link_source.go","pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go"],
 [("extraction","pkg/burl_links ExtractSet"),("file iteration","pkg/burl_links/link_source.go ExtractLinkSetFromFileGroup"),("switch",BB+"burl_backend.go linkSetImpl")],
 observe=["linkSet replies"])
p("R13","Unreadable notes produce an error, never a partial answer",
 "If any configured note file cannot be opened or completely read while a mentions or link set request is being answered (missing, no permission, a directory, too many open files, I/O error at any point, a line beyond the supported length), the reply is an error; a reply that is not an error always covers every configured file completely. The host survives, and link set requests made after the cause is gone succeed.",
 ["fault_sequences","crash_points","schedules"],
 "all I/O faults at every operation and byte offset of every file, in any concurrency",
 "The tests read from strings, which never fail.",
 ["pkg/burl_links/link_source.go","pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go",BB+"burl_backend.go"],
 [("error propagation","pkg/burl_links/link_source.go"),("scanner error","pkg/burl_links extract_*.go scanner.Err"),("cached error",BB+"burl_backend.go BurlBackend.err")],
 observe=["replies under injected faults"])
p("R14","Helper files are installed atomically",
 "While the installer writes a wrapper or manifest, at every instant and after a kill, power loss or I/O error at any point, the target path holds either exactly its previous content (or nothing, if it did not exist) or the complete new content with its final permissions; never a mixture, truncation or empty file. Two installers running at once leave one of the two complete results. A run that fails with an error leaves no stray file behind.",
 ["crash_points","fault_sequences","schedules"],
 "all crash points between any two file operations, all subsets of unsynchronised data lost, all failing operations, two concurrent installers",
 "The file utilities and the installer have no tests; torn states exist only at crash points.",
 ["pkg/burl_fileutil/fileutil.go",BB+"install.go"],
 [("temporary file and rename","pkg/burl_fileutil/fileutil.go WriteFile")],
 observe=["file system state after crash, readers during install"])
p("R15","Existing files survive an install unless overwriting is forced",
 "Without the force option the installer never changes the content of a file that existed before at a helper's path, whatever faults occur and whatever that file is (a note, an empty file, a huge file, a link to another file), and it reports failure when that content differs from the new content, and success, if nothing fails, when it is equal. With force the old file is replaced, whatever it contained, and replaced completely.",
 ["inputs","fault_sequences","configurations"],
 "all pre-existing files and options, all faults during the run",
 "The file utilities and the installer have no tests.",
 ["pkg/burl_fileutil/fileutil.go",BB+"install.go"],
 [("content comparison","pkg/burl_fileutil/fileutil.go WriteFile")],
 observe=["file system state, exit status"])
p("R16","A successful install leaves complete, launchable helpers; a failed one says so",
 "If the installer exits with success, every requested helper file is in place with the requested content: the manifest is valid for its browser, names itself after its file and points by absolute path to an existing executable, and the wrapper is executable. If any step failed, the exit status is a failure, and no manifest has been put in place that names a wrapper which is not there. Options of the backend without a wrapper, which alone could carry them, are refused. After a crash or failure at any point a repeated forced install succeeds and yields the same result as an undisturbed one.",
 ["fault_sequences","crash_points","histories","configurations"],
 "all install options, all failing operations and crash points, followed by retries",
 "The installer has no tests.",
 [BB+"install.go",BB+"args.go","pkg/burl_fileutil/fileutil.go",WE+"manifest.go"],
 [("order wrapper before manifest",BB+"install.go processInstallFlags"),("manifest validation",WE+"manifest.go Init"),("exec permission","pkg/burl_fileutil/fileutil.go WriteFile")],
 observe=["exit status, file system state"])
p("R17","The installed wrapper relaunches the backend with the same configuration",
 "Running the installed wrapper with a POSIX shell, from any working directory and with whatever arguments the browser adds, starts the backend with the configuration given at install time: the same log destination, note files and kinds (as absolute real paths), Emacs client and its arguments, link schemes and link set switch, for all argument values whatever characters they contain. Over any history of installs, failures, crashes and re-installs the wrapper always carries the configuration of exactly one install, the last one that succeeded or one interrupted after it. If the backend program is gone, the wrapper answers the browser with one well-formed error message.",
 ["inputs","configurations","histories","crash_points"],
 "all option values and histories of installs, failures and launches",
 "Neither the wrapper generator nor the option classes have tests; the guarantee spans two processes and a shell.",
 [BB+"args.go",BB+"install.go","pkg/burl_fileutil/escape_printf.go","pkg/burl_util/multistring_flag.go"],
 [("shell quoting","pkg/burl_fileutil/escape_printf.go"),("serialising options",BB+"args.go AsShellCommand, FixPaths"),("repeatable options","pkg/burl_util/multistring_flag.go")],
 observe=["behaviour of the relaunched backend"])
p("R18","Logging never disturbs the protocol or destroys the log",
 "Log output goes only to the configured destination: the host's output stream carries nothing but protocol messages, and a log file is only ever appended to. What is logged arrives there: a request refused because Emacs is not running leaves a line in it. A log file that fills up or fails while the host runs changes no reply and stops nothing; a log file that cannot be opened makes the host fail at start before it serves anything.",
 ["fault_sequences","schedules","configurations"],
 "all log settings, all log write failures, all interleavings of logging requests",
 "No test runs the backend with logging.",
 [BB+"burl_backend.go",BB+"args.go"],
 [("log setup",BB+"burl_backend.go mainWithGracefulShutdown")],
 observe=["stdout bytes, log file bytes, replies"])
p("R19","The command-line client reports success only for a genuine, printed reply",
 "The command-line client exits with success only if the backend answered its one request with a result, that complete result was written to standard output and the backend then ended normally; in every other case (backend missing, dying, closing, answering with an error, garbage or a truncated message, full output device) it exits with a failure and a message. It never hangs once the backend has closed its output without answering, or has exited, and leaves no backend process running after success.",
 ["fault_sequences","crash_points","schedules"],
 "all backend failures at every byte of the conversation, all output failures",
 "The client program has no tests.",
 ["tools/burl_client/burl_client.go",WE+"client.go",WE+"frame.go","examples/webextensions_client/webextensions_example_client.go"],
 [("call, close, wait","tools/burl_client/burl_client.go mainWithGracefulShutdown")],
 observe=["exit status, stdout, processes"])
p("R20","The link tool's exit status tells whether its output is complete",
 "The link search tool exits with success only if every input file, or standard input, was read to its end and all of its output was written; any read or write failure makes it exit with a failure and a message. What it prints on success is exactly the links of the inputs that match the given URL or prefixes, for any fragmentation of its input.",
 ["fault_sequences","inputs","schedules"],
 "all read and write faults at every offset, all inputs and fragmentations",
 "The tool has no tests.",
 ["cmd/burl_tool/burl_tool.go","pkg/burl_links/link_source.go"],
 [("error propagation","cmd/burl_tool/burl_tool.go mainWithGracefulShutdown")],
 observe=["exit status, stdout"])
p("R21","Long sessions accumulate no open files, processes or tasks",
 "However many requests a session serves, and however many of them fail (unreadable files, failing Emacs, malformed messages), once all have been answered the host holds no more open files, child processes and concurrent tasks than after the first requests of the same kinds. When the host exits no child process it started is left unreaped.",
 ["histories","fault_sequences","schedules"],
 "all request histories with failures at any operation",
 "The tests make a handful of calls and count nothing.",
 ["pkg/burl_links/link_source.go","pkg/burl_emacs/emacs.go",BB+"burl_backend.go","pkg/burl_fileutil/fileutil.go"],
 [("deferred close","pkg/burl_links/link_source.go"),("wait for child","pkg/burl_emacs/emacs.go execEmacs")],
 observe=["descriptor, process and task tables when idle"])
p("R22","Each call of the add-on's RPC client settles exactly once",
 "Every call made through the JSON-RPC client of the example add-on sends its request once, with an id of its own, and its promise settles exactly once: with the result the native host sent for that very call, whatever value it is (0, false and an empty string included), with the host's error for it, or with an error if the connection was lost or the request could not be sent. This holds for any number of calls in flight, replies in any order, repeated, unknown or malformed replies, and a host that is missing or dies; once the connection is lost no call is left waiting, and a later call opens a new connection.",
 ["schedules","fault_sequences","histories"],
 "all orders of calls, replies, odd messages, disconnects and failures of the browser's functions",
 "The add-on has no tests.",
 ["examples/webextensions_addon/rpc_client.js","examples/webextensions_addon/background.js"],
 [("requests and replies","examples/webextensions_addon/rpc_client.js sendMessage, messageReceived"),("lost connections","examples/webextensions_addon/rpc_client.js disconnected, getPort")],
 observe=["messages posted, outcome of each promise"])
p("R23","Hello is answered from the offer and the configuration, whatever happened before",
 "Every hello request, at any point of a session, with any requests in flight, whatever failed before and whatever state the note files are in, is answered with the format org-protocol, the version of the first org-protocol offer (formats are compared exactly) and exactly the capabilities that the configuration enables: visit and urlMentions if at least one note file is configured, additionally linkSet if it is not disabled (what a browser adds to the command line, the path of the manifest and the id of the extension, configures nothing), and with the option clipboardForBody set to false, since the host takes the text of a capture from its URI and never from the clipboard; nothing of other requests leaks into it. An offer without org-protocol is refused with an error.",
 ["schedules","histories","fault_sequences","configurations"],
 "all offers, configurations, points of a session, requests in flight and failures",
 "The handler has no tests, and whether its answer depends on other requests only shows in sessions.",
 [BB+"burl_backend.go","pkg/burl_rpc/burl_rpc.go"],[("hello handler",BB+"burl_backend.go Hello"),("start-up configuration",BB+"burl_backend.go NewBurlBackendPtr")],
 observe=["reply: format, version, capabilities, options"])
p("F01","Fuzzy search returns the closest links",
 "Approximate search returns the links with the smallest edit distance to the query words, ordered by distance, within the limit and tolerance.",
 ["inputs"],"all queries and link lists",
 "Seven distance examples are tested; ranking is not.",
 ["pkg/burl_fuzzy/approsearch.go","pkg/burl_fuzzy/rank.go"],
 [("edit distance","pkg/burl_fuzzy/approsearch.go"),("bounded heap","pkg/burl_fuzzy/rank.go")])
p("F02","Org and text link syntax is recognised as documented by Org Mode",
 "Every link of a configured scheme written in bracket, angle or plain form is recognised with exactly its address and description, and nothing else is.",
 ["inputs"],"all texts",
 "A dozen sample lines are tested.",
 ["pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go","pkg/burl_links/urlmatch_txt.go"],
 [("regular expressions","pkg/burl_links/extract_org.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
