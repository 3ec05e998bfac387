import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
S="src/pypsrp/"
p("C01","Fragmented PSRP messages are reassembled exactly as they were sent",
 "Splitting any PSRP message into fragments and feeding those fragments to a reassembler yields that message exactly once and byte for byte, however the fragments are grouped into chunks and however fragments of different objects are interleaved. Within one object the fragment ids run 0,1,2,..., only the first fragment carries the start flag and only the last the end flag, and successive messages use strictly increasing object ids. A fragment whose id is not the next one expected for its object is rejected with a fragment error, and it never yields a message.",
 ["inputs","histories"],"every message length, every maximum fragment size >= 1, every interleaving and grouping of fragments of any number of objects, every out-of-sequence fragment",
 "The tests use half a dozen message sizes and one interleaving; off-by-one errors at exact multiples of the fragment size, state carried over between objects and mis-sequenced fragments are outside them.",
 [S+"powershell.py"],[("Fragmenter.fragment/_byte_iterator/defragment",S+"powershell.py"),("Fragment.pack/unpack",S+"powershell.py")],
 [("incoming_buffer","partially received objects: bytes so far and next expected fragment id",S+"powershell.py"),("outgoing_counter","object id of the next outgoing message",S+"powershell.py")],
 ["Fragmenter.fragment return value","Fragmenter.defragment return value"])
p("C02","No PSRP data block or WSMan envelope exceeds the negotiated maximum",
 "Every block of fragment bytes produced for sending, including several small messages packed into one block, is no longer than the maximum payload size of the connection in force, both before and after the server's protocol version raises the envelope size, and packing several messages together neither loses, reorders nor duplicates fragments. The maximum payload size is derived from the envelope size so that the base64 form of a block plus the measured empty envelope fits in the envelope; the envelope size is raised to 500 KiB exactly when the server speaks protocol 2.2 or newer and the default size is still in use. Every request header announces the envelope size in force.",
 ["inputs","configurations","histories"],"all message lengths and sequences of messages, all payload sizes, all envelope sizes, all protocol versions",
 "Size limits are only met at boundary lengths; the recorded tests never fill a block to the limit after the upgrade.",
 [S+"powershell.py",S+"wsman.py"],[("Fragmenter.fragment/fragment_multiple",S+"powershell.py"),("RunspacePool._process_session_capability",S+"powershell.py"),("WSMan._calc_envelope_size/update_max_payload_size",S+"wsman.py")],
 [("max_size","payload bytes available to one fragment",S+"powershell.py"),("max_envelope_size/max_payload_size","negotiated limits",S+"wsman.py")],["bytes handed to shell send/command/open"])
p("C03","Fragment and message headers follow the MS-PSRP wire layout",
 "A fragment is encoded as its object id and fragment id (8 bytes each, big endian), one flag byte (1 start, 2 end), the 4-byte big-endian payload length and the payload; decoding the concatenation of any fragments gives back each field and leaves exactly the unread bytes. A message is encoded as destination and message type (4 bytes each, little endian), the pool id and pipeline id as 16-byte little-endian GUIDs (the nil GUID when there is no pipeline), and its data as UTF-8; decoding inverts this and ignores a leading byte-order mark in the data. Message type numbers are those that MS-PSRP assigns to each message kind.",
 ["inputs"],"all field values, all payload bytes, all ids, all message types",
 "Tests compare a few recorded byte strings; fields above one byte and boundary payload lengths are never exercised.",
 [S+"powershell.py",S+"messages.py"],[("Fragment.pack/unpack",S+"powershell.py"),("Message.pack/unpack",S+"messages.py")],(),["Fragment.pack","Message.pack"])
p("C04","String escaping round-trips every Python string and emits XML-safe text",
 "For every string that Python can encode in UTF-16, escaping it for CLIXML and unescaping the result gives back the same string. The escaped text contains no control characters, no raw surrogates and no substring that a decoder (this one, or PowerShell's, which takes _x and _X) would mistake for an escape other than the ones the encoder wrote. Unescaping accepts any text without error and changes only well-formed _xHHHH_ escapes.",
 ["inputs"],"all strings over all code points, all lengths",
 "The tests use about ten literal strings; escapes depend on adjacent characters and on alignment in the UTF-16 form.",
 [S+"serializer.py"],[("Serializer._serialize_string/_deserialize_string",S+"serializer.py"),("escape regular expressions and replacement callbacks",S+"serializer.py")],(),["Serializer.serialize/deserialize of strings"])
p("C05","Serialising a value and deserialising it returns an equal value",
 "For every value built from None, strings, booleans, integers, floats, decimals, bytes, GUIDs, dates, durations, versions, XML, script blocks and chars, and from lists, queues, stacks, dictionaries, generic objects and the typed protocol objects containing them, serialising to CLIXML and deserialising gives an equal value of the corresponding type (decimals, dates, durations and versions as the text they are written with, generic objects when their type list names a known structure, queues and stacks in their documented order). Each element carries the tag of its own value, independent of its siblings and of anything serialised earlier, and serialising a value does not change the caller's type metadata. An integer without an explicit tag is written as a 32-bit integer if it fits, else 64-bit, else unsigned 64-bit, else as a decimal whose text comes back.",
 ["inputs","histories"],"all leaf values, all nestings and mixtures of containers, all sequences of serialisations with one serialiser or one metadata object",
 "Tests serialise fixed documents with homogeneous containers; contamination between siblings or calls needs mixtures they do not contain.",
 [S+"serializer.py",S+"complex_objects.py",S+"messages.py"],[("Serializer.serialize/deserialize and per-tag functions",S+"serializer.py"),("ComplexObject/GenericComplexObject metadata",S+"complex_objects.py")],
 [("obj/tn reference tables","ids handed out for objects and type lists",S+"serializer.py")],["Serializer.serialize","Serializer.deserialize"])
p("C06","Type-name and object references always resolve to what they were written for",
 "Within one serialisation every object's reference id is unique, and an object whose type list was written before under the same serialiser refers back to a type-name entry holding exactly its own complete list of type names, while an object with any other list gets its own new entry with a fresh id. On deserialisation a type-name reference yields exactly the list defined under that id, and an object reference yields the very object defined under that id.",
 ["inputs","histories"],"all sequences of objects with arbitrary type lists, all reference ids",
 "Tests only contain objects whose type lists differ in the first name.",
 [S+"serializer.py"],[("Serializer._create_tn/_create_obj/_get_types_from_obj/_get_obj_id",S+"serializer.py")],[("tn, obj","tables keyed by id",S+"serializer.py")],["TN/TNRef/Ref elements"])
p("C07","Secure strings travel only encrypted, under the exchanged session key",
 "A secure string is serialised only as AES-CBC ciphertext of its UTF-16LE form with PKCS7 padding under the exchanged session key, deserialising it gives back the original string, and with no session key serialisation is refused with an error before any text is produced. The public key sent to the server is the 16-byte MS-PSRP header, the little-endian exponent and the 256-byte little-endian modulus of a freshly generated key, sent at most once per exchange. The session key taken from the server's reply is the RSA-PKCS1 decryption of the byte-reversed blob after its 12-byte header, the exchange waits until that key arrives, fails once the configured timeout is exceeded, and is started when the server asks for it.",
 ["inputs","histories"],"all strings, all keys, all timings and interleavings of pool messages during the exchange, all timeouts",
 "Tests use one recorded key and one string; timing, refusal and other moduli are not covered.",
 [S+"serializer.py",S+"powershell.py"],[("Serializer._serialize_secure_string/_deserialize_secure_string",S+"serializer.py"),("RunspacePool.exchange_keys/_process_encrypted_session_key",S+"powershell.py")],
 [("cipher","session cipher once exchanged",S+"serializer.py"),("_key_exchanged/_exchange_key","exchange progress",S+"powershell.py")],["SS elements","stdin fragments of the PUBLIC_KEY message"])
p("C08","Runspace pool operations obey the pool's state machine",
 "Open succeeds only before opening and leaves only when the server has reported a new state, having sent every fragment of the negotiation messages in order; it does nothing on an opened pool. Close sends at most one close and does nothing on a closed, closing or broken pool; disconnect requires an opened pool and also marks its pipelines disconnected, connect requires a disconnected pool, and each is a no-op when already in its target state. An operation in any other state raises an invalid-state error before anything is sent and leaves the state unchanged, and a broken state reported by the server raises an error.",
 ["histories","inputs"],"every state of the pool, every operation, every server state report, every size of the negotiation data",
 "Tests walk the happy path and a few invalid states; the full state x operation table and multi-fragment openings are not covered.",
 [S+"powershell.py"],[("RunspacePool.open/close/connect/disconnect/reset_runspace_state/get_command_metadata",S+"powershell.py"),("RunspacePool._process_runspacepool_state",S+"powershell.py")],[("state","pool state as last set or reported",S+"powershell.py")],["shell/connection requests","exceptions"])
p("C09","Pipeline operations obey the pipeline's state machine",
 "A pipeline can begin only from the not-started, stopped, completed or failed state with at least one command; stop does nothing when stopping or stopped, otherwise requires a running pipeline, sends exactly one Ctrl-C signal for that pipeline, ends in the stopped state and removes it from the pool; connect requires a disconnected pipeline; a nested pipeline requires a running parent that was not connected to remotely. Any other call raises an invalid-state error before anything is sent and leaves the state unchanged. Waiting for the end polls exactly while the state is running, treats a server operation timeout as an empty answer, raises any other fault, and returns all output received in order.",
 ["histories","inputs","fault_sequences"],"every state, every operation, every sequence of poll results, timeouts and faults",
 "Tests replay recorded conversations; few combinations of state and operation or faults between polls are met.",
 [S+"powershell.py"],[("PowerShell.begin_invoke/end_invoke/poll_invoke/stop/connect/create_nested_power_shell/close",S+"powershell.py")],[("state","pipeline state",S+"powershell.py")],["signal/command requests","exceptions","output"])
p("C10","Every received message reaches exactly one right destination, in order",
 "Each message in a response is handled exactly once, in arrival order: output goes to the pipeline's output, and error, warning, verbose, debug, progress and information records each to the stream of that name of the pipeline that was polled, while pool messages update the pool (state, limits, versions, user events, private data, warnings). A pipeline state message sets that state, adds its error record if any to the error stream, and sets the had-errors flag exactly when the state is failed. A message of a kind that is not meant for the client is passed over without disturbing any other message, and no message changes another pipeline.",
 ["inputs","histories"],"all sequences of messages of all types and payloads, with and without a polled pipeline",
 "Recorded sessions contain a handful of message orders.",
 [S+"powershell.py"],[("RunspacePool._parse_responses and the _process_* handlers",S+"powershell.py"),("PowerShell._process_*",S+"powershell.py")],[("streams/output/state/had_errors","what the user reads",S+"powershell.py")],["ps.output","ps.streams","pool attributes"])
p("C11","Pool calls are answered by the response carrying their own call id",
 "Setting minimum or maximum runspaces, resetting the state and querying available runspaces on an opened pool each use a call id never used before, send one request carrying that id and the requested value, and finish only with the response that carries the same id, whatever responses to other outstanding calls arrive first. A negative answer raises an error and leaves the limit unchanged; a positive one stores the requested limit; the availability query returns the server's count and changes no limit. Setting an unchanged limit, or a limit on a pool not yet open, sends nothing and the latter stores the value. A command metadata query asks for exactly the names, command types, namespaces and arguments given and returns one entry per command found, in order.",
 ["histories","inputs"],"all values, all orders and interleavings of availability responses, all pool states",
 "Tests have one outstanding call and immediate answers.",
 [S+"powershell.py"],[("min_runspaces/max_runspaces setters, get_available_runspaces, reset_runspace_state",S+"powershell.py"),("_process_runspacepool_availability",S+"powershell.py")],[("ci_table/_ci_counter","outstanding calls",S+"powershell.py")],["pool limits","requests sent"])
p("C12","A host call runs the right host method once and answers with its own ids",
 "For each host method identifier the matching method of the host, its UI or its raw UI is called exactly once with the arguments decoded from the request, and when it returns a value exactly one response is sent, with the call id and method id of the request, of the kind (pool or pipeline) of the request, to the pipeline that asked. When the method returns nothing, or no host is configured, nothing is sent. The same dispatch holds for pool and pipeline calls.",
 ["inputs"],"all method identifiers, all call ids, all argument values, both kinds of call, all returned values including falsy ones",
 "Tests call a few methods with recorded arguments.",
 [S+"powershell.py",S+"host.py",S+"complex_objects.py"],[("RunspacePool._process_host_call",S+"powershell.py"),("PSHost.run_method and argument decoding",S+"host.py")],(),["pr stream fragments","host method invocations"])
p("C13","The built pipeline contains exactly the commands, arguments and statements added",
 "The pipeline sent to the server contains the added commands and scripts in order, each with exactly its own parameters and arguments in the order given, and the end of a statement exactly where the user ended one or the pipeline ends. With several statements the first one is the main command list and all of them appear in order in the extra command list, each with its own commands; decoding gives the same commands with the same statement ends. Stream merges apply to the last command only, are refused when unsupported by the protocol version or when the target is invalid, and clearing resets the pipeline.",
 ["programs","inputs"],"all sequences of builder calls, all argument values, all protocol versions",
 "Tests build five or six fixed pipelines.",
 [S+"powershell.py",S+"complex_objects.py"],[("PowerShell.add_*/merge_*/clear_commands",S+"powershell.py"),("Pipeline.cmds/extra_cmds/_get_statements, Command, CommandParameter",S+"complex_objects.py")],[("commands","ordered command list",S+"powershell.py")],["CreatePipeline message"])
p("C14","Pipeline input arrives completely, in order and terminated exactly once",
 "Every object supplied as input, whether a single value, a list or a generator of values or lists, is sent to the pipeline exactly once and in order, followed by exactly one end-of-input message after the last object, also when there are no objects at all. The create request declares no input exactly when no input is given. The first fragment of the create request opens the command and all further fragments and inputs are sent in order to the command id the server returned.",
 ["inputs"],"all inputs: every length and grouping of generator results, including empty ones, all fragment counts",
 "Tests send one list and one generator of short strings.",
 [S+"powershell.py"],[("PowerShell.begin_invoke/_invoke",S+"powershell.py")],(),["stdin fragments"])
p("C15","WSMan requests carry the right headers and responses must match them",
 "Every WSMan request carries the action of the operation, the resource URI, the endpoint, the session id, a fresh message id, the configured locale, envelope size and operation timeout, and exactly the given options and selectors in order. A response that relates to another message id is rejected with an error, and otherwise its body is returned unchanged. A per-call timeout of n >= 1 seconds puts n in the operation timeout and uses n+2 seconds for the HTTP timeout of that request only.",
 ["inputs","configurations"],"all operations, resource URIs, options, selectors, timeouts and response ids",
 "Recorded tests compare a few requests with fixed ids and never see a mismatched response.",
 [S+"wsman.py"],[("WSMan._invoke/invoke/_create_header and the operation methods",S+"wsman.py"),("OptionSet/SelectorSet",S+"wsman.py")],(),["bytes handed to the transport","exceptions"])
p("C16","Server faults surface as errors carrying the server's own details",
 "When the server answers with a SOAP fault the operation raises a WSMan fault error that carries the fault's own code, machine, reason, provider, provider path and provider fault, each empty only when the fault does not contain it, with numeric codes read exactly. A failed HTTP answer without a SOAP fault is raised as a transport error with its status and text, status 401 as an authentication error, and no fault is ever returned as a success.",
 ["inputs"],"all fault documents: every combination of present and absent fields and all codes, all HTTP statuses and bodies",
 "Tests cover a few recorded faults.",
 [S+"wsman.py",S+"exceptions.py"],[("WSMan._parse_wsman_fault",S+"wsman.py"),("_TransportHTTP._send_request",S+"wsman.py"),("WSManFaultError",S+"exceptions.py")],(),["exceptions raised"])
p("C17","Message encryption is never skipped, weakened or used with a stale context",
 "When the encryption policy requires wrapping, every SOAP message leaves the client only in wrapped form; before the first one, and again after a timed-out request, an empty authentication request is sent to establish the security context, and every message is wrapped by the context that the latest such request established, with the protocol of the authentication in use. 'auto' means wrapping exactly for plain HTTP, 'always' for both, 'never' for none, and combinations that cannot be wrapped (such as plain HTTP with basic or certificate authentication) are refused at construction. When the policy does not require wrapping the message is sent unchanged.",
 ["configurations","fault_sequences","inputs"],"all combinations of scheme, authentication and policy, all messages, all sequences of timeouts and successes",
 "Tests construct some combinations and never fail a request between two wrapped messages.",
 [S+"wsman.py"],[("_TransportHTTP.__init__/send",S+"wsman.py")],[("encryption","current wrapping context or none",S+"wsman.py"),("wrap_required","policy",S+"wsman.py")],["requests handed to the session"])
p("C18","Encrypted message framing round-trips and rejects length mismatches",
 "Wrapping a message yields one encrypted part, or for CredSSP messages above 16 KiB one part per 16 KiB slice, in order and covering the message exactly, each part holding its own length, security header length, security header and ciphertext, followed by one closing boundary, with the multi-part content type exactly for the latter case. Unwrapping such a document, with the standard boundary or with the space that some servers insert, passes each part's header and ciphertext unchanged to the security context and returns the concatenation of the results. A part whose decrypted length differs from its declared length is rejected with an error.",
 ["inputs"],"all message lengths and contents, all security header and ciphertext bytes, all numbers of parts (payloads not containing the boundary marker itself)",
 "Tests use three or four recorded messages.",
 [S+"encryption.py"],[("WinRMEncryption.wrap_message/unwrap_message/_wrap_message",S+"encryption.py")],(),["wrap_message/unwrap_message results"])
p("C19","Only receive is retried after a timeout, within bounds and with back-off",
 "After a connect or read timeout the same request is sent again only if it is a Receive, at most the configured number of times over the whole send, with growing delays scaled by the configured back-off; every other request fails at the first timeout with that timeout. A request that succeeds is not sent again and the answer returned is the answer to the last attempt. Connection-level retries follow the configured counts, never repeat after a read failure, and cover exactly the status codes 425, 429 and 503.",
 ["fault_sequences","configurations"],"all sequences of timeouts and successes, all retry counts and back-off factors, all operations",
 "Tests simulate one or two failures with one configuration.",
 [S+"wsman.py",S+"shell.py"],[("_TransportHTTP.send/_build_session",S+"wsman.py"),("WSMan.receive",S+"wsman.py")],(),["session.send calls","sleep calls"])
p("C20","Authentication uses the scheme asked for and never degrades",
 "The authentication provider used is the configured one; when negotiating, the strongest offered scheme is used in the order Negotiate, Kerberos, NTLM, and a server that offers none of the acceptable schemes is an authentication error. Credentials and protocol options given by the user reach the authentication handler unchanged, missing ones are refused for basic, CredSSP and certificate authentication, and certificate authentication requires HTTPS. The channel binding token is the hash of the server certificate with the certificate's own hash algorithm (SHA-256 instead of MD5 or SHA-1), computed when the connection uses TLS and sending it is enabled.",
 ["configurations","inputs"],"all authentication headers, providers, option combinations and certificate hash algorithms",
 "Tests cover a few headers and certificates.",
 [S+"negotiate.py",S+"wsman.py"],[("HTTPNegotiateAuth handlers",S+"negotiate.py"),("_TransportHTTP._build_auth_*/_get_auth_kwargs",S+"wsman.py")],(),["Authorization headers","auth handler arguments"])
p("C21","A WinRS process returns all its output, its exit code and its final state",
 "The standard output and error of a remote process are the concatenation, in order, of the decoded stream data of every receive answer for that command, with nothing lost or moved between streams, and the exit code and state are those last reported. Waiting for the process continues until the server reports the done state, ignoring operation-timeout faults and raising all others. Opening an opened shell and closing a closed one do nothing, closing uses the shell's own id, and requests carry the working directory, code page, environment, arguments and input as given.",
 ["histories","inputs","fault_sequences"],"all sequences of receive answers, stream contents, states, exit codes and faults",
 "Tests replay recorded answers of short commands.",
 [S+"shell.py"],[("WinRS.receive/open/close/command/send/signal",S+"shell.py"),("Process.invoke/begin_invoke/poll_invoke/end_invoke/send/signal",S+"shell.py")],[("stdout/stderr/rc/state","accumulated result",S+"shell.py")],["Process attributes"])
p("C22","Copied and fetched files are transferred completely and verified",
 "Copying sends the whole local file (which does not change meanwhile), in order, in base64 pieces, and finally the SHA-1 of all the bytes sent; fetching writes exactly the decoded pieces received, in order, into a temporary file, and moves it to the destination only if its SHA-1 equals the hash reported by the server, otherwise raising an error and leaving no file. A script failure reported by the server is raised as an error. Executing a command or script returns the decoded output, the streams and whether errors occurred as the server reported them. Cleaning CLIXML error output gives exactly its decoded error texts, in order, and leaves other text unchanged.",
 ["inputs"],"all file contents and lengths, all piece boundaries, all server answers",
 "Tests copy two files and fetch one.",
 [S+"client.py"],[("Client.copy/fetch/execute_cmd/execute_ps",S+"client.py")],(),["input sent","local files","return values"])
p("C23","Version comparison is numeric, component-wise and total",
 "Comparing two dotted versions answers whether the first is equal to or newer than the second by comparing the components as numbers from left to right, with missing trailing components counting as zero. In particular the relation is reflexive, total and transitive, and 2.10 is newer than 2.9 while 2.0 equals 2.",
 ["inputs"],"all pairs of dotted decimal versions with any number of components",
 "Tests compare fewer than ten pairs.",
 [S+"_utils.py"],[("version_equal_or_newer",S+"_utils.py")],(),["return value"])
p("C24","Checking liveness never opens a connection and reports the pool truthfully",
 "A liveness check never establishes a new network connection: while it runs any attempt to connect fails at once, in that thread only, and once it is over connecting is possible again also when checks are nested or end in an error. It returns false, and marks the pool closed so that closing sends nothing, exactly when the server says the shell is disconnected or unknown, the check times out or the connection is gone; it returns true with the pool state unchanged when the shell answers; any other fault is raised.",
 ["fault_sequences","schedules","histories"],"all outcomes of the request, all nestings of checks and threads, http and https",
 "Tests simulate a few faults and one connection loss.",
 [S+"powershell.py",S+"_pool_manager.py"],[("RunspacePool.is_alive",S+"powershell.py"),("DisableNewConnectionsContext, create_request_adapter",S+"_pool_manager.py")],[("context variable","whether connecting is disabled in this context",S+"_pool_manager.py")],["connect calls","return value","pool state"])
p("C25","Disconnected pools and pipelines are rebuilt faithfully and can be reconnected",
 "Querying the server's pools yields one pool object per shell reported, each in the disconnected state with that shell's id, and holding one disconnected pipeline per command reported for that shell under that command's id. Connecting to such a pool sends the negotiation and connect messages to that shell id and then uses it; reconnecting a pool disconnected by this client sends a reconnect for its own shell id. The list of disconnected pipelines of a pool is exactly those in the disconnected state.",
 ["inputs","histories"],"all sets of shells and commands reported, all ids, all pipeline states",
 "Tests use recordings with one or two pools and pipelines.",
 [S+"powershell.py"],[("RunspacePool.get_runspace_pools/connect/_connect_new_client/_connect_existing_client/create_disconnected_power_shells",S+"powershell.py")],[("pipelines","pipelines by id",S+"powershell.py")],["returned objects","requests sent"])
p("C26","Multi-dimensional arrays and flag sets keep their shape and values",
 "Converting a rectangular nested list of any depth and size (an empty list ends the nesting) to the wire form of a host-call array and back gives the same nested list, the lengths being the sizes of its dimensions and the elements in row-major order; a received array can be read and sent again unchanged. Enumeration and flag values are transmitted as the numbers and text that their names stand for, and a flag set is shown as exactly the names of the flags it contains.",
 ["inputs"],"all rectangular shapes, all element values, all enumeration and flag values",
 "Tests use two shapes and single flags.",
 [S+"complex_objects.py"],[("Array",S+"complex_objects.py"),("Enum/flag classes",S+"complex_objects.py")],(),["Array.mal/mae/array","str() of enums"])
p("C27","Pools and pipelines are created with exactly the settings asked for",
 "Opening a pool creates one shell at the resource URI of the configuration asked for, under the pool's id, with the idle timeout and profile option asked for and protocol version 2.3 required, and sends its runspace limits, thread options, apartment state, application arguments and the versions 2.3, 2.0 and 1.1.0.1. Creating a pipeline sends its own apartment state when one is given (any, STA included) and else that of the pool, its remote stream options, whether it takes input, is added to the history, is nested and redirects the shell's errors, and its history string. Both describe the client's host truthfully: whether there is a host, a user interface and a raw user interface and, if there is, the ten settings of the raw user interface under their numbers with their kinds and the values they have at that moment.",
 ["inputs"],"all limits, options, states, timeouts, arguments, histories and hosts with all values of their settings",
 "Tests open pools with default settings and one host.",
 [S+"powershell.py",S+"messages.py",S+"complex_objects.py",S+"shell.py"],[("RunspacePool.__init__/open, PowerShell.begin_invoke",S+"powershell.py"),("InitRunspacePool, CreatePipeline, SessionCapability",S+"messages.py"),("HostInfo, _HostDefaultData, Pipeline",S+"complex_objects.py")],(),["create request","INIT_RUNSPACEPOOL and CREATE_PIPELINE messages"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
