LEVEL = (
    "Bounded symbolic execution: psrpcore's own source is instrumented from /repo's working tree on every run and executed with symbolic inputs; "
    "z3 decides every branch and assertion for all values within the bounds written in the evidence file, with exhaustion of the path tree reported. "
    "Trusted: the engine's models of C library functions (struct, codecs, expat/ElementTree contract, re; validated by running the repository's own test suite under the engine and by replaying path inputs on the plain code), z3. "
    "Nothing is claimed beyond the stated bounds."
)
NOT_APPLICABLE = {}

prop(
    "C01",
    "Queued messages leave complete, in order and labelled, at any payload limit",
    "Whatever messages are queued and whatever payload size limit is passed for each payload taken, concatenating the fragments handed to the transport yields exactly the queued messages, unchanged and in the order queued, each finished exactly once with increasing fragment numbers and an object id used for no other message. "
    "No payload exceeds its limit or mixes data of different pipelines or stream types, and draining always terminates. "
    "A limit too small for a fragment is refused without effect.",
    ["inputs", "histories"],
    "all limits in [22, 2^31] chosen anew per payload, all interleavings of queueing and taking within the history bound, all targets and stream types",
    "The tests take payloads with one or two fixed limits; the off-by-one boundaries between header size, remaining room and message length need every limit at every queue content.",
    ["_base.py", "_payload.py"],
    [("data_to_send", "_base.py"), ("PSRPMessage.fragment", "_payload.py"), ("create_fragment", "_payload.py")],
    ["data_to_send payloads", "next_event of the peer"],
    [("send queue", "messages not yet fully handed out", "_base.py")],
)
prop(
    "C02",
    "Messages and fragments use the MS-PSRP wire layout and decode to what was sent",
    "Every message and fragment the library emits is byte for byte what MS-PSRP prescribes for its direction, type, identifiers and data, and decoding those bytes returns exactly the same direction, type, identifiers and data. "
    "A nil pipeline id means no pipeline, a UTF-8 byte order mark before the data is not part of it, and reserved flag bits and bytes after a fragment do not affect how it decodes.",
    ["inputs"],
    "all GUIDs, all message types, all 64-bit object and fragment ids, all short data",
    "The tests decode three hand-made byte strings; endianness, GUID byte order and flag handling must be right for every value.",
    ["_payload.py", "types/_psrp.py"],
    [("create_message/unpack_message", "_payload.py"), ("create_fragment/unpack_fragment", "_payload.py"), ("message type numbers", "types/_psrp.py")],
    ["data_to_send payloads", "decoded headers"],
)
prop(
    "C03",
    "Reassembly delivers a message exactly when its fragments came complete, in order",
    "Received data yields one event per message, carrying exactly the message's data and addressed to its pool and pipeline, as soon as its last fragment has arrived and in the order the messages completed, no matter how the byte stream is cut into payloads, how fragments of different messages interleave, or when events are polled. "
    "A fragment that is missing, repeated or out of sequence is reported as an error, never joined into a message, and leaves other messages unaffected.",
    ["inputs", "schedules", "fault_sequences"],
    "all cut positions, all interleavings of two fragmented messages, all fragment number sequences, all polling schedules within the bound",
    "The tests feed whole payloads in order and one wrong fragment id.",
    ["_base.py", "_payload.py"],
    [("next_event", "_base.py"), ("receive_data", "_base.py"), ("unpack_fragment", "_payload.py")],
    ["next_event"],
    [("partial messages", "fragments received per object id", "_base.py")],
)
prop(
    "C04",
    "Text survives the wire unchanged and never breaks the XML",
    "Any string, as a value, property name, property value, dictionary key or entry, type name, string form, script block, URI or XML value, comes back from serialization and deserialization unchanged and with its type. "
    "The XML produced contains only characters an XML parser accepts and preserves, whatever the string.",
    ["inputs"],
    "all strings up to the length bound over all Unicode code points, including control characters, escape look-alikes such as _x000A_, lone surrogates and non-BMP characters",
    "The tests check a fixed list of strings; escaping interacts across neighbouring characters.",
    ["types/_serializer.py", "types/_primitive.py"],
    [("string escaping", "types/_serializer.py"), ("string unescaping", "types/_serializer.py")],
    ["serialize/deserialize"],
)
prop(
    "C05",
    "Integers and characters keep type and value; out-of-range values are refused",
    "Each fixed-width integer and the character type accepts exactly the values of its .NET counterpart, and every accepted value comes back from serialization and deserialization with the same type and value under the element MS-PSRP prescribes. "
    "A plain int is sent as Int32 when it fits and as Int64 otherwise, never silently altered. "
    "Arithmetic and bitwise operators on a fixed-width integer give the exact result in the same type, or are refused when it does not fit.",
    ["inputs"],
    "all integers in [-2^70, 2^70] for each type; all characters",
    "The tests check the edges of some types only.",
    ["types/_primitive.py", "types/_serializer.py"],
    [("range check", "types/_primitive.py"), ("element names", "types/_serializer.py")],
    ["constructors", "serialize/deserialize"],
)
prop(
    "C06",
    "Durations survive the wire to the tick",
    "Every .NET TimeSpan (a PSDuration or timedelta at 100 ns resolution, either sign, of any size .NET holds) comes back from serialization and deserialization as a PSDuration of exactly the same length, and is written as a valid ISO 8601 duration. "
    "A duration text written by a peer, with any of its parts absent and any number of fraction digits up to seven, is read as the length it denotes.",
    ["inputs"],
    "all durations within +-10675199 days at 100 ns resolution (by component), all texts of the listed shapes",
    "The tests check about ten durations; carries, signs and zero stripping interact.",
    ["types/_serializer.py", "types/_primitive.py"],
    [("_serialize_duration/_deserialize_duration", "types/_serializer.py"), ("PSDuration", "types/_primitive.py")],
    ["serialize/deserialize"],
)
prop(
    "C07",
    "Date/times survive the wire to the tick, with their kind and offset",
    "Every .NET DateTime (a PSDateTime or datetime from 0001-01-01 to 9999-12-31 at 100 ns resolution; without zone, UTC or with a whole-minute offset) comes back from serialization and deserialization as a PSDateTime with the same date, time, fraction, and zone or absence of one, and is written as a fixed-width ISO 8601 text. "
    "A date text written by a peer with zero to seven fraction digits, and no zone, Z or an offset, is read as the instant it denotes.",
    ["inputs"],
    "all dates, all times of day at 100 ns resolution, all whole-minute offsets (one group of components symbolic at a time)",
    "The tests check about ten dates.",
    ["types/_serializer.py", "types/_primitive.py"],
    [("_serialize_datetime/_deserialize_datetime", "types/_serializer.py"), ("PSDateTime", "types/_primitive.py")],
    ["serialize/deserialize"],
)
prop(
    "C08",
    "Duration and date/time arithmetic and comparison is exact to the nanosecond",
    "Adding, subtracting, negating, copying and comparing PSDuration values and their absolute value and truth, alone or mixed with timedelta on either side, and shifting a PSDateTime by a duration or subtracting and comparing date/times (PSDateTime or datetime on either side), gives exactly the result of the same operation on whole nanoseconds, as a PSDuration or PSDateTime with normalised parts. Copying a PSDateTime, replacing some of its parts or moving it to another zone keeps everything else to the nanosecond. The text of either tells it to the nanosecond.",
    ["inputs"],
    "all durations up to a quarter of the TimeSpan range (texts: up to 200 days); date/times at any nanosecond on days around month, year and leap ends, shifted by up to 2 days (PSDuration) or 60 days (timedelta)",
    "The tests check a handful of sums; carries between nanoseconds and microseconds and reflected operands are where it goes wrong.",
    ["types/_primitive.py"],
    [("PSDuration operators", "types/_primitive.py"), ("PSDateTime operators", "types/_primitive.py")],
    ["operator results"],
)
prop(
    "C09",
    "Versions, GUIDs, booleans and byte arrays keep their value; versions order",
    "A PSVersion, GUID, bool or byte array comes back from serialization and deserialization with the same type and value, under the element and in the text form MS-PSRP prescribes. "
    "A version text is read as its components or refused when it is not 2 to 4 dot-separated numbers; versions (and version texts) compare by component with an absent component before 0. "
    "Indexing, slicing and iterating a PSByteArray gives the bytes of the underlying bytes.",
    ["inputs"],
    "all 2^128 GUIDs; all versions of 2 to 4 components below 2^31; all texts of up to 6 characters as versions; all byte strings of up to 7 bytes",
    "The tests use a few fixed values of each.",
    ["types/_primitive.py", "types/_serializer.py"],
    [("PSVersion", "types/_primitive.py"), ("PSGuid", "types/_primitive.py"), ("PSByteArray", "types/_primitive.py")],
    ["serialize/deserialize", "comparison operators"],
)
prop(
    "C12",
    "Pool operations are accepted exactly in their valid states, else change nothing",
    "Each operation on a client or server runspace pool is accepted exactly in the pool states it is valid in; it then leads to its documented state and queues exactly its messages, addressed to the peer and in order after what was queued before. "
    "Refused for the state, a pool with pipelines left or a peer too old for it, it raises the documented error naming the current state and leaves state, send queue and limits as they were; where it is unnecessary (opening an opened pool, asking for the key again, setting a limit to its value) it queues nothing. "
    "A server announces each state it enters except the (dis)connection ones, and the client's state follows every announcement.",
    ["inputs", "histories"],
    "every operation from every pool state (one step from an arbitrary state, so histories of any length), every protocol version 0.0-99.99, every Int32 limit",
    "The tests try a few operations in one wrong state each.",
    ["_base.py", "_client.py", "_server.py"],
    [("state guards", "_client.py"), ("state guards", "_server.py"), ("close/disconnect/reconnect", "_base.py")],
    ["state", "raised errors", "data_to_send payloads"],
    [("pool state", "RunspacePoolState of either side", "_base.py")],
)
prop(
    "C13",
    "Pipeline operations are accepted exactly in their valid states, else do nothing",
    "Each operation on a client or server pipeline is accepted exactly in the pipeline states it is valid in; it then leads to its documented state and queues exactly its message, for that pipeline's id. "
    "Refused for the state or a peer too old for it, it raises the documented error naming the current state and leaves state, send queue and pipeline table as they were. "
    "No operation touches another pipeline or the pool's state. A server pipeline announces every state it enters, a stop with a PipelineStopped error, and the client's pipeline follows every announcement.",
    ["inputs", "histories"],
    "every operation from every pipeline state next to another pipeline in any state (one step from an arbitrary state), every protocol version 0.0-99.99, every pair of server state changes",
    "The tests try a few operations in one wrong state each.",
    ["_base.py", "_client.py", "_server.py"],
    [("Pipeline guards", "_base.py"), ("client pipeline guards", "_client.py"), ("ServerPipeline", "_server.py")],
    ["state", "raised errors", "data_to_send payloads", "events"],
    [("pipeline state", "PSInvocationState of either side", "_base.py")],
)
prop(
    "C14",
    "Every request and host call is answered once, by its own answer",
    "However many availability, limit and reset requests or host calls are in flight, each carries a call id of its own, and its answer reaches it alone, with its value and kind, whatever order answers are given in. "
    "The runspace limits of either side change only by what the server agreed to, in the order it agreed. "
    "An answer to a request never made or already answered, or one of the wrong type, is refused and has no effect; host methods without a result carry the reserved id -100 and take no response.",
    ["inputs", "histories", "schedules"],
    "two or three requests or host calls of any kind in flight, every answer order and outcome, every Int32 count and call id, all host methods",
    "The tests answer one request at a time, in order, with one value.",
    ["_base.py", "_client.py", "_server.py", "_host.py"],
    [("client requests", "_client.py"), ("runspace_availability_response", "_server.py"), ("host_call / host_response", "_base.py"), ("HostMethodIdentifier", "types/_host.py")],
    ["events", "runspace limits", "raised errors", "data_to_send payloads"],
    [("requests in flight", "call ids without an answer", "_base.py"), ("runspace limits", "agreed limits", "_server.py")],
)
prop(
    "C15",
    "Opening or reconnecting a pool agrees on all settings before it is open",
    "Opening a pool gives both sides the same limits, thread options, apartment state, application arguments, private data, capabilities and host information, all as given; reconnecting gives a client the disconnected pool's, limits that the connection names replacing the pool's. "
    "Events appear in protocol order naming the right pool, neither side is open before the exchange is complete, and a connection meant for another pool is refused. Nothing is left to be sent afterwards.",
    ["inputs", "histories"],
    "all Int32 limits, every option and state, an argument or private data entry of any Int32 and text, protocol versions 2.0-9.9, all 2^128 foreign pool ids, every host default data value",
    "The tests open a pool with a few fixed settings.",
    ["_base.py", "_client.py", "_server.py", "types/_psrp.py"],
    [("ClientRunspacePool.open/connect", "_client.py"), ("process of capability, init and connect", "_server.py"), ("HostInfo", "_host.py")],
    ["pool attributes", "events", "state", "data_to_send payloads"],
    [("pool settings", "limits, options, arguments and private data", "_base.py")],
)
prop(
    "C16",
    "Secure strings only cross the wire encrypted with the exchanged session key",
    "Before a session key is exchanged, sending anything that contains a secure string is refused with nothing queued and no pipeline started. "
    "Afterwards a secure string, alone or nested, arrives as a secure string that decrypts to the same text, its ciphertext being AES-256-CBC of the PKCS7 padded UTF-16 text under the session key, and nothing else that is sent or shown depends on the secret. "
    "A secure string received can be sent on through any pool. Public key and session key have the layout MS-PSRP prescribes.",
    ["inputs", "histories"],
    "every secret of 0-3 code points and of 7-16 BMP characters, by itself or in a list, dictionary or object, both directions, either side asking for the key",
    "The tests send one or two ASCII secrets; the padding, the UTF-16 conversion and leaks must be right for every text.",
    ["_crypto.py", "_client.py", "_server.py", "types/_primitive.py", "types/_serializer.py"],
    [("PSRemotingCrypto", "_crypto.py"), ("PSSecureString", "types/_primitive.py"), ("exchange_key", "_client.py"), ("request_key", "_server.py")],
    ["data_to_send payloads", "events", "PSSecureString.decrypt", "raised errors"],
    [("session key", "the key of the pool, once exchanged", "_base.py")],
)
prop(
    "C10",
    "Object graphs arrive with the same sharing, properties and type names",
    "In whatever graph objects are linked, through properties, container entries or themselves, what was one object arrives as one and what were two arrive as two, even when they are equal, each with its own value, properties, type names and string form. "
    "References in a received document resolve by identifier wherever the properties and entries stand. Messages never refer into each other, and serializing again gives the same document.",
    ["inputs", "histories"],
    "every graph of two objects with two links or three with one, sharing in every kind of container, its keys and its properties, equal and distinct values of every extendable type, any type names, property names and identifiers",
    "The tests serialize a few fixed graphs; identity and type name tables must be right for every arrangement of sharing and equality.",
    ["types/_serializer.py", "types/_base.py"],
    [("_get_ref_id", "types/_serializer.py"), ("_Serializer.deserialize", "types/_serializer.py"), ("type name references", "types/_serializer.py")],
    ["identity of deserialized objects", "properties", "type names"],
    [("reference tables", "objects and type names already sent in this message", "types/_serializer.py")],
)
prop(
    "C11",
    "Collections keep kind, entries and order, and sending leaves them unchanged",
    "A list, stack, queue, enumerable or dictionary, native, PowerShell or user defined, arrives as its kind with the same entries in the same order, dictionary entries under their keys whatever type those have, in whatever order a peer writes them. "
    "Serializing leaves the collection as it was. Indexing finds entries first and then properties, and no two collections share entries or properties.",
    ["inputs", "histories"],
    "all collections of up to 3 entries of every kind with arbitrary keys and values, all key types, peers' documents in every layout, indexes in [-5, 5]",
    "The tests round-trip a few fixed collections.",
    ["types/_collection.py", "types/_serializer.py"],
    [("PSDictBase, PSListBase, PSQueueBase, PSStackBase", "types/_collection.py"), ("_Serializer.serialize", "types/_serializer.py"), ("_Serializer.deserialize", "types/_serializer.py")],
    ["deserialized collections", "the collection sent", "lookups"],
    [("collection entries", "entries and properties of a collection", "types/_collection.py")],
)
prop(
    "C17",
    "A pipeline reaches the server as the client built it, within what the peer knows",
    "Starting a pipeline tells the server exactly the commands and scripts added, in order, with their parameters, scope, statement boundaries, redirections and options, or the names, types, patterns and arguments of a metadata request. "
    "Without an apartment state of its own a pipeline takes the pool's. Redirection fields are sent exactly to peers whose protocol version knows them, and everyone else gets the version 2 fields. "
    "A pipeline with nothing to run, or a redirection to an impossible stream, is refused with nothing sent and nothing changed.",
    ["inputs"],
    "up to 3 commands (thorough 5) with up to 4 parameters of every kind, every statement break, every pair of redirections (thorough all five), all options, every protocol version 2.0-9.9 or none known",
    "The tests build some twenty fixed pipelines against one protocol version each.",
    ["_pipeline.py", "_command.py", "_client.py", "_events.py"],
    [("PowerShell", "_pipeline.py"), ("GetMetadata", "_pipeline.py"), ("Command", "_command.py"), ("ClientPowerShell", "_client.py"), ("CreatePipelineEvent", "_events.py")],
    ["CreatePipelineEvent.pipeline", "ServerPipeline.metadata", "data_to_send payloads"],
)
prop(
    "C18",
    "Host calls and their answers arrive with method, parameters and values intact",
    "Each host call helper sends the MS-PSRP method number for what was asked, with its parameters encoded as MS-PSRP prescribes, for the pool or pipeline that made it, and the client gets the same values back in their Python types, two-dimensional buffers with every cell in place. "
    "A method that returns nothing has no call id and cannot be answered; any other is answered once, and the answer or error arrives under its call id, method and pool or pipeline, with the value given. Host messages use the prompt response stream.",
    ["inputs"],
    "every method of ServerHostRequestor and ClientHostResponder, on pool and pipeline; one number at a time any Int32; all enum values; buffers of every shape up to 3x3 (thorough 4x4)",
    "The tests make each call once with one set of values.",
    ["_host.py", "types/_host.py", "_events.py", "_client.py", "_server.py"],
    [("ServerHostRequestor", "_host.py"), ("ClientHostResponder", "_host.py"), ("host parameter and result decoding", "_events.py"), ("is_void", "types/_host.py")],
    ["host call and response events", "data_to_send payloads"],
    [("open calls", "host calls awaiting an answer, by call id", "_client.py")],
)
prop(
    "C19",
    "CLIXML text keeps every object, its stream and the order",
    "Whatever objects are serialized to a CLIXML document, each under any stream or none, come back from it, with or without streams and with or without a header, one for one and in order, with their values and streams; the list given is left as it was. "
    "Everything written to a CLIXML shell arrives in ClixmlOutput once, in its stream, as the record written, however the writes are split over calls to data_to_send; the header stands once, before the first data, and no data means no text. "
    "A secure string written to a shell can be decrypted to what it was. Results and sources never share entries.",
    ["inputs", "histories"],
    "documents of up to 3 objects of every kind under every stream with markup and line end characters; histories of up to 3 writes (thorough 4) to any stream with data taken anywhere between",
    "The tests serialize one object per stream with fixed text and take the data once.",
    ["types/_serializer.py", "_clixml_shell.py"] ,
    [("serialize_clixml", "types/_serializer.py"), ("deserialize_clixml", "types/_serializer.py"), ("ClixmlShell", "_clixml_shell.py"), ("ClixmlOutput", "_clixml_shell.py")],
    ["deserialize_clixml results", "ClixmlOutput", "data_to_send text"],
    [("shell buffer", "entries written and not yet taken, and whether the header was written", "_clixml_shell.py")],
)
prop(
    "C20",
    "Objects read and write the right property, and share none with other objects",
    "Reading or writing a property by attribute or index reaches the extended property before the adapted one, an alias reads its target, a script property calls its getter and setter, and a typed property holds its type or null. "
    "Only force replaces a property. A constructor takes exactly the declared properties in order, the mandatory ones always. What is set on or added to one object or class appears nowhere else, except that objects made later have what was added to their class. "
    "On the wire and back each property stays adapted or extended, in order. An object is an instance of the type names it has.",
    ["inputs", "histories"],
    "every history of 2 (thorough 3) writes and additions over two objects and their class with any Int32 values; every split of up to 3 (4) constructor arguments; typed properties with any Int64; up to 2 (3) type names each side",
    "The tests follow a few fixed sequences with fixed values.",
    ["types/_base.py", "types/_serializer.py"],
    [("PSObject", "types/_base.py"), ("PSPropertyInfo", "types/_base.py"), ("PSType", "types/_base.py"), ("add_member", "types/_base.py"), ("ps_isinstance", "types/_base.py")],
    ["attributes and items of objects", "__dict__", "serialized properties"],
    [("properties", "adapted and extended properties of an object or class", "types/_base.py")],
)
prop(
    "C21",
    "Enums and flags arrive as the member sent, under .NET's name and number",
    "Every member of an enum and every combination of flags is sent as its number in the declared integer type with the type names .NET gives it and its name as text, and arrives as that very member; a number without a name is not accepted as a member. "
    "An enum the receiver does not know arrives as its number with its type names and text. Operations on flags give flags with the right bits, and members cannot hold a number their type cannot. "
    "Nothing a peer sends with a member changes it or what is sent for it later.",
    ["inputs"],
    "every member and combination of bits of the 18 enums, every Int32 received as any of them (flags: 0-599), enums declared over all 8 integer types at their limits, Python enums of every kind",
    "The tests try a handful of members of three or four enums.",
    ["types/_enum.py", "types/_complex.py", "types/_host.py", "types/_serializer.py"],
    [("PSEnumMeta, PSEnumBase, PSFlagBase", "types/_enum.py"), ("_serialize_enum_to_string", "types/_serializer.py"), ("_Serializer.deserialize", "types/_serializer.py"), ("TypeRegistry", "types/_base.py")],
    ["serialized elements", "deserialized members"],
    [("members", "the members of an enum, shared by the process", "types/_enum.py")],
)

prop(
    "C22",
    "What a pipeline reports arrives once, in order, as the record that was written",
    "Every error, debug, verbose, warning, progress and information record, output, input and event that is written arrives exactly once, at its own pipeline (or the pool) on the other side, in the order written, as an event of its kind. "
    "The record carries what it was given: every field, empty, absent or set, and how the command was invoked when that is included. A refused record sends nothing; one pipeline's end does not touch another.",
    ["inputs", "schedules"],
    "every history of up to 3 (thorough 4) reports of two pipelines, in payloads whole or of 60 bytes; records with every field set, empty or absent, text of 0-3 letters, one any Int32 and the other numbers of two digits",
    "The tests write one record of each kind with one combination of fields.",
    ["_server.py", "_client.py", "_events.py", "types/_complex.py", "types/_psrp.py", "types/_serializer.py"],
    [("ServerPipeline.write_*", "_server.py"), ("PSRPEvent", "_events.py"), ("ErrorRecord, InvocationInfo, ProgressRecord", "types/_complex.py"), ("_Deserializer", "types/_serializer.py")],
    ["events of the receiving pool", "records in them"],
    [],
)
