#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["wire protocol responses of the tag server"],hook_needed=None)))

p("C01","A tag read returns exactly what was last written there, and nothing else",
 "A successful read of any byte range of a tag returns, byte for byte, the values most recently written to that range (zero if never written), for every data type, array size and offset. A write changes only the addressed bytes of the addressed tag; no other tag, and no other byte of that tag, changes. A read or write that is not entirely inside the tag is refused with an error and changes nothing.",
 ["histories","inputs"],"every sequence of tag creations, reads and writes by any modules, with any index, offset and size",
 "Tests write a few fixed values at offset 0 and read them back; they never enumerate offsets/sizes around tag ends or sequences over several tags.",
 ["src/server/tagbase.c","src/server/message.c","src/lib/libmsg.c"],
 [("tag_read/tag_write bounds checks and copies","src/server/tagbase.c"),("msg_tag_read/msg_tag_write","src/server/message.c")],
 [("_db","array of tags with their data areas","src/server/tagbase.c")])
p("C02","A masked write changes exactly the bits selected by the mask",
 "A successful masked write replaces exactly the bits of the addressed range whose mask bit is one and leaves every other bit of the tag, and every other tag, unchanged. A masked write that is not entirely inside the tag is refused and changes nothing.",
 ["inputs","histories"],"every tag, offset, size, data and mask, from every prior tag content",
 "Tests use a couple of mask values on one offset.",
 ["src/server/tagbase.c","src/server/message.c","src/lib/libdata.c"],[("tag_mask_write","src/server/tagbase.c"),("msg_tag_mask_write","src/server/message.c")])
p("C03","The tag directory is consistent: names, indexes, types and counts always agree",
 "After any history of adding, re-adding, resizing and deleting tags, looking a tag up by name and by index gives the same definition, every live tag is found by its name and no deleted or rejected name is; an index identifies the same tag for as long as that tag lives and is never handed to another tag. Re-adding a tag with the same type is idempotent (growing keeps existing data and gives zeroed new elements); a conflicting re-add, an invalid name or an invalid type is refused and changes nothing. The server's own tag count and highest-index tags always agree with the directory.",
 ["histories","inputs"],"every sequence of add / grow / conflicting add / delete / lookup operations, including ones that make the tag table itself grow",
 "Tests add a few fixed names; binary-search insertion/removal order, growth in the middle of a history and deletes followed by re-adds are not enumerated.",
 ["src/server/tagbase.c","src/server/message.c"],[("tag_add/tag_del/_add_index/_get_by_name","src/server/tagbase.c")],
 [("_index","name-sorted index","src/server/tagbase.c")])
p("C04","Read-only and system tags cannot be changed through any write path",
 "A read-only tag can only be changed by the server or by the module that owns it: for everybody else each way of changing data - plain write, masked write, group write, atomic operation, mapping - is refused or has no effect on it. The server's own system tags can neither be written nor deleted nor redefined by modules, and a module's own status tag can only be deleted by the module going away.",
 ["histories","inputs"],"every write path crossed with every kind of protected tag, for any module and any history",
 "Tests check single write paths on single tags.",
 ["src/server/tagbase.c","src/server/message.c","src/server/groups.c","src/server/atomic.c","src/server/mapping.c"],
 [("is_tag_readonly / attribute checks","src/server/message.c"),("tag_del ownership check","src/server/tagbase.c")])
p("C05","An event notification is sent when, and only when, its condition occurs",
 "For every write to the data an event watches, the owner is notified exactly once if the event's documented condition holds for that write (write, change, set, reset, equal, greater, less, deadband, deleted) and not at all otherwise; writes outside the watched range never notify. Comparison conditions are edge triggered per element, and when send-data is selected the notification carries the watched range's new value.",
 ["histories","inputs"],"every event type, data type, element position and sequence of writes over boundary values",
 "Tests use one or two values per event type; they do not cover every sequence of values (re-arming), all types at their limits, or unaligned bit ranges.",
 ["src/server/events.c","src/server/tagbase.c"],[("event_check/_event_hit/_send_event","src/server/events.c")])
p("C06","Event registrations live exactly as long as they should and notify only their owner",
 "An event stays registered until its owner deletes it, its tag is deleted or its owner disconnects; notifications go only to the owner, carrying the id that was returned when it was added. Deleting one event never affects another, deleting an unknown event is reported as an error, and a disconnect removes exactly the disconnecting module's events.",
 ["histories"],"every interleaving of event add, delete, options, writes, tag deletes and module disconnects across modules",
 "List-unlink and cleanup bugs need particular orders of add/delete/disconnect that tests do not enumerate.",
 ["src/server/events.c","src/server/module.c","src/server/message.c"],[("event_add/event_del/events_cleanup","src/server/events.c")])
p("C07","A mapped destination always receives its source's value, and nothing else",
 "After a module's write (of any kind) that touches a mapping's source, the mapping's destination holds the source's value, bit for bit, for whole values and for bit ranges at any offset, and nothing outside the destination range changes. The copy raises the destination's events but does not itself trigger further mappings, so mapping cycles terminate. A deleted mapping, or one whose source or destination tag was deleted, copies nothing any more and deleting one mapping leaves all others working.",
 ["histories","inputs"],"every set of mappings (including bit offsets and cycles), every order of map add / delete / tag delete / write",
 "Tests check a handful of copies; unlink order, chains and unaligned bit copies are not enumerated.",
 ["src/server/mapping.c","src/server/tagbase.c"],[("map_add/map_del/map_check","src/server/mapping.c")])
p("C08","An override shows the forced value while active and the real value once removed",
 "While a tag's override is enabled, reads return the forced bits where the override applies and the underlying bits elsewhere; writes continue to update the underlying value underneath. Disabling or deleting the override reveals the latest underlying value, the override query reports exactly the bits overridden and the underlying value, and the installed/active override counters agree with the overrides that exist.",
 ["histories","inputs"],"every sequence of override add / partial add / set / clear / delete / get with writes and reads at any offset",
 "Tests use one tag and one linear history.",
 ["src/server/tagbase.c","src/server/message.c"],[("override_add/override_del/override_set/override_get","src/server/tagbase.c")])
p("C09","A tag group reads and writes its members as the individual operations would",
 "Reading a group returns the concatenation, in order, of what individual reads of its members would return at one instant; writing a group has the same effect - including events, mappings and write protection - as writing every member individually. A group belongs to the module that created it, stays valid until deleted or its owner disconnects whatever other groups come and go, and an invalid, deleted or foreign group id is refused.",
 ["histories","inputs"],"every history of group add / delete / read / write by several modules with any handles and ids",
 "Tests add and delete groups in one order and never mix lifetimes.",
 ["src/server/groups.c","src/server/message.c","src/lib/libmsg.c"],[("group_add/group_del/group_read/group_write","src/server/groups.c")])
p("C10","An atomic operation applies its exact arithmetic to exactly its operand range",
 "Every atomic operation (increment, decrement, not, or, and, nor, nand, xor, xnor) replaces each element of the addressed range by the operation's result in that element's own type and changes nothing else, and is reported (events, mappings) like a write. Operations on ranges not inside the tag, unsupported types or unknown operations are refused and change nothing.",
 ["inputs","histories"],"every operation, data type, element/bit position, count and operand over all 8-bit and boundary values",
 "Tests use a few operands at index 0.",
 ["src/server/atomic.c","src/server/message.c","src/lib/libmsg.c"],[("atomic_op and the per type loops","src/server/atomic.c")])
p("C11","A queue tag delivers each written element once, in order",
 "Elements written to a queue tag are returned by reads in first-in-first-out order, each exactly once and unaltered, independent of how pushes and pops interleave and how often the queue grew; reading an empty queue reports that it is empty. Queues do not influence each other or other tags.",
 ["histories"],"every interleaving of pushes and pops past several growth steps and wrap-arounds",
 "Ring-buffer growth only goes wrong at particular head/tail positions, which tests hit once or not at all.",
 ["src/server/virtualtag.c","src/server/tagbase.c"],[("read_queue/write_queue ring buffer","src/server/virtualtag.c")])
p("C12","A compound data type means the same layout to the server and to every client",
 "For every compound type accepted by the server, asking for it by name or by id returns the same definition that was created; the total size the server allocates equals what the client library computes, and members never overlap: distinct members, elements and bits live at distinct positions inside the type. Redefining a type with the same definition is idempotent, with a different one is refused; malformed definitions are refused.",
 ["inputs","histories"],"every type built from up to a bounded number of members of any base or compound type, any counts, mixing bits and words",
 "Tests use a few fixed structs; padding after bits and nested bits is where layouts disagree.",
 ["src/server/tagbase.c","src/lib/libcdt.c"],[("cdt_create/serialize_datatype/type_size","src/server/tagbase.c"),("dax_get_typesize/_parse_next_member","src/lib/libcdt.c")])
p("C13","Retained tags keep their last value across restarts and crashes",
 "After a restart every retained tag exists again with its definition and the value last written before the shutdown - for every type and repeated restarts - and deleted or non-retained tags do not come back. After a crash at any instant each retained tag has a value that was actually written to it, no older than the last write the server had finished storing.",
 ["crash_points","histories"],"every point at which storage I/O can stop, over bounded histories of add / write / delete / restart",
 "Tests restart the server once with a clean shutdown.",
 ["src/server/retain.c","src/server/tagbase.c"],[("ret_init/ret_tag_write/ret_add_tag","src/server/retain.c")])
p("C14","No message from a client can crash, corrupt or hang the tag server",
 "Whatever bytes a connected client sends as a message - any command, any length, any field values, registered or not - the server answers or ignores it, stays memory-safe and keeps serving every other client correctly; a message too short to hold the fixed fields of its command is refused; a refused message leaves tags, events, groups and mappings unchanged.",
 ["inputs","histories"],"every message command with every small length and every combination of boundary field values, from representative server states",
 "Tests only send well-formed messages.",
 ["src/server/message.c","src/server/buffer.c","src/server/tagbase.c","src/server/groups.c","src/server/events.c","src/server/mapping.c","src/server/atomic.c"],
 [("message length/field validation in msg_* handlers","src/server/message.c")])
p("C15","Message boundaries do not depend on how the byte stream is delivered",
 "However the transport splits, delays or coalesces the bytes of client messages - within one connection or interleaved across connections - the server executes each complete message exactly once, in order per connection, with the same results, and never acts on an incomplete message. A connection that stops mid-message or disconnects affects nobody else.",
 ["schedules","fault_sequences"],"every fragmentation of short message sequences and every interleaving of fragments across two connections",
 "On a local socket the tests' messages always arrive whole.",
 ["src/server/buffer.c","src/server/message.c"],[("buff_read reassembly","src/server/buffer.c"),("msg_receive select loop","src/server/message.c")])
p("C16","Client calls get their own answers and events under any thread schedule",
 "For any scheduling of application threads sharing one connection, the connection thread and the server, each library call returns the response to its own request, never deadlocks, and each notification the server sends is delivered to its callback exactly once and in order. Disconnecting, or the server going away, makes pending and later calls return an error instead of hanging or returning another call's data.",
 ["schedules","fault_sequences"],"all interleavings of up to three threads with a bounded number of preemptions, short reads and server disconnects",
 "Tests are single threaded or rely on real-time luck.",
 ["src/lib/libmsg.c","src/lib/libevent.c","src/lib/libinit.c"],[("connection thread, msg_lock/msg_cond, event queue","src/lib/libmsg.c")],obs=["libdax API return values and callbacks"])
p("C17","A tag name resolves to exactly the data it denotes",
 "Resolving a tag expression (name, array index, member path, bit number, count) yields a handle that denotes precisely the named elements: writing through it changes exactly those bits and reading through it returns exactly those values, positioned from the start of the buffer; out-of-range or malformed expressions are refused. The name the library gives back for a handle resolves to the same data.",
 ["inputs"],"every expression over a family of tags and nested types: all indexes, members, bits and counts",
 "Tests check a table of a few dozen expressions.",
 ["src/lib/libcdt.c","src/lib/libdata.c"],[("dax_tag_handle/_parse_next_member/dax_fqn","src/lib/libcdt.c"),("dax_tag_read/dax_tag_write bit alignment","src/lib/libdata.c")],obs=["dax_tag_handle, dax_fqn, dax_tag_read, dax_tag_write"])
p("C18","Values survive conversion to text and back, and out-of-range text is clamped",
 "For every integer, boolean, character, time and finite floating value, converting it to text and back gives the same value, written only to the addressed element. A whole number written as text that is outside the range of an integer type is clamped to the nearest limit with an overflow or underflow indication, and no conversion writes outside the given buffer.",
 ["inputs"],"all values of 8 and 16 bit types, all boundary neighbourhoods of wider types, all array indexes and buffer sizes in bounds",
 "Tests sample a few values.",
 ["src/lib/libfunc.c"],[("dax_val_to_string/dax_string_to_val","src/lib/libfunc.c")],obs=["dax_val_to_string, dax_string_to_val"])
p("C19","Module registration and its bookkeeping tags always match who is connected",
 "Each registered module has its own status tag for exactly as long as it is registered, distinct from any other module's even if the names are equal; a disconnect (orderly or not) removes that module's tag, events, groups and nothing else, and the last-module and tag-count information stays consistent. A connection that has not registered cannot act as one, and its disconnect disturbs nobody.",
 ["histories","fault_sequences"],"every interleaving of connect, register, operations, unregister and abrupt disconnect of up to three modules with equal or different names",
 "Tests start modules in one order and rarely check what a disconnect leaves behind.",
 ["src/server/module.c","src/server/message.c","src/server/virtualtag.c"],[("module_register/module_unregister","src/server/module.c")])
p("C20","The Modbus slave/server answers every request as the Modbus standard prescribes",
 "For every request frame the Modbus slave or server either returns the data of the addressed coils/registers, stores the written values in exactly the addressed ones and echoes the request, or returns the proper exception (illegal function, illegal address, bad quantity) and changes nothing. No request, of any length or content, makes it read or write outside its own buffers or registers.",
 ["inputs","histories"],"all function codes crossed with all boundary addresses, quantities and frame lengths, over all four register spaces",
 "Tests use a compliant client library that only sends valid frames.",
 ["src/modules/modbus/modbus.c","src/modules/modbus/database.c","src/modules/modbus/mbserver.c","src/modules/modbus/mbslave.c"],
 [("create_response","src/modules/modbus/modbus.c"),("buffer handling in the server/slave loops","src/modules/modbus/mbserver.c")],obs=["reply frames; register tags"])
p("C21","The Modbus master transfers exactly the configured data and survives any reply",
 "Each Modbus command sends a request that encodes exactly its configured node, function, address, quantity and tag data, and a valid reply puts exactly the replied values in the command's data. Any other reply - exception, wrong unit, wrong function, short, long, bad checksum or none - never changes the data, never reads or writes outside the command's buffer, and leaves the command's error indication set; timeouts, checksum errors and exceptions are counted as such.",
 ["inputs","fault_sequences"],"all functions and quantities at their limits crossed with all reply faults",
 "Tests talk to a well-behaved simulator.",
 ["src/modules/modbus/modbus.c","src/modules/modbus/mbcmds.c","src/modules/modbus/mbutil.c"],[("send*request/get*response/handleresponse","src/modules/modbus/modbus.c")],obs=["request frames, command data and counters"])
p("C22","Configuration precedence: command line over file over default, for every option",
 "For every option, the value in effect is the one given on the command line if any, otherwise the one in the module's configuration file, otherwise its default; options marked for one source ignore the other, and an unknown or missing value never takes a neighbouring option's place.",
 ["configurations"],"every combination of sources (absent, file, command line short or long) for several options at once",
 "Tests exercise a few combinations.",
 ["src/lib/libopt.c","src/server/options.c"],[("dax_configure source order","src/lib/libopt.c")],obs=["dax_get_attr after dax_configure"])
p("C23","The master process starts, watches and restarts modules exactly as configured",
 "The supervisor starts each configured process once, in the configured order and waiting each one's delay, with the configured arguments, user and group; it restarts one that ends exactly if configured to, not before its restart delay (none, then 100 ms doubling up to a minute, reset after a run of more than a minute) and soon after it; it never runs two copies of one process, only signals processes of its own that exceed their configured limits, asking them to end before it kills them, and on shutdown stops everything it started. Exits, signals, failed forks and execs arriving in any order and at any point never lose track of a process.",
 ["fault_sequences","histories"],"every sequence of child exits, failed starts, exceeded limits, time steps and shutdown over up to three processes (and 24 at once), signals at every point of the main loop",
 "No test reaches the supervisor's restart logic under concurrent exits.",
 ["src/master/process.c","src/master/mstr_config.c"],[("process_start_all/process_scan","src/master/process.c")],obs=["fork/exec/kill/wait calls"])
p("C24","The client's tag cache never serves a superseded or foreign definition",
 "Whatever sequence of lookups, additions and deletions fills and overflows the cache, a lookup by name or index on a connection returns the definition the server would give for tags that connection itself created or deleted, never another tag's, with any cache size.",
 ["histories","configurations"],"every sequence of byname / byindex / add / delete over more tags than the cache holds, for small cache sizes",
 "Tests use a cache larger than their number of tags.",
 ["src/lib/libdata.c","src/lib/libmsg.c"],[("cache_tag_add/check_cache_*/cache_tag_del","src/lib/libdata.c")],obs=["dax_tag_byname, dax_tag_byindex"])
p("C25","Lua scripts read back exactly the values they write, for every type",
 "Writing any value its type can represent - number, boolean, string, array or structure, whole or in part, by name or by handle - to a tag from Lua and reading it back in Lua gives an equal value; only the addressed elements and members change; a value that is not a table where an array or structure is expected raises a Lua error without changing anything, and no Lua value crashes the script host or changes other data.",
 ["inputs"],"every data type crossed with boundary values, array shapes and nested structures",
 "Tests use a few fixed scripts.",
 ["src/lib/lua/libdaxlua.c"],[("daxlua_to_dax/daxlua_from_dax","src/lib/lua/libdaxlua.c")],obs=["Lua API results"])
p("C26","daxlua runs each script exactly when it should",
 "A script of the daxlua module runs exactly once for every notification of its trigger event, whatever the number of worker threads, as long as no more than event_queue_size scripts are waiting; once at startup if auto_run is set; and once per interval, in the configured order and at the configured rate, if it belongs to an interval thread. It never runs while it is disabled or after it has failed with fail_on_error set, whoever disables it (configuration, itself, another script, a trigger, the status tag) and however many runs are already queued, and never twice at the same time. The status tags show whether a script is enabled or failed, its executions and each thread's overruns. No number of scripts and no full queue stops the module.",
 ["schedules","histories","configurations"],"every sequence of triggers, time steps, enable and disable commands and errors over 1-3 workers and queues of 1-4 entries; every schedule of the module's threads around startup and triggers",
 "Tests start the module and run one or two scripts.",
 ["src/modules/daxlua/threads.c","src/modules/daxlua/scripts.c","src/modules/daxlua/luaopt.c"],[("_q_push/_q_pop, __queue_thread, _interval_thread","src/modules/daxlua/threads.c"),("run_script, write_script_tag","src/modules/daxlua/scripts.c")],obs=["which scripts ran when; the daxlua_scripts and daxlua_threads tags"])
p("C27","daxlua scripts see and leave exactly the configured variables",
 "When a daxlua script runs, every READ variable holds its tag's current value, every static variable its configured value, _firstrun and the execution count are right and _trigger_data holds the data of the trigger event; when it ends, the value of every WRITE variable that its tag can represent is in the tag and no other tag has changed. Variables of one script never reach another, a variable that cannot be transferred does not affect the others, a tag that appears later is picked up, and this stays so over any number of runs and errors.",
 ["histories","schedules"],"every sequence of runs with different effects, writes by other modules and late tag creation over READ, WRITE, READ+WRITE and static variables; hundreds of runs with errors; every schedule of two runs",
 "Tests check one global tag once.",
 ["src/modules/daxlua/scripts.c","src/modules/daxlua/luaif.c"],[("_receive_globals/_send_globals","src/modules/daxlua/scripts.c"),("fetch_tag/send_tag","src/modules/daxlua/luaif.c")],obs=["values the scripts see; the tags"])
p("C28","The historical logger records exactly the configured points",
 "For every configured tag that exists, however late it is created, the histlog module's log holds, in order and with the time at which they happened: a NULL and the current value when recording begins; for a WRITE tag every value written; for a CHANGE tag exactly the values that differ from the last compared one by at least the threshold, each preceded by the last value that was skipped; a NULL between two writes that are further apart than the tag's timeout; and a NULL at shutdown. No write is lost while the logger starts; values of every type are readable in the log as they were; data reaches the file within a few flush intervals, file rotation loses nothing, and purging removes exactly the old data.",
 ["histories","inputs","schedules"],"every sequence of writes around the threshold, pauses around the timeout, late creation, rotation and SIGTERM, with the file and the SQLite plugin; every sequence of extreme values of every type; every schedule of writes during the start",
 "No test runs the historical logger.",
 ["src/modules/histlog/histlog.c","src/modules/histlog/plugins/file/dhl_file.c","src/modules/histlog/plugins/sqlite/dhl_sqlite.c"],[("_event_callback/_test_difference/_add_tags/getout","src/modules/histlog/histlog.c"),("write_data/flush_data","src/modules/histlog/plugins")],obs=["the log files and the SQLite database"])
p("C29","The MQTT module transfers exactly the configured messages",
 "Every message received on a topic that matches a configured subscription (MQTT '+' and '#' rules) reaches the subscription's tags: the raw bytes in order, or the values its filter function returns; a filter that fails or returns nothing usable changes nothing. Every notification of a publisher's trigger publishes exactly one message with the configured topic, QoS, retained flag and payload (the raw values of its tags, or its filter's result; none if the filter fails). Tags that are created after the module started begin to work within bounded time; after the broker was unreachable or the connection was lost the module reconnects and subscribes again; the configured broker, user, password and QoS are used. Every received message is released, no message, configuration or outage crashes the module, and SIGTERM disconnects and ends it.",
 ["histories","inputs","schedules"],"every sequence of messages, triggers, tag writes, connection losses and time steps up to the depth; every pair of small topic filters and topics; every payload length; every schedule of a message against start-up, reconnection and publishing",
 "The existing test checks one subscription against a fake library with one message.",
 ["src/modules/mqtt/mqtt.c","src/modules/mqtt/mqttopts.c"],[("subscriptions, publishers, reconnection","src/modules/mqtt")],obs=["what the module asks of the MQTT library","the tags"])
p("C30","Every command given to the command line client is executed exactly once and truthfully",
 "Every command given to daxc, typed, with -x or as a line of a file of any length, is executed exactly once, in order, and does to the tag server exactly what it says: it adds and deletes tags and types, writes the given elements and no others, performs the atomic operation, adds mappings, adds, sets, clears and deletes overrides, and adds and deletes events. read and list show what is on the server; an event is reported once for every change while waiting or polling. A command that cannot be carried out changes nothing and prints that; comment lines and blank lines do nothing. No command crashes or ends daxc but exit and the end of the input; -x and files end it when they are done unless -i is given, and -q suppresses the reports of success until then.",
 ["histories","inputs"],"every sequence of about 180 commands, valid and invalid, up to the depth, with overrides, mappings and events in every state; every file of up to three (thorough four) lines of ten kinds, with and without a final newline, and every combination of -x, -i and -q",
 "The tests run a few commands whose results they do not compare with the server.",
 ["src/modules/daxc/daxc.c","src/modules/daxc/daxc_tag.c","src/modules/daxc/daxc_event.c"],[("runcmd/runfile","src/modules/daxc/daxc.c"),("tag_*, override_*, atomic_op, list_*","src/modules/daxc/daxc_tag.c"),("event_*","src/modules/daxc/daxc_event.c")],obs=["what daxc prints","the tags, types, overrides and events on the server","exit status"])
p("C31","Every log message goes to exactly the log services whose topics contain it",
 "Every message that a program logs goes exactly once to each log service configured with add_log_service() whose list of topics contains one of the message's topics, to that service's destination (standard output, standard error, the system log with its priority), in the order logged, with the program's name, its topic and its text unchanged (long texts may be cut, not before 255 bytes), and to no other. Without a service it goes to standard output if the default topics contain it: FATAL and ERROR, or those given with -T, or all with -v; once a service is configured these options no longer matter. All fifteen topic names, ALL, unknown and empty names in a list work as documented; a call of add_log_service() that cannot be carried out adds nothing and harms nothing; at least 32 services can be added. What print() is given in a configuration is logged verbatim with topic CONFIG; configdir and calling_module are set, and a module is known to the server and the log by the name of its command line, else of its configuration, else its own.",
 ["inputs","histories"],"every sequence up to the depth of add_log_service() calls of every kind, valid and not, and of print() calls, under every form of the log options, for modules and the server, and for each a message of every topic and of several topics; all 65536 sets of topic names",
 "No test looks at where a message goes; the tests of the library replace the logger.",
 ["src/lib/logger/daxlog.c","src/lib/libopt.c","src/server/options.c","etc/log.conf.sample"],[("_add_service/dax_log/dax_parse_log_topics","src/lib/logger/daxlog.c"),("dax_configure","src/lib/libopt.c"),("readconfigfile","src/server/options.c")],obs=["lines on standard output and error","messages to the system log","module tags on the server"])
p("C32","Every operation of the Lua library does what the same operation of the client library does",
 "A Lua script that uses tag_add, tag_del, tag_get, tag_handle, cdt_create, atomic_op, override_add/set/clr/del, map_add/get/del, event_add/del/poll gets the effect of the same operation sent to the server with the same arguments: it succeeds or raises an error in the same cases, changes the same bits of the same tag and nothing else, gives back handles and descriptions with the same content, and each event that the server sends for a registration of the script calls its function exactly once. The operands of atomic operations, overrides and events have every bit of the value in the script, for every data type.",
 ["inputs","histories"],"every data type, way of naming the place (name, element, range, handle), operation and boundary operand; every sequence of these up to the depth",
 "The tests of the Lua library use a few values of a few types and never compare with what a direct request does; event data is only tested with small numbers.",
 ["src/lib/lua/libdaxlua.c","src/lib/libmsg.c","src/lib/libconv.c","src/lib/libevent.c"],[("_atomic_op/_override_add/_map_add/_event_add/_tag_add/_cdt_create","src/lib/lua/libdaxlua.c"),("dax_event_add/dax_atomic_op/dax_map_add","src/lib/libmsg.c"),("mtos_generic","src/lib/libconv.c")],obs=["results of the Lua functions","tag data, overrides and mappings at the server","callbacks in the script"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
