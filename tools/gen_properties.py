#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
ST='crates/sourisd/src/v1_routes/state.rs'; DB='crates/sourisd/src/v1_routes/db.rs'; VA='crates/sourisd/src/v1_routes/value.rs'
MA='crates/sourisd/src/main.rs'; ER='crates/sourisd/src/error.rs'
VAL='crates/sourisdb/src/values.rs'; STO='crates/sourisdb/src/store.rs'; HUF='crates/sourisdb/src/utilities/huffman.rs'
MO='crates/mouse/src/main.rs'; MV='crates/mouse/src/value_utils.rs'
BIN='crates/sourisdb/src/types/binary.rs'; INT='crates/sourisdb/src/types/integer.rs'; BITS='crates/sourisdb/src/utilities/bits.rs'
AC='crates/sourisdb/src/client/async_client.rs'; SC='crates/sourisdb/src/client/sync_client.rs'; AX='crates/sourisdb/src/axum.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s} for s in state]
    if obs: a["observe_at"]=obs
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Concurrent requests are linearizable",
 "However many clients talk to one daemon at once, every response to get_db, get_value, get_all_db_names, add_db, add_db_with_content, rm_db, clear_db, add_kv and rm_kv is explained by executing the requests one at a time, in an order that respects real time (each takes effect between its being sent and its being answered). A request whose answer never arrived may have taken effect at most once, after it was sent.",
 ["schedules","histories"],"every interleaving of any number of clients' requests on any number of worker threads, with the periodic save running in between, and every request history",
 "A test samples one interleaving of a handful of requests; a stale cache insert or a read outside the lock needs one specific preemption between two awaits on a multi-thread runtime.",
 [ST,VA,DB],[("dbs mutex guards the map; each handler mutates under it",ST+": new_db, new_db_with_contents, clear_db, remove_db, add_key_value_pair, remove_key"),("serialised-database cache and its invalidation",ST+": get_db, db_cache")],
 ["SourisState.dbs","SourisState.db_cache"],["HTTP request/response history at the simulated sockets"],"cfg(souris_sim) entry point so a simulator can call sourisd's main")
p("P02","Reads show every acknowledged change",
 "Once a change has been acknowledged, every later get_db of that database contains exactly what get_value reports key by key and what the acknowledged changes produced, and get_all_db_names lists exactly the databases that exist, each once. No read ever shows an older version of a database than one already acknowledged or already read.",
 ["schedules","histories"],"every history of changes and reads, every interleaving, any cache state (hit, miss, eviction among more than 200 databases) and saves in between",
 "The cached copy and the live map only diverge for particular orders of mutate, read and invalidate, and only for some kinds of change.",
 [ST],[("cache fill and invalidate",ST+": get_db and every mutator"),("name listing",ST+": get_all_db_names")],["SourisState.dbs","SourisState.db_cache"],["HTTP responses"])
p("P03","Reported outcomes are truthful",
 "The status and body of each response tell what really happened: add_db/add_db_with_content answer 201 exactly when they created the database and 200 when it existed (keeping, clearing, merging or replacing its contents as overwrite_existing says, with incoming keys winning a merge), add_kv's CreationResult names exactly the case that applied (and changes nothing for FoundExistingKey and UnableToFindDB), a missing database is 410, a missing key or an invalid name or body is 400, and a request answered with 4xx changed nothing. Every request the daemon can parse gets one of the documented answers.",
 ["inputs","histories"],"every request sequence, every combination of flags, every present/absent combination of database and key",
 "The outcome depends on the product of endpoint, flags, prior state and concurrent changes; the repository has no tests of the daemon at all.",
 [ST,DB,VA,ER],[("status/CreationResult selection",ST+": new_db, new_db_with_contents, add_key_value_pair, remove_key"),("error to status mapping",ER+": IntoResponse for SourisError")],["SourisState.dbs"],["HTTP status and body"])
p("P04","Graceful restart restores everything exactly",
 "After a graceful stop (SIGTERM or SIGINT) and a start on the same data directory, the daemon serves exactly the same set of databases with exactly the same keys and bit-identical values of every type as before, and this holds again for any number of further restarts. A daemon that has saved once always starts again.",
 ["inputs","histories","schedules"],"every set of databases and stores with every value type, nesting and size, every history that produced it, and every number of restarts",
 "Depends on the whole chain serialise, compress, write, list in meta, read, decompress, deserialise for arbitrary contents (empty, one-symbol, long, repetitive, boundary lengths) that a few hand-picked stores do not reach.",
 [ST,MA,STO,VAL,HUF,BIN,INT,BITS],[("save and load",ST+": SourisState::save, SourisState::new, write_to_file"),("codec",STO+": Store::ser/deser; "+VAL+": Value::ser/deser"),("compression",BIN+", "+HUF)],["<base>/<name>.sdb","<base>/meta.sdb"],["reads through the restarted daemon"])
p("P05","Values keep their exact content over the wire",
 "Any value or store accepted by the daemon (every one of the 16 value types, any nesting, key text, length and byte content, any chunking of the request on the network) is returned by get_value and get_db with the same type and the same content, bit for bit. Two different accepted values are never returned as the same one.",
 ["inputs","fault_sequences"],"every value and store, every key and database name, every fragmentation and delay of the byte stream",
 "The codec's variable-length integers, inline length bits, Huffman trees and three competing compressors each switch at value-dependent boundaries; unit tests cover each in isolation with a few values.",
 [VAL,STO,AX,VA,HUF,BIN,INT],[("value codec",VAL+": Value::ser, Value::deser"),("store framing",STO+": Store::ser, Store::deser"),("extractors",AX)],None,["HTTP bodies"])
p("P06","Shutdown loses no acknowledged change",
 "Every change acknowledged to a client before the process exits from a graceful shutdown - including changes answered after the signal arrived, while the server drains its connections - is present after the next start.",
 ["schedules","histories","crash_points"],"every arrival time of SIGTERM/SIGINT relative to in-flight requests, periodic saves and disk operations",
 "The window between the final save and the end of accepting requests is a schedule, not an input.",
 [MA,ST],[("shutdown sequence: signal, stop broadcast, saver join, server drain, final save",MA+": shutdown_signal, main")],["data directory"],["acknowledgements vs. contents after restart"])
p("P07","A killed daemon comes back with whole databases",
 "If the daemon process is killed at any instant (everything already handed to the operating system survives), the next start succeeds and every database then holds exactly one complete version that it really had - the last saved one or a later one - never a torn, empty, mixed or lost one. A database that was in a completed save is present unless its removal was requested.",
 ["crash_points","schedules","histories"],"every kill point, in particular between and inside the file operations of a save, and every history before it",
 "Needs a kill between two particular system calls of a save followed by a restart.",
 [ST],[("file replacement",ST+": write_to_file"),("save order: databases, then meta",ST+": SourisState::save"),("load",ST+": SourisState::new")],["<base>/<name>.sdb","<base>/meta.sdb"],["reads after restart against the recorded version history of each database"])
p("P08","A power loss never destroys saved databases",
 "If power is lost at any instant (data not yet synced may be missing or partial, directory changes not yet synced may be missing, in any way a journaling file system allows), the next start succeeds and every database again holds one complete version that it really had, no older than the one in the last save that had completed.",
 ["crash_points","schedules","histories"],"every power-loss point and every persisted subset of unsynced data and directory updates",
 "Tests cannot cut power; the loss of an unsynced write is invisible on a live kernel's page cache.",
 [ST],[("sync before replace",ST+": write_to_file"),("save order",ST+": SourisState::save")],["<base>/*.sdb"],["reads after restart"])
p("P09","At most about ten seconds of changes can be lost",
 "A change that was acknowledged more than the save interval (10 s), plus the time the saves in that period actually needed, before the daemon that acknowledged it was killed or lost power is present after the restart, no matter what traffic the daemon was serving. This stays true for as long as the daemon runs, including after individual saves have failed and the fault has gone.",
 ["schedules","crash_points","histories","fault_sequences"],"every traffic pattern, every run length, every timing of saves relative to changes",
 "Is about virtual time and the saver's behaviour over many intervals; a test would need to wait real tens of seconds and kill the process.",
 [MA,ST],[("saver task",MA+": select! over stop signal and 10 s sleep"),("save",ST+": SourisState::save")],["data directory"],["acknowledgement times vs. recovered version"])
p("P10","Disk errors never damage what was already saved",
 "When writes, syncs, renames or creates fail (I/O error, disk full, short write), the versions saved earlier stay loadable, the daemon keeps serving requests from memory, one database's failure does not keep the others from being saved, and once the errors stop the next saves make everything durable again. A failed save is never treated as a successful one.",
 ["fault_sequences","schedules","crash_points"],"every sequence of disk faults at every file operation, followed or not by a crash, power loss or graceful restart",
 "Requires failing one chosen system call in the middle of a save.",
 [ST,MA],[("write_to_file error paths",ST),("save: per-database error handling and meta contents",ST+": SourisState::save"),("saver keeps running",MA)],["<base>/*.sdb"],["disk image, reads after restart, responses during the fault"])
p("P11","Removed databases and keys stay removed",
 "After rm_db has been acknowledged the database is gone for all readers, is not brought back by any later save, graceful restart or process kill, and - once the next save has completed - not by a power loss either; a database created again under that name holds only what was put in after its creation, and the removal never deletes the file of the new one. Likewise an acknowledged rm_kv, clear_db or overwrite is not undone by a graceful restart.",
 ["schedules","histories","crash_points"],"every interleaving of removals with re-creations, saves, restarts and crashes",
 "The unlink, the in-memory removal and a concurrent save or re-creation only conflict in particular orders.",
 [ST],[("remove_db: map removal and file deletion",ST+": remove_db"),("save",ST+": SourisState::save"),("meta listing",ST+": SourisState::new")],["SourisState.dbs","<base>/<name>.sdb"],["reads during the run and after restart, disk image"])
p("P12","Database names cannot reach outside their own file",
 "Whatever database name a request carries on any endpoint, the daemon only ever creates, writes, renames or deletes files inside its data directory, and never lets a database take over the reserved metadata file. A name it cannot store (not ASCII, reserved, or not usable as one file name) is refused with 400 by every endpoint that could create it and changes nothing; every name it accepts is saved and restored.",
 ["inputs","histories"],"every database name (separators, dot-dot, absolute paths, NUL, non-ASCII, reserved, overlong, extension-like) on every endpoint",
 "Quantifies over all strings on five endpoints and is only visible in which paths reach the operating system.",
 [ST],[("name validation",ST+": new_db, new_db_with_contents, add_key_value_pair"),("path construction",ST+": base_location.join")],["data directory"],["paths passed to the simulated file system; status codes; contents after restart"])
p("P13","Requests affect only the database and key they name",
 "A request changes nothing but the database (and for key operations the key) it names: every other database and key keeps its contents, in memory and on disk, however similar the names are (case, prefixes, extension-like suffixes, percent-encoded characters), and while saves and other requests run.",
 ["inputs","histories","schedules"],"every pair of names and keys, every request sequence, every interleaving",
 "A frame condition over all other databases; tests look at the one they changed.",
 [ST,DB,VA],[("map lookup by exact name",ST),("file per database",ST+": save, remove_db, new")],["SourisState.dbs","<base>/*.sdb"],["full-state audit through the API, live and after restart"])
p("P14","Malformed input cannot stop or corrupt the daemon",
 "Any request - arbitrary or truncated bytes as a value or store, lying length fields, compression headers claiming huge outputs, broken HTTP, missing or odd query parameters - is answered with an error or closed, without panicking, aborting or exhausting memory in the daemon, and a rejected request changes no database. All other clients keep being served.",
 ["inputs","fault_sequences"],"every byte string as request or body, however it is cut or corrupted on the way",
 "All byte strings; the failures are at particular nibbles (length fields, tree bytes, state tags) that examples do not contain.",
 [VAL,STO,HUF,BITS,BIN,INT,AX],[("bounds and length checks in the decoders",VAL+", "+STO+", "+HUF+", "+BITS+", "+BIN),("rejections",AX+": FromRequest; "+ER)],["SourisState.dbs"],["process liveness, bytes allocated, responses, state audit"])
p("P15","A damaged data file hurts only its own database",
 "If one database's file is truncated, zeroed, bit-flipped or overwritten with garbage while the daemon is down, the daemon still starts, loads every other database exactly, keeps saving them, and never crashes because of the damaged one.",
 ["inputs","fault_sequences"],"every corruption of a database file and every set of other databases",
 "Any byte pattern in any file position; needs storage faults between two runs of the daemon.",
 [ST,STO,VAL],[("per-database load errors are skipped",ST+": SourisState::new / get_internal_stores"),("decoder robustness",STO+": Store::deser")],["<base>/*.sdb"],["reads after restart"])
p("P16","Abandoned requests take effect entirely or not at all",
 "If a client disconnects, resets or times out at any point of a request, the request either has its full effect or none, the daemon is not left locked or with databases half removed, and later requests see one consistent state (also on disk after the next save and restart).",
 ["fault_sequences","schedules","crash_points"],"every disconnect point in the request's byte stream and in the handler's execution (axum drops the handler's future at whatever await it had reached)",
 "Cancellation happens at an await point chosen by network timing.",
 [ST,MA],[("no await between taking the lock and finishing the change",ST+": mutators"),("file deletion tied to the map change",ST+": remove_db")],["SourisState.dbs","SourisState.db_cache"],["later responses, disk image"])
p("P17","The daemon answers again once faults stop",
 "After disk stalls, disk errors, network stalls, partitions, resets and slow or silent clients end, every pending and new request on a working connection is answered within a bounded time, and saves go on. No mix of requests, saves and faults leaves the daemon deadlocked, and a silent or slow client never blocks the others.",
 ["schedules","fault_sequences"],"every schedule and every finite fault sequence",
 "Liveness under faults; needs a bound in virtual time after the last fault.",
 [ST,MA],[("lock scope around I/O",ST+": save, remove_db"),("saver loop survives errors",MA)],["SourisState.dbs mutex"],["response times in virtual time"])
p("P18","Graceful shutdown finishes",
 "After SIGTERM or SIGINT, once the requests in flight have been answered or their clients are gone, the process exits successfully within a bounded time, having attempted a final save, even if that save fails or a periodic save was running; idle keep-alive connections do not hold it up.",
 ["schedules","fault_sequences"],"every signal time, every state of connections, saves and disk faults",
 "The interplay of signal, broadcast, saver and connection draining is a schedule.",
 [MA],[("shutdown_signal, saver join, graceful drain",MA+": shutdown_signal, main")],None,["process exit and its virtual time"])
p("P19","The async client reports what the daemon did",
 "Each AsyncClient method sends the request its documentation describes and returns what the daemon really did: Ok only for work that was done and acknowledged (with the right created/removed flags, CreationResult, names, values, None for a missing database), an error otherwise; lost, cut or reset connections give an error or a correct result, never a wrong or truncated one, a panic, or a hang once the network works.",
 ["inputs","fault_sequences","schedules"],"every method call sequence, names, keys and values with any characters, and every network fault",
 "The client is only tested by compiling its doc examples; faults in the middle of a response need a controlled network.",
 [AC,"crates/sourisdb/src/client.rs"],[("request construction and response mapping",AC)],None,["return values vs. reference model"])
p("P20","The sync client reports what the daemon did",
 "Each SyncClient method sends the request it is named after and returns what the daemon really did: Ok only for work that was done and acknowledged (with the right created flag, CreationResult, names and values), an error otherwise; lost, cut or reset connections give an error or a correct result, never a wrong or truncated one, a panic, or a hang once the network works.",
 ["inputs","fault_sequences","schedules"],"every method call sequence, names, keys and values with any characters, and every network fault",
 "No test runs it; faults in the middle of a response need a controlled network.",
 [SC,"crates/sourisdb/src/client.rs"],[("request construction and response mapping",SC)],None,["return values vs. reference model"])
p("P21","Starting under read errors never loses data",
 "If reading the data directory fails while the daemon starts (I/O errors, or a kill during start-up), it either serves every saved database or refuses to start; it never starts without a saved, undamaged database and then lets a later save forget it. After the errors are gone the next start serves everything.",
 ["fault_sequences","crash_points"],"every failing read, open or stat during start-up, and a kill at every point of it",
 "Needs an I/O error injected into one chosen read of one chosen file during start-up.",
 [ST],[("load error handling",ST+": SourisState::new, get_store, get_internal_stores")],["<base>/*.sdb"],["exit status, reads after restart, disk image"])
p("P22","Data written by earlier builds stays readable",
 "The byte format of values, stores and the data directory is stable: a data directory or body produced by the current version is read back with the same content by any later build, and short reads, any read chunking and any store compression variant make no difference.",
 ["inputs","fault_sequences"],"every data directory and body recorded from the current version, for every value type and compression variant",
 "Round-trip tests pass when encoder and decoder change together; only stored bytes from before the change reveal it.",
 [VAL,STO,HUF,BIN,INT,"crates/sourisdb/src/types/imaginary.rs"],[("type tags and layout",VAL+": Value::ser/deser"),("store header",STO),("Huffman trees",HUF),("compression",BIN)],["<base>/*.sdb"],["reads after starting on a recorded data directory"])
p("P23","A daemon that cannot start changes nothing",
 "If the daemon cannot start - its port is taken or refused, its data directory cannot be read, or the list of databases (meta.sdb) is truncated, zeroed or garbage - it exits with a failure within a bounded time and has not created, changed or removed any file in the data directory (which another daemon may be using). It never starts as if it had no or fewer databases; once the cause is gone the next start serves everything.",
 ["fault_sequences","schedules"],"every cause of a failed start, every schedule of the start-up's threads and tasks, and every truncation of meta.sdb",
 "What a failing start does to the files depends on which of its threads still runs while the main one gives up; no test starts a daemon that fails.",
 [MA,ST],[("start-up order",MA+": main"),("load error handling",ST+": SourisState::new, get_store, get_internal_stores")],["<base>/*.sdb"],["exit status, file changes before the exit, reads after the next start"])
p("P24","A long-running daemon accumulates nothing",
 "Requests, abandoned requests, connections, saves, failed saves and removed databases leave nothing behind in the daemon: once nobody is connected, the numbers of its open files and threads, its memory, and the files in the data directory that belong to no database do not depend on how many of them there were.",
 ["histories","fault_sequences"],"every long history of requests, aborts, faults and saves",
 "Leaks show only after many repetitions, of failing operations too, and long virtual times.",
 [MA,ST,DB,VA],[("saves and their temporary files",ST+": save, write_to_file"),("removal",ST+": remove_db"),("cache of serialised databases",ST+": get_db, db_cache"),("connections and request bodies",AX)],["<base>/*"],["open descriptors, threads, live memory and files of the simulated process when idle"])
p("P25","The command line client does what its user says",
 "Each mouse subcommand (create-new, view-all, add-entry, update-entry, remove-entry, remove-database, export-to-json, import-from-json) changes exactly what its user entered and confirmed - that database, that key, that value with its type and content - and nothing when the user declines, when the terminal goes away before the confirmation, or when the input is invalid; it never clears or overwrites a database without having asked. What it lists, shows and exports is what the daemon holds at that time (an exported file replaces what was in it, and with types it can be imported again), and it says what really happened, also when others change the databases meanwhile; with a lost connection it fails, and it never panics or asks without end.",
 ["inputs","histories","fault_sequences","schedules"],"every subcommand, every dialog (names, keys, values of all types entered by hand, wrong answers, declined confirmations), every moment at which the terminal or the connection goes away, and everything other clients do between two prompts",
 "No test runs it: its prompts need somebody who answers them, and most of what can go wrong happens between two prompts while others change the daemon.",
 [MO,MV,AC,STO,VAL,INT],[("subcommands and confirmations",MO+": main"),("entering values",MV+": get_value_from_stdin and helpers"),("requests",AC),("JSON export and import",STO+": to_json, from_json")],None,["bytes the program writes to its terminal and its files, the requests that reach the daemon, its exit"],"cfg(souris_sim) entry point of mouse that takes the arguments")
# not applicable to this technique
p("P30","JSON conversions agree with their documentation",
 "Converting a Store or Value to JSON and back (Store::to_json, from_json, Value::convert_to_json and the From/TryFrom implementations) keeps the content for every type that JSON can represent and fails otherwise, as documented.",
 ["inputs"],"every value and JSON document","All values; tests sample a few.",[STO,VAL],[("JSON conversion",STO+": to_json, from_json; "+VAL)])
p("P31","Integer and Imaginary arithmetic and conversions are exact",
 "Conversions between Integer and the primitive types succeed exactly when the number fits and keep its value; comparison, parsing and display agree with the mathematical value, and Imaginary numbers likewise.",
 ["inputs"],"every integer of every width","All 2^64 and more values; tests sample.",[INT,"crates/sourisdb/src/types/imaginary.rs"],[("TryFrom/From/Ord/FromStr",INT)])
p("P32","Compression never makes a store larger than needed",
 "BinaryData::compress picks the smallest of its candidate encodings and reports its size truthfully, and RLE/LZ/Huffman decode to the original bytes for direct callers of the library.",
 ["inputs"],"every byte string","All byte strings.",[BIN,"crates/sourisdb/src/types/binary/rle.rs","crates/sourisdb/src/types/binary/lz.rs"],[("candidate selection",BIN)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
