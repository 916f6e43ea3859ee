"""Writes MANIFEST.json from properties.jsonl (run it after a property is added or dropped)."""
import json, subprocess
HOOKS = [h for h in subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines() if "souris_sim" in h]
NA = {
 "P30": "A pure function of its input: no schedule, clock, I/O, fault or second party can change its result, so simulating the system adds nothing to calling it. (The part that takes part in the running system, JSON export and import with the command line client, is covered by P25.)",
 "P31": "Pure arithmetic of plain values without schedule, time, I/O or parties; only the serialised forms (covered by P05 and P22) take part in the running system.",
 "P32": "A pure function over bytes; which candidate is smallest does not depend on anything a simulator controls (that stored data decodes to what was stored is covered by P05 and P22).",
}
NOTE = {
 "P01": "every recorded history is checked for linearizability (WGL search) against a small reference model",
 "P02": "linearizability of every read plus complete quiescent audits (names, get_db, get_value) against the model",
 "P03": "every status, CreationResult and body against the reference model inside of linearizability, with odd and malformed requests",
 "P04": "complete audits of the daemon and of the data directory before and after every graceful restart, bit for bit",
 "P05": "boundary-biased values of all 16 types over fragmented and chunked connections, bitwise compared with an independent encoder and decoder",
 "P06": "signals at seeded points of running traffic; what was acknowledged must be on the disk after the exit and served after the restart",
 "P07": "the daemon is killed at seeded system calls; the restarted one must serve whole versions at least as new as the last completed save",
 "P08": "power loss at seeded points with a journaling crash model of the disk; same refinement as P07 for what had been synced",
 "P09": "long virtual runs ended by crashes; changes older than the window (10 s and the saves' own time while a daemon runs) must be recovered",
 "P10": "I/O errors, short writes and full disks at seeded file operations; earlier versions, other databases, answers and later saves are checked",
 "P11": "removals raced with saves, re-creations, restarts and crashes; no removed state may come back",
 "P12": "hostile names on all endpoints; every path that reaches the simulated operating system is checked",
 "P13": "confusable names and keys under concurrent requests and saves; everything not named must stay bitwise the same",
 "P14": "malformed bodies, headers, lengths and HTTP; panics, aborts, stack overflows, memory bound and changed databases are violations",
 "P15": "data files are damaged between lives; every other database must be served exactly and saved again",
 "P16": "aborted requests at seeded byte positions; all-or-nothing inside of linearizability, in memory and on disk",
 "P17": "stalls, errors, partitions and silent clients that end; progress within a bounded virtual time afterwards",
 "P18": "signals in every phase; the process must exit 0 within a bounded virtual time after the last request and with a final save",
 "P19": "the real AsyncClient against the real daemon under network faults; returned values against the reference model",
 "P20": "the real SyncClient against the real daemon under network faults; returned values against the reference model",
 "P21": "read errors, kills and short reads during start-up; refusal or complete service, and nothing forgotten afterwards",
 "P23": "the port is refused, files are unreadable or the metadata is damaged while a seeded schedule runs the start-up; exit status, every file change before the exit and the next start are checked",
 "P24": "long virtual lives full of repeated aborts, failing saves, removals, connections and large bodies; descriptors, threads, memory and files are counted when idle and compared",
 "P25": "a simulated user at a simulated terminal drives the real mouse program against the real daemon while others use it; every prompt, list, table, file and message is checked, and every confirmed change goes into the same linearizability check as the other clients' requests",
 "P22": "recorded data directories and bodies (golden/) of this version are read by the current tree, in random read chunks, and served exactly",
}
ASSUME = (" Sampled, not exhaustive: tens of thousands of seeded runs per check. Trusts the simulated kernel (libc seam), the "
          "disk crash model and the reference model; threads switch at system calls, lock operations and sampled allocations, under sequential consistency.")
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh check --property {i} --tier quick",
        "thorough_cmd": f"bash run.sh check --property {i} --tier thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real daemon",
        "level": "exploration",
        "level_note": NOTE[i][0].upper() + NOTE[i][1:] + "." + ASSUME,
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash run.sh",
    "hooks": {"guard": "cfg(souris_sim)", "enable": "RUSTFLAGS=\"--cfg souris_sim\" (set by run.sh), with the daemon built as a library through build/sourisd/Cargo.toml, which tools/wrap.py derives from /repo's manifest", "source_commits": [h.split()[0] for h in HOOKS]},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every violation is written as a replay file (seed, minimised plan, trace): 'bash run.sh replay FILE' reproduces it exactly. 'bash run.sh selftest' checks that runs repeat exactly.",
}, open("MANIFEST.json", "w"), indent=1)
