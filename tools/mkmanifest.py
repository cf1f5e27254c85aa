#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = ["Held on the executions observed; says nothing about executions not produced.",
        "Transports are in-memory connections modelled on TCP sockets (deadlines, partial writes, serialised writes) unless the rule says TCP; time is testing/synctest virtual time, in which locks of the library are replaced by stand-ins that virtual time understands.",
        "The Go toolchain, testing/synctest and the harness's own oracle are trusted."]
LIN = "porcupine checks the recorded histories; a check it cannot finish in its time limit counts as inconclusive."
# id: (technique, note, further assumptions)
C = {
 "C01": ("differential monitor: reads vs. the generated client messages, under random segmentation and read calls", "every read of every scenario is compared with a reference decoder of the client's stream", []),
 "C02": ("differential monitor: reads and close code vs. a reference decoder, on streams with one offending frame", "each kind of offence at random positions", []),
 "C03": ("differential monitor: reads and close code vs. a reference decoder with limits, around the limits", "limits on messages the application skips are judged leniently", ["Bytes the library discards for a message the application gave up reading are not required to be counted exactly."]),
 "C04": ("fault injection at stream offsets + reference decoder as oracle over the reads", "cut offsets are sampled, boundaries favoured", []),
 "C05": ("differential monitor: whole-message reads vs. unicode/utf8 on the assembled payload", "", []),
 "C06": ("wire monitor: decoded pongs vs. the sequence of pings fed, with concurrent traffic in virtual time", "", []),
 "C07": ("wire monitor: at most one close frame, well-formed, last, right code, transport closed; random closers and traffic", "which of several racing closes wins is left open; the codes of all that are possible are accepted", []),
 "C08": ("trace monitor over virtual time: pings per interval, outstanding pings, drop times of silent peers", "", []),
 "C09": ("offline checker over the decoded wire and the log of send calls (exactly once, whole, ordered), with schedule noise", "", []),
 "C10": ("differential monitor: independent frame decoder on the wire vs. what was sent", "", []),
 "C11": ("trace monitor: follow-up calls and the wire after every non-fatal error", "", []),
 "C12": ("fault injection on the transport in virtual time; monitors for hangs, bytes after a partial frame, final state", "one fault per scenario; bound on calls: 6 write timeouts", ["A call in progress is required to return within 6 write timeouts (5 for Close) of virtual time."]),
 "C13": ("stress of concurrent and re-entrant closes in virtual time; monitors for hangs, hook counts, transport state", "", ["Close is required to return within 5 write timeouts of virtual time."]),
 "C14": ("leak monitor: library goroutines by stack and weak pointers after garbage collection", "", []),
 "C15": ("taint monitor: every byte sent names its connection, every wire is attributed", "", []),
 "C16": ("differential monitor: HTTP response and connection vs. a reference validator of the request", "padded keys, several key or version lines and non-ASCII tokens are not generated", []),
 "C17": ("differential monitor: response, sub-protocol, middleware and hook log vs. a reference selection", "", []),
 "C18": ("linearizability checking of recorded per-key histories (porcupine) + hook and final-state conservation", "", [LIN]),
 "C19": ("stress of shutdowns in virtual time; monitors for termination, wires, hooks and registry", "", []),
 "C20": ("linearizability checking of recorded membership histories (porcupine) + join/leave conservation; sequential model", "", [LIN]),
 "C21": ("sequential model of every wire + offline checker of concurrent broadcasts (exactly once, order, conservation)", "", []),
 "C22": ("step-by-step model of queues and policies in virtual time + conservation checker", "", []),
 "C23": ("offline checker: independently decoded batches vs. the log of accepted messages", "data given to Batch is not modified by the caller afterwards", []),
 "C24": ("timing monitor over virtual time from acceptance to write; shutdown conservation", "", ["A message is allowed one flush interval plus a small slack for scheduling and the transport."]),
 "C25": ("differential monitor: reads vs. a reference token bucket in virtual time", "", []),
 "C26": ("Go race detector over stress workloads whose transports add no synchronisation, and over the workloads of other properties", "a race is reported only if both accesses are the library's", ["The race detector sees only races of executions that happen; its reports are taken as true."]),
 "C27": ("crash and spin monitor over hostile bytes, extreme configurations, random call orders and faults", "", ["Illegal configurations (negative sizes and durations) and nil connections are not generated."]),
 "C28": ("linearizability checking of recorded per-key histories (porcupine) + sequential room model", "", [LIN]),
 "C29": ("memory monitor: guarded lent slices compared at every write and return, kept reads and every wire compared with what was sent", "", ["Bytes given to Batch and BatchBroadcast as they are stay unchanged until sent."]),
 "C31": ("boundary monitor in virtual time: every option's effect, set or default, measured on several upgraders at once", "", []),
 "C32": ("leak monitor: library goroutines by stack and weak pointers to everything the rounds gave up, after garbage collection", "up to four objects of a kind may stay", []),
 "C30": ("timing monitor in virtual time: return time and error of every waiting call vs. its own context and the release of the connection", "", []),
}
cfg, checks = {}, []
for i, (tech, note, ass) in C.items():
    cfg[i] = {"level": "exploration", "assumptions": BASE + ass}
    if i == "C26":
        cfg[i]["race"] = True
        cfg[i]["assumptions"] = [BASE[0], BASE[2]] + ass
    checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                   "technique": "runtime monitoring: " + tech, "level": "exploration",
                   "level_note": "Held on every execution observed in seeded random workloads (counts in the evidence file)" + (": " + note if note else "") + ". Trusts the toolchain, testing/synctest and the oracle."})
json.dump(cfg, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks are committed in /repo: instrumentation is generated into an overlay at build time (harness/vinstr), so it always fits the working tree."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
