#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
DET = " Assumes the simulated file system, processes and tools behave like the real ones at the level of the operations used; a violation comes with a seed, a minimised case and an operation trace that replays exactly."
checks = {
 "C01": ("fault_enumeration", "kills, power losses and errors at sampled operations of simulated runs, the generated files checked after every operation",
         "Seeded histories; crash points and errors sampled over all operations of the studied run (all of them in the thorough tier)." + DET),
 "C02": ("fault_enumeration", "failing look-ups, listings, opens and reads in simulated regenerations of services with user code",
         "Seeded histories with user edits; read-side faults sampled (all operations in the thorough tier), single, persistent and per-file." + DET),
 "C03": ("exploration", "seeded histories of definition changes, user edits and (also disturbed) runs against a reference model of the user's code",
         "Search over histories of up to six runs; comparison of declarations modulo formatting." + DET),
 "C04": ("exploration", "seeded histories of definition changes, user edits and (also disturbed) runs against the definition as reference model",
         "Search over histories of up to six runs; handlers, message types, endpoints and files compared with the definition." + DET),
 "C05": ("fault_enumeration", "a run killed, cut by power loss or failing at sampled operations, then a recovery run compared with one undisturbed run",
         "Seeded histories; crash points sampled (all in the thorough tier)." + DET),
 "C06": ("exploration", "one scenario run under different seeds for map order, directory order, temporary names, read sizes, clock and environment",
         "Byte comparison of all files of repeated simulated runs." + DET),
 "C07": ("fault_enumeration", "faults at sampled operations of simulated runs (including child processes), and inputs that cannot be processed, against the undisturbed run",
         "Exit status, standard error and tree compared with the undisturbed run of the same scenario." + DET),
 "C08": ("fault_enumeration", "every mutating operation of simulated, disturbed runs checked against the set of own outputs; leftovers after the run",
         "Seeded histories; up to two faults per run." + DET),
 "C09": ("fault_enumeration", "one to three '--start' processes and an editor under a seeded scheduler, with errors, short writes, kills and power losses at every operation; the target inspected around every operation",
         "Every operation of each run is failed once (several schedules and names sampled)." + DET),
 "C10": ("exploration", "two or three baron processes on one service under a seeded scheduler with errors, kills and power losses, against the single-run result",
         "Seeded search over schedules at file-system-operation granularity." + DET),
}
checks.update({
 "C11": ("exploration", "simulated streams delivering the same bytes in seeded splits, empty reads and ends, compared with delivery in one piece",
         "Seeded search over inputs, library calls and deliveries." + DET),
 "C12": ("fault_enumeration", "simulated streams and disk operations failing at seeded positions with ten kinds of errors, for good or once, under every library call that reads one",
         "Seeded search over inputs, failing stream, position, error and delivery; result compared with the undisturbed call." + DET),
 "C13": ("exploration", "seeded sequences of calls in one process, aborted ones included, and calls in several simulated threads preempted at any step, compared with the call alone in a fresh process",
         "Seeded search over histories and schedules; every package variable and every synchronisation of the repository is under the simulator." + DET),
 "C14": ("exploration", "simulated streams cut off, damaged and made of random tokens, every step of the parser counted against a bound proportional to the length",
         "Seeded search over damage; steps are loop iterations and calls counted in the rewritten code." + DET),
})
RPC = " Services are generated by the baron built from the current tree out of seeded definitions; go-kit, gorilla/mux, gRPC, NATS and the network are stand-ins under the simulator; a violation replays exactly."
checks.update({
 "C15": ("exploration", "generated HTTP clients and servers on a simulated network under a seeded scheduler, with connections refused, cut at any byte, stalled, slowed and replayed and servers killed and restarted; requests and responses compared with what was passed",
         "Seeded search over definitions, messages, schedules and network faults." + RPC),
 "C16": ("exploration", "generated gRPC and NATS clients and servers under a seeded scheduler, with messages lost, duplicated, delayed and reordered, connections cut, servers killed and restarted; requests, responses and numbers of invocations compared with what was passed",
         "Seeded search over definitions, messages, schedules and faults." + RPC),
 "C17": ("fault_enumeration", "handlers of generated services failing in thirteen ways, bodies and messages damaged on their way, over all transports under a seeded scheduler",
         "Seeded search over definitions, failures and schedules." + RPC),
 "C18": ("fault_enumeration", "the generated server.Run under a seeded scheduler with failing listeners, failing NATS connections and signals at any time, while clients call it",
         "Seeded search over events and schedules." + RPC),
 "C19": ("exploration", "generated endpoint sets wrapped with seeded exclusion sets under seeded map iteration orders and schedules, every method called over every transport, the middlewares run compared with a reference",
         "Seeded search over definitions, wrappings and orders." + RPC),
 "C20": ("exploration", "HTTP requests put together from the annotation against generated servers, concurrent under a seeded scheduler, with misleading values in other places",
         "Seeded search over definitions, bindings and messages." + RPC),
 "C24": ("exploration", "the generated server command called with seeded flags and environment variables under a seeded scheduler, with servers killed, restarted and signalled and connections disturbed; what it listens on and connects to compared with a reference, calls made to every address",
         "Seeded search over definitions, flags, environments, schedules and faults." + RPC),
 "C25": ("fault_enumeration", "the generated client command run against the generated server command, a handler failing at a seeded call, a transport nobody serves, or connections disturbed; the calls made and the exit status compared with a reference",
         "Seeded search over definitions, failures and schedules; definitions with strings in an HTTP path are left out, as the command's empty requests have no such path." + RPC),
 "C23": ("exploration", "concurrent generated HTTP and gRPC clients with different keys and values under seeded schedules and network faults; contexts seen by the handlers compared with what each call carried",
         "Seeded search over definitions, calls and schedules." + RPC),
})
exec(open(os.path.join(here, "manifest_more.py")).read()) if os.path.exists(os.path.join(here, "manifest_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
na = {
 "C21": "pure functions of their input (name and type tables): no schedule, time, I/O, crash point or second party for a simulator to vary; a simulated run would be an ordinary unit test",
 "C22": "a pure function of its input: no schedule, time, I/O, crash point or second party for a simulator to vary; a simulated run would be an ordinary unit test",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the simulator is put under an automatically rewritten copy of /repo's current tree (imports of os, os/exec, os/signal, path/filepath, io/ioutil, fmt, log, time, math/rand, sync, net, net/http, context and packages.Load redirected; goroutines, channels, select, map iteration and package variables under the simulator's control), and of the services that the baron built from that tree generates, see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks:
        l, t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + i, "evidence_file": "evidence/%s.json" % i, "technique": T + t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet (work in progress)")})
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
