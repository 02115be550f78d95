"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every recorded execution of the real crate is accepted by TLC iff it is a behaviour of the TLA+ specification "
        "(spec/Polling.tla) under the guards of this property; executions come from programs run under a controlled scheduler "
        "with virtual time and signals, on epoll, epoll without timerfd, epoll with pipe notifier, and poll. {} "
        "Bounded: programs of up to 4 threads, schedules up to the preemption bound plus random ones. Trusts the harness "
        "(system call interposition), the kernel's readiness reports, sequential consistency of instrumented accesses.")
EXTRA = {
    "C01": "All schedules with at most two preemptions of small notify/wait/register programs, until the quick budget.",
    "C02": "Spurious and repeated wake-ups are exact because time is virtual: an empty return needs a pending notification or a passed deadline.",
    "C03": "Durations from 1 ns to beyond the clock, in virtual time, alone and after other waits.",
    "C04": "Armings, deliveries, conditions, re-armings.",
    "C05": "Level mode against all condition changes and modifications.",
    "C06": "Edge modes against all condition changes, and refusal on poll.",
    "C07": "A wait that blocks is observed at quiescence, when no thread can run.",
    "C08": "Keys and flags compared with the kernel's readiness at every delivery.",
    "C09": "Results compared with the specification's registration table after every history.",
    "C10": "Several waiters on one poller.",
    "C11": "Registration and notify against a blocked wait, observed at quiescence.",
    "C12": "Signals at every system call of a wait.",
    "C13": "Faults injected in every creation call; every guard of delivery, notification and time in force.",
    "C14": "Descriptors audited after every quiescence; sources compared before and after each call.",
    "C15": "Two and three pollers on shared sources.",
    "C16": "Containers of many capacities, reused.",
    "C17": "Deletion with events pending, re-adding, descriptor reuse.",
    "C18": "The poller's descriptor polled at every quiescence, and nested pollers (epoll configurations; the poll backend exposes no descriptor).",
    "C19": "Out-of-band data, hang-up, reset on all interests; event value operations.",
    "C20": "System calls made to fail in registration calls and waits, one at a time and always, alone and against other threads; descriptors the system does not accept.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [{
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "technique": "TLA+ specification, TLC trace validation of the real crate",
        "level": "model_checking",
        "level_note": NOTE.format(EXTRA[i]),
    } for i in ids],
    "not_applicable": [],
    "notes": "No hooks in /repo: the harness interposes on libc and on the atomics the compiler instruments.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
