"""What decides each property."""
from session import trace_stage, small_stage
import models

STAGES = {p: [trace_stage] for p in
          "C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C14 C16 C17 C19 C20 C21".split()}
T = "TLA+ session specification; recorded API sessions validated against it with TLC"
TECHNIQUE = {p: T for p in STAGES}
N = ("Exhaustive over a bounded universe of real types, values, wires and histories (model-checked, then replayed into the code); beyond it, recorded "
     "random sessions over about 2,000 generated types and recorded histories of values of up to gigabytes (ropes), every call judged by TLC against the "
     "specification: sampled there, not a proof. Trusts TLC, the Go reflection-based projection of values in the harness, and SHA-256 being collision free.")
NOTE = {p: N for p in STAGES}

STAGES["C08"] = [models.merkle_replay([], "roots and branches"), models.merkle_trace(1), models.merkle_huge(1)]
STAGES["C06"] += [models.merkle_replay(["-abs", "-noproof"], "roots")]
STAGES["C19"] += [models.merkle_replay(["-abs", "-salts", "6"], "roots and branches under other hash functions"), models.merkle_trace(8), models.merkle_huge(8)]
STAGES["C15"] = [models.bits_replay, models.bits_trace, models.bits_huge]
STAGES["C18"] = [models.context_replay, models.context_trace, models.context_huge, trace_stage]
for p in "C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C14 C17 C18 C19 C20".split():
    STAGES[p].append(models.huge)
STAGES["C05"].append(models.vast)
for p in "C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C14 C16 C17 C18 C19 C20 C21".split():
    STAGES[p].append(small_stage)
NOTE["C05"] += (" Types too vast to have values (up to 2^64 bytes) are judged by the size operators alone.")
MC = "TLA+ machine model-checked with TLC; its behaviours replayed into the code, and recorded histories validated against it"
for p in ("C08", "C15", "C18"):
    TECHNIQUE[p] = MC
    NOTE[p] = ("Exhaustive on the machine within the stated bounds, every state replayed into the code; beyond them recorded random "
               "histories judged by TLC. Trusts TLC, the replay driver and SHA-256 being collision free.")
for p in ("C06", "C19"):
    TECHNIQUE[p] = T + "; merkleizer machine model-checked and replayed"
STAGES["C13"] = [models.concurrent, models.concurrent_race]
TECHNIQUE["C13"] = "TLA+ machine of interleavings model-checked with TLC; its schedules run in the code with gated readers, writers and hash functions; recorded concurrent sessions validated against the specification"
NOTE["C13"] = ("Every interleaving of the machine's bounds is run once, on sampled types and values; interleavings within one stretch between gates are left to "
               "parallel runs and the race detector. Trusts TLC and the scheduler of the harness.")
