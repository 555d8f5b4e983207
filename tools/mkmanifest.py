#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the table below.
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
NOTES={
"P01":"Seeded search over documents x destination behaviours (partial, short, failing, panicking writes at drawn byte offsets incl. the 4096-byte buffer edges). Oracle: bytes of an undisturbed write and the count the simulated destination kept itself.",
"P02":"Seeded histories of encodings with failing/panicking destinations and callbacks under a simulator-owned sync.Pool (LIFO/FIFO/random/drop) and process restarts; oracle: the same encoding in a fresh process state.",
"P03":"Race-detector build; seeded scheduler runs one task at a time at yield points instrumented into mpd and xml and into sync primitives; destinations stall, fail, panic. Oracle: solo result of each write, no race report, no deadlock.",
"P04":"As P03 for parsing, from cold type caches; oracle: solo result of each parse.",
"P05":"As P03 for read-only operations on one shared document; deep snapshot before and after, race detector, solo results.",
"P06":"Differential: one-piece delivery against drawn deliveries (splits, empty reads, EOF with data, byte readers, files, token sources) including tokens, offsets, positions and errors; encoding/xml as reference for documents without namespaces.",
"P07":"Every reading function against truncation and read errors at drawn points through a simulated file layer and readers; oracle: an independent scanner for the end of the document element.",
"P08":"Corrupted real and generated documents; a deterministic loop-step budget decides termination; canary parse/write afterwards must be unchanged.",
"P09":"Publisher/relay/client histories on a lossy, duplicating, reordering simulated network; oracle: an independent infoset built from a schema table and compared with an independent XML reader in both directions.",
"P10":"Relay chains with drawn readers, writers, indents, clones and restarts; oracle: byte equality after the first hop and infoset equality.",
"P11":"Generated SCTE-35 messages in every namespace style through relay chains; oracle: independent namespace-aware infoset. Two known findings (Ext content depending on outer declarations) are listed in known-findings.txt.",
"P12":"Families of clones under drawn edit/append/relink/write histories; oracle: deep snapshots per family member and pointer disjointness.",
"P13":"Drawn edit histories; oracle: an executable model of containment and inheritance evaluated over the current content.",
"P14":"Drawn live-presentation histories under a simulated clock; oracle: executable model of ISO/IEC 23009-1 5.3.2.1.",
"P15":"Drawn durations, texts and clock readings (jumps, skew) through publish/relay hops; oracle: exact rational arithmetic (math/big) over the text form.",
"P16":"Drawn encoder call sequences with failing destinations; oracle: an executable model of acceptance and an independent XML reader.",
"P17":"Drawn callback programs (under-read, over-read, raw tokens, unbalanced or illegal writes, errors, panics) interpreted by a model over the callback's own element.",
"P18":"Drawn streams of documents, chunkings, faults and per-document consumption modes; oracle: each document decoded or encoded alone.",
"P19":"Drawn histories in which the caller overwrites its buffers, recycles encoders and decoders and processes other documents; oracle: deep snapshots taken at return.",
"P20":"Executed library statements and allocated bytes of a document made of n and of 8n repetitions of a drawn part, for drawn ways of reading, writing, cloning and building; simulated lives of a process (hundreds to thousands of distinct documents, with failures, panics, cuts and abandoned operations) with the live heap and the cost of fixed operations compared over time.",
"P22":"Struct types made at run time (and hand-written ones) with twins for encoding/xml; values, documents, damaged documents and pre-filled targets drawn for them; encodings and decodings run as first use of the types in 1-4 tasks under a drawn preemptive schedule. Oracle: encoding/xml.",
}
NA={
"P21":"single-call pure functions without time, I/O, concurrency, randomness or history: nothing for a simulator to schedule or to break",
}
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
have=set(os.path.basename(f)[:-3].upper() for f in os.listdir(here+"/sim/dst") if f.startswith("p") and f[1:3].isdigit())
have|={"P04","P05"}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"deterministic simulation with fault injection: seeded search over histories, schedules and faults",
          "level":"exploration",
          "level_note":NOTES[i]+" Samples, does not enumerate; trusts the model/oracle code in /verif/sim and the Go toolchain."})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"true",
 "hooks":{"guard":"build overlay (go build -overlay) made by /verif/sim/cmd/instr; no hook is committed in /repo","enable":"check.sh instruments /repo's working tree into a temporary overlay: yield points and loop-step counters at statements, sync -> simulator primitives, os/time -> simulated file layer and clock","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"Each check rebuilds instrumenter, overlay and simulator from /verif/sim and /repo's working tree in a temporary directory. VERIF_SEED selects the seed range. Replay: see DESIGN.md."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print([c["property"] for c in checks],[x["property"] for x in na])
