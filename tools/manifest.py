#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("byte-exact output oracle and request-log monitor on real downloads under adversarial completion orders, injected delays, ASan+UBSan", "exploration",
         "Held on some hundred whole downloads per run with distinct interleavings; the API is a local HTTP/1.1 stand-in."),
 "C02": ("fault injection at the API, retry counter and output monitor on the real downloader", "fault_enumeration",
         "Every failure kind, count and position is combined, not every assignment; cut bodies are detectable only if their length was announced."),
 "C03": ("crash-point enumeration (file cut at a byte, killed by the kernel at a byte) followed by resume, byte-exact oracle", "fault_enumeration",
         "All interesting and many other bytes of several databases; page cache loss is not modelled."),
 "C04": ("ThreadSanitizer and AddressSanitizer on the real downloader with injected delays, blocked-thread watchdog", "exploration",
         "Races between instrumented code in the runs seen; progress within a watchdog's bound."),
 "C05": ("byte-exact oracle on real text downloads, cross-checked with convert and binary download, ASan+UBSan", "exploration",
         "As C01 for text output."),
 "C06": ("reference-set oracle on the real hibp-search, many searches per process under ASan+UBSan", "exploration",
         "Generated databases up to some thousand records with needles at all boundaries."),
 "C07": ("reference-set oracle on table-of-contents searches, several tables per process, ASan+UBSan", "exploration",
         "15 to 25 bits, partial and complete databases; databases with gaps may be refused."),
 "C08": ("fault injection on the table file (cut, stale, killed or failed writer, database replaced under the builder, several builders at once with delayed and split writes) followed by oracle-judged searches", "fault_enumeration",
         "A table of the right size newer than the database counts as intact."),
 "C09": ("per-connection response oracle on the real server under concurrent load, ASan and TSan with injected delays", "exploration",
         "Thousands of requests per run on the interleavings seen; no HTTP pipelining (the library closes such connections)."),
 "C10": ("hostile request generator, ASan+UBSan, status and liveness oracle on the real server", "exploration",
         "Generated and mutated requests and histories."),
 "C11": ("reference sort oracle, directory and input monitor on the real hibp-sort under ASan+UBSan", "exploration",
         "Chunk counts from one to dozens through the program, any chunk size through a harness of the sort template."),
 "C12": ("reference selection oracle on the real hibp-topn under ASan+UBSan", "exploration", "Generated databases, N around ties and ends."),
 "C13": ("byte-exact oracle in both directions on the real hibp-convert under ASan+UBSan", "exploration", "Generated record lists, files, pipes, limits."),
 "C14": ("independent interpreter of diffs applied to the old database, on the real hibp-diff under ASan+UBSan", "exploration", "Generated pairs around the read buffers."),
 "C15": ("reference pair oracle on the real hibp-dupes under ASan+UBSan", "exploration", "All bits values, generated neighbours."),
 "C16": ("memcmp oracle on the comparison templates for each instruction set and two compilers, ASan+UBSan; sorting programs from outside", "exploration",
         "All lengths to 70, positions and alignments, not all values; instruction sets the machine has."),
 "C17": ("snprintf/reference parser oracle on the record type and through the programs, ASan+UBSan", "exploration",
         "All byte values, sweep of counts (all 2^32 in the thorough tier)."),
 "C18": ("independent MD4/UTF-16 oracle on the hash functions and through hibp-search, ASan+UBSan", "exploration",
         "All code points, lengths and cuts to 200, long messages; MD4's unaligned word reads are deliberate and exempt."),
 "C19": ("write-fault injection (size limits at every byte, failing n-th write, full device, broken pipe) with completeness oracle", "fault_enumeration",
         "Faults in write(2) only; close(2) is not made to fail."),
 "C20": ("directory monitor (content, identity, times) and request log over runs with existing outputs, aliases and conflicting options", "exploration",
         "Every documented conflict and alias kind, options mixed and ordered at random."),
 "C21": ("ASan+UBSan on all programs with generated malformed input, independent line classifier as oracle", "exploration",
         "Generated damage; lines with odd separators are only judged for memory safety."),
 "C22": ("stepwise comparison of random operation histories on the file classes with a vector, ASan+UBSan", "exploration",
         "Harness on the templates plus programs around their buffer sizes."),
 "C23": ("TLS impostor enumeration with a connection monitor at a proxy, url sweep over all prefixes", "fault_enumeration",
         "The trusted authorities are swapped by a preloaded library; OpenSSL and libcurl are trusted."),
 "C24": ("read-fault injection (n-th read fails, is short or interrupted) with output oracle on all programs and the server", "fault_enumeration",
         "Every n for small inputs, drawn for larger ones."),
 "C25": ("peak-memory monitor (the kernel's accounting of each process) on tiny against large inputs, before against after very many requests", "exploration",
         "Databases up to 290 MB, up to 400,000 requests or prefixes."),
 "C26": ("I/O-accounting monitor (the kernel's counts of reads, writes and bytes of each process) against bounds in the number of records", "exploration",
         "Databases up to 2*10^7 records; system calls are counted, not time."),
 "C27": ("outstanding-request monitor at the API, and gates before disk reads and writes, on the real downloader and server", "exploration",
         "What is not done at the same time within seconds counts as not done so, if it happens again in a second run."),
 "C28": ("listening-socket monitor (the kernel's tables), gates before disk reads, interruption under ASan and TSan, answer oracle, on the real server", "exploration",
         "The loopback addresses; interruptions at drawn moments."),
}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = [l.split('"')[3] for l in open(os.path.join(V, "properties.jsonl"))]
man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
           notes="No hooks: everything is observed from outside, by sanitizers, by preloaded libraries, or with -finstrument-functions.")
for p in have:
    t, level, note = T[p]
    man["checks"].append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", technique=t, level=level, level_note=note))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
