#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (registry.py, properties.jsonl, design notes below)
+ planted bugs (seeded/*/meta.json) + findings (known_findings.json) + tools/design_tail.md."""
import json, os, sys, glob, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, root)
from registry import CHECKS
N = {
"C01": ("BFS over operation histories on two arrays (so that add/copy meet each other and self). Operations are products of an operation kind with *index classes* (0, 1, 2, len/2, len-1, len, len+1, SIZE_MAX-1, SIZE_MAX); canonical state = element bytes, len, cap of both arrays.",
  "merging is by the array's complete observable state; an element's bytes are never inspected except by value search, which gets its own operations"),
"C02": ("BFS over histories; the map's seed comes from time/srand/rand, which the harness replaces, so that *the seed is an enumerated input* (all residues modulo the initial capacity). Keys are chosen by an own copy of the hash to collide, to be adjacent and to wrap around the bucket table; one configuration uses keys whose complete 64-bit hashes are equal for every seed (short vectors of the lattice of the hash's kernel).",
  "canonical state: entries in order with keys, values and hash residues, bucket table, capacity"),
"C03": ("BFS over histories; every handle ever returned and not popped is dereferenced after every operation; forward and backward walks.", "free-list and index arrays are part of the canonical state (renamed)"),
"C04": ("BFS over edit histories of a three-level tree; every node's data, children and every by-value lookup compared after each operation; each node's data is in an exact-size block only when the library made it so, hence AddressSanitizer sees over-reads.", ""),
"C05": ("Every list of field sizes over several alphabets; layout compared with an own implementation of the C struct rule; each field is written in two orders and the whole storage compared after each write.", ""),
"C06": ("All unmerged histories over two variants; the caller's buffer is overwritten and freed after each call.", ""),
"C07": ("BFS to a *fixpoint* over texts: the state is the string's content and capacity; from every reachable text every edit with every argument of a list of ~400. Four other strings must stay as they were (aliasing).", ""),
"C08": ("Every text x every pattern; every query compared with a naive scan.", ""),
"C09": ("BFS over histories on two buffers; files are real ones in a scratch directory of the check, one of them not readable to its reported size.", ""),
"C10": ("BFS over pool states with fixpoint where it is reached. The pool's own structures (free lists, stack) are serialised relative to the pool base; blocks are filled with owner bytes which are verified after every operation. A separate configuration drives the exported free-list functions alone.",
  "what is *not* required: a particular placement, the length counter and tail of the exported list type, coalesced remainders of at most 32 bytes (the pool's no-split rule)"),
"C11": ("Fixpoint over all pools of small N and sizes.", ""),
"C12": ("All request histories for every region size; requests relative to what remains and near SIZE_MAX.", ""),
"C13": ("All histories of requests on both sides, resets and resizes for every buffer length.", ""),
"C14": ("Every Unicode scalar value into every buffer length; every string of boundary runes; every byte string over classes of bytes.", ""),
"C15": ("Every text over character classes through all ten lexers, compared with reference grammars written as small recursive functions (`g_*`), not as state machines like the code.", ""),
"C16": ("Every text over 18 alphabets against reference scanners.", ""),
"C17": ("Bounded-exhaustive documents; the oracle is an independent recursive-descent parser (cfgref.h) which uses its own lexers (lexref.h) and evaluator (mathref.h).", ""),
"C18": ("Every small configuration in memory is written (text, new file, overwritten, appended) and parsed again.", ""),
"C19": ("Every tree of up to three items x every path string of up to four characters x every getter; setter histories with whole-tree comparison, including values that alias the tree itself.", ""),
"C20": ("Every token sequence/character string/edit of documents, valid or not, against the same independent parser, which also says whether a report is due.", ""),
"C21": ("Every token sequence and character string against an independent evaluator; literals and names of every length across the lexeme buffer; nesting up to one million.", ""),
"C22": ("Reference printer; byte-for-byte comparison of everything emitted.", ""),
"C23": ("The loader (dlopen, dlclose, dlsym), stat, opendir and closedir are replaced; each step's failure is an enumerated choice; BFS to a fixpoint over plugin states. Directory scans run over all subsets of 13 groups of directory entries in a scratch directory.", ""),
"C24": ("Fault enumeration: each history runs on a twin without faults and on the object with the k-th allocation failing, for every k, alone, in pairs, and from k on for good. Objects are also pre-filled so that the step has to grow.", ""),
"C25": ("Every value below 2^20 and around all powers, every base below 4096; 128-bit reference. Built twice (gnu11 and gnu99), because the header has two sets of definitions.", ""),
"C26": ("Fixpoint over all reachable lists of five nodes; every index/amount for the shift helpers.", ""),
"C27": ("Schedules of two generators near every refill point; long prefixes of many seeds.", ""),
"C28": ("Every short text; values around all powers in 17 spellings; every base.", ""),
"C29": ("Product of all message parts (each absent too), histories, streams that fail after each byte.", ""),
"C30": ("Every argument combination within the bounds against plain loops.", ""),
"C31": ("Files are streams over memory made by the harness (fopencookie) behind a replaced fopen; the fault is placed at every open, seek, byte of read, byte of write and close, once or for good.", ""),
}
P = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); P[p["id"]] = p
seeds = {}
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
kf = json.load(open(os.path.join(root, "known_findings.json")))
fixed = {}
for s in kf["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", s); fixed.setdefault(m[1], []).append((m[2], m[3]))
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## The properties, one by one", ""]
for pid in sorted(P):
    p, c = P[pid], CHECKS.get(pid)
    out += [f"### {pid} {p['title']}", ""]
    if not c: out += ["Not claimed.", ""]; continue
    n = N.get(pid, ("", ""))
    out += [f"* **Deciding method** ({c['level']}): {c.get('technique', 'explicit-state search of operation histories on the real code')}. {n[0]}"]
    out += [f"* **Oracle**: {c['oracle']}."]
    out += [f"* **Bounds, quick**: {c['bounds']['quick']}."]
    out += [f"* **Bounds, thorough**: {c['bounds']['thorough']}."]
    if n[1]: out += [f"* **Note**: {n[1]}."]
    if c.get("assumptions"): out += ["* **Assumptions**: " + "; ".join(c["assumptions"]) + "."]
    out += [f"* **Beyond the tests**: {p['why_tests_cant']}"]
    for sid, d in seeds.get(pid, []): out += [f"* **Planted bug `{sid}`** (caught): {d['what_it_breaks'].rstrip('.')}. Needs: {d['needs'].rstrip('.')}."]
    f = fixed.get(pid, [])
    if f: out += [f"* **Defects found and repaired** ({len(f)}): " + "; ".join(f"{b} (`{a}`)" for a, b in f) + "."]
    out += [""]
known = kf.get("known", [])
out += ["## Known findings that are not repaired", "", *( ["* " + (k if isinstance(k, str) else json.dumps(k)) for k in known] or ["None: every genuine defect the checks reported has been repaired."]), ""]
out += [open(os.path.join(here, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
