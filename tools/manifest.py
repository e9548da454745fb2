#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the list below."""
import json
import os

TEXT = {
 "C01": ("TLA+ layout machine (Wire), trace validation of every recorded writer and reader call",
         "All schemas and values of the bounded model plus a seeded pool are encoded and decoded by the code packetc generates; TLC accepts a recorded call only if the Wire machine takes it. Trusts tsc, node and the stand-in for the packet runtime."),
 "C02": ("TLA+ layout machine (Wire), trace validation of encode/decode round trips",
         "Values of the model and a seeded pool are sent through generated code and the decoded leaves compared by TLC with those encoded. Trusts tsc, node and the stand-in runtime."),
 "C03": ("TLA+ decoder machine (Wire), trace validation on truncated, damaged and arbitrary packets",
         "Every truncation and seeded damage of valid packets; TLC runs the decoder machine along the recorded reads and decides between refusal and value. Counts above a clamp are reduced (see known findings)."),
 "C04": ("TLA+ checker specification (Checker), model-enumerated schemas replayed into the compiler",
         "TLC proves on all bounded declaration graphs that the visiting algorithm and the declarative rules agree; the same schemas and seeded larger ones are compiled and each verdict judged by TLC."),
 "C05": ("TLA+ checker specification (Checker), trace validation of reported errors",
         "Each reported error line must be one the declarative rules allow, for model-enumerated and seeded schemas, in many declaration orders and repetitions."),
 "C06": ("TLA+ specification of equal outcomes (TraceSame over Checker), repeated compilations",
         "Groups of equal schemas in different orders, processes and seconds; TLC requires one outcome per group. Sampled orders and repetitions."),
 "C07": ("TLA+ grammar machine (Grammar), exhaustive bounded texts replayed into the parser",
         "All texts of a few lexical chunks per context, rendered random schemas and damage; TLC parses each text with the Grammar machine and compares tree or refusal."),
 "C08": ("TLA+ grammar machine (Grammar), trace validation of syntax error positions",
         "The furthest failure of the Grammar machine decides line, column, token and the excerpt of each reported syntax error."),
 "C09": ("TLA+ grammar machine (Grammar), trace validation of answers to arbitrary texts",
         "Arbitrary, damaged, truncated and long texts in a process with bounded memory and time; TLC accepts only the answer the specification gives."),
 "C10": ("TLA+ declaration specification (Decls), trace validation of the declared interface",
         "Declarations of generated modules are extracted with the TypeScript compiler and TLC compares them with those the schema requires."),
 "C11": ("TLA+ scoping specification (Scope), trace validation of names and type diagnostics",
         "Bounded exploration of name choices; generated modules for all colliding schemas of the model are type checked strictly and their scopes judged by TLC."),
 "C12": ("TLA+ command line specification (Cli), replay of model histories into the binary",
         "Histories of the model and seeded ones run with the real binary in scratch directories as an unprivileged user; TLC judges exit status and files."),
 "C13": ("TLA+ command line specification (Cli), replay of model histories into the binary",
         "As C12, judging which output file each input has and what it contains."),
 "C14": ("TLA+ command line specification (Cli), replay of model histories into the binary",
         "As C12, judging after every edit and run that each output is that of the last good run which covered it and that nothing else changed."),
 "C15": ("TLA+ layout machine (Wire), exhaustive enum numbers decoded by generated code",
         "Every enum size from 0 to 40 and some beyond in every position; all numbers of 8 and 16 bit enums and selected 32-bit ones are decoded, TLC judges the accepted set."),
 "C16": ("TLA+ model of interleaved compilations (MCSession), trace validation of sequences and threads (TraceSession)",
         "Related schemas are compiled in sequences and concurrently in one process and each end is judged by TLC against a compilation in a process of its own. Overlaps are up to the scheduler."),
 "C17": ("TLA+ model of packets and buffers with references (Codec, MCCodec), trace validation of sessions with generated classes (TraceCodec)",
         "Operation sequences enumerated by TLC and longer seeded ones run on generated classes; all live packets and buffers are recorded after each operation and judged by TLC. Trusts tsc, node and the stand-in runtime."),
 "C18": ("TLA+ checker specification (Checker) and resolved types (Resolve), trace validation of the resolved graph (TraceResolve)",
         "Schemas enumerated by TLC and seeded ones are resolved repeatedly by the library; the returned graph is judged node by node against the declarations."),
 "C19": ("TLA+ command line specification (Cli), trace validation of the reports of the binary (TraceCli)",
         "Histories as for C12; TLC compares the paths named on standard output with the outputs of the run and the error output with the defects the specification finds in the inputs. For syntax errors the library's own message is the reference."),
 "C20": ("TLA+ model of overlapping runs and edits (MCOverlap), trace validation of scheduled runs of the binary (TraceOverlap)",
         "Runs are stopped and resumed at inputs which are pipes, so that the driver decides the schedule; TLC judges the tree at every stop and end. Writing phases of two runs are not interleaved."),
 "C21": ("TLA+ model of the calendar and of compilations under a moving clock (Clock, MCClock), trace validation of compilations under a clock the driver sets, and of the binary in many time zones (TraceClock)",
         "The harness answers the library's readings of the clock and TLC computes the dates it may show. Dates from 1970 to 9999."),
 "C22": ("TLA+ model of runs interrupted at every step (MCCrash), trace validation of interrupted runs of the binary (TraceCrash)",
         "Runs are killed at inputs and outputs which are pipes, by limits on file sizes and at random times; TLC judges the tree after each interruption and each whole run. Loss of power is not tried."),
 "C23": ("TLA+ model of a reader of command lines, exhaustive over all lines of up to four words (Args, MCArgs), trace validation of the binary (TraceArgs)",
         "All command lines of up to three of sixteen words (four in thorough) and seeded ones are given to the real binary; TLC decides what each means and compares status, output and files."),
}

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n}
                for p, (t, n) in TEXT.items()],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks use the public interface of the library, the generated code and the binary. Specifications are in spec/, drivers in lib/, the runtime stand-in in node/. Known findings are in known-findings.txt, their inputs in known/."}
with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
