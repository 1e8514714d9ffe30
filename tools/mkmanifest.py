#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after changing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
DBT = "TLA+ specification (MsiDb/MsiSys) explored by TLC, every explored transition replayed on libmsi, random workloads validated as traces by TLC"
DBN = ("Exhaustive over the bounded model's states and operations (%s), each transition executed on the ASan-built library; plus seeded random "
       "workloads of 70-90 operations validated step by step against the same specification. Trusts the driver's observations through libmsi reads.")
TOOL = "TLA+ specification (MsiTool over MsiDb, Idt, MsiSum, SqlText) explored by TLC, every explored transition replayed with the command line tools, random command lines validated as traces by TLC"
DOC = "TLA+ specification (WixDoc) of the package a document denotes explored by TLC, every explored document built with wixl, random documents validated as traces by TLC"
CLAIM = {
    "D01": (DBT, DBN % "MC_Dml: one table, 2-3 keys, all small INSERT/UPDATE/DELETE"),
    "D02": (DBT, DBN % "MC_Range and MC_Dml: type edges, key collisions, NULLs"),
    "D03": (DBT, DBN % "MC_Query: every content of two small tables times some 270 SELECTs"),
    "D04": (DBT, DBN % "MC_Life: two sessions and two files"),
    "D05": (DBT, DBN % "MC_Life: two sessions and two files"),
    "D06": ("TLA+ specification (MsiSys with commits that fail or die) explored by TLC; every file operation of every explored commit made to fail or to be the last one (strace injection, size limits), traces validated by TLC",
            "Every system call on the database's files in a commit (kill before it; EIO/ENOSPC/EMFILE) and file-size limits, for the histories of MC_Crash and random sessions, then what the session and other processes see. Crash means process death, not loss of power."),
    "D07": (DBT, DBN % "MC_Schema: orders of CREATE/ADD/DROP with good and bad definitions"),
    "D08": (DBT, DBN % "MC_Temp: orders of HOLD/FREE/DROP/temporary rows/commit"),
    "D09": (DBT, DBN % "MC_Stream: stream and binary-column writes"),
    "D10": ("TLA+ specification of text archives (Idt, IdtText over MsiDb; MsiSum) explored by TLC, every explored transition replayed on libmsi, random workloads validated as traces by TLC",
            "MC_Idt: well- and ill-formed archives into small databases, MC_Sum with archives; plus random tables exported, imported and carried between two databases, and summary properties in four time zones."),
    "D11": ("TLA+ specification (MsiSum) explored by TLC, every explored transition replayed on libmsi, random call sequences validated as traces by TLC",
            "Exhaustive over MC_Sum (properties of each kind, update limits, persist/commit/reopen); plus seeded random call sequences validated step by step."),
    "D12": (DBT, DBN % "MC_Merge: all pairs of small contents of two databases with equal, wider and incompatible definitions"),
    "D13": (DBT, DBN % "MC_Mst: sets of record edits, new and dropped tables, added columns over small databases; the transform files are encoded by lib/mst.py"),
    "D16": ("TLA+ specification of storages in databases (MsiStg): TLC enumerates histories of inserts, deletes, commits and reopenings, each is executed on libmsi and the trace, with the trees read back from the file by libgsf, validated by TLC",
            "Exhaustive over MC_Stg (five trees and data that is none, names at the limits, both modes); plus seeded random trees (five deep, streams of up to 200 000 bytes across the block sizes) and histories in two sessions over three files."),
    "D15": ("TLA+ specification of the SQL lexer, grammar and meaning (SqlText over MsiDb): TLC enumerates texts, each is executed on libmsi and the trace validated by TLC",
            "MC_Text: the token neighbours of 12 canonical statements, odd literals and names in every context, all ways to combine three comparisons; plus random spellings and character-level mutations."),
    "D14": ("TLA+ specification (MsiRec) explored by TLC, every explored transition replayed on libmsi, random call sequences validated as traces by TLC",
            "Exhaustive over MC_Rec (records of 0-2 fields, all small call sequences); plus seeded random call sequences validated step by step."),
    "T01": (TOOL, "MC_Tool: every msibuild step after every other; plus seeded random command lines, the stored package compared by the library after each."),
    "T02": (TOOL, "MC_Tool: what msiinfo and msidump show of every explored package; plus seeded random packages."),
    "T03": (TOOL, "MC_Tool: the differences of every explored package to another; plus seeded random pairs."),
    "T04": ("TLA+ specification (MsiExtract) explored by TLC, every explored transition replayed with msiextract and msidiff, random packages validated as traces by TLC",
            "MC_Extract: directory names and chains, media and cabinets inside and beside the package; plus seeded random packages with cabinets of several folders, stored and MSZIP."),
    "W02": (DOC, "MC_Doc: every small document over files, media and embedded or separate cabinets, and over components, groups and directories of several source files; plus seeded random documents with files of up to 70000 bytes."),
    "W07": ("TLA+ specification (WixUi) of the user interface a document denotes explored by TLC, every explored document built with wixl, random documents validated as traces by TLC",
            "MC_Ui: a document with every kind of element under every single change of an attribute (two in the thorough run), every small dialog for its tab order, every small set of events over two documents and an extension directory; plus seeded random documents."),
    "W06": (DOC, "MC_Doc: a document with every kind of element under every single change of an attribute (removed or given another value), and every small document over features, references, directories and registry values; plus seeded random documents, a quarter of them broken."),
    "W05": ("TLA+ specification (WixHeat) of the files a list of paths installs explored by TLC, every explored list run through wixl-heat and wixl, random lists validated as traces by TLC",
            "MC_Heat: every list of up to two lines (four in the thorough run) over paths with plain and with awkward names, under several prefixes, exclusions and options; plus seeded random trees."),
    "W04": ("TLA+ specification (WixIds) of what generated identifiers are told from, explored by TLC over histories of edits and builds, each replayed with wixl, random histories validated as traces by TLC",
            "MC_Ids: every short history of adding, moving and dropping components, registry values and classes with builds for both architectures in between; plus seeded random histories. Every build writes the document in another order, layout and file."),
    "W03": ("TLA+ specification (WixSeq) of the sequence tables explored by TLC, the explored documents built with wixl, random documents validated as traces by TLC",
            "MC_Seq: every two actions scheduled in each table with every constraint on them over a few neighbours (a seeded sample in the quick run), every set of up to three kinds of content; plus seeded random documents of up to eight scheduled actions per table."),
    "W01": ("TLA+ specification (WixPre) of the preprocessor explored by TLC, every explored transition replayed with wixl -E, random documents validated as traces by TLC",
            "MC_Pre: every sequence of up to four lines from an alphabet of directives, conditions and references, with include files and command line definitions; plus seeded random nested documents."),
}
NA = {"N01": "about memory safety on arbitrary damaged bytes: there is no abstract state or transition to specify, and the deciding technique would be fuzzing the parsers of libgsf and libmsi rather than a TLA+ model"}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIM:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": CLAIM[i][0], "level": "model_checking", "level_note": CLAIM[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "Specification: spec/*.tla (TLA+, TLC). Every check builds /repo's working tree into a scratch directory of its own."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
