#!/usr/bin/env python3
"""Rewrites the "fixed:" block of known_findings.txt from /repo's fix commits (the rest is kept)."""
import subprocess
M = [("d4a3184","C05","two processes could hold sessions on one shared file: the lock was not verified against the directory, and a descriptor 0 counted as none"),
("8a258e7","C06","a session whose lock file could not be created (missing directory, no permission, no descriptors) waited for ever"),
("4729988","C02","open, flush and close errors of a data file were ignored: records were lost and the session ended normally"),
("ffbad2b","C01","a second shared session on a file, or one on an empty file, left two headers or none"),
("f770f38","C07","rename_file() deleted the destination before renaming: a crash or error in between lost both versions"),
("818af18","C04","a paranoid session left by an exception or after a failed write published its half-written file"),
("c1dd9cd","C03","loading from a missing or truncated file returned uninitialised values"),
("ee8b4fe","C03","damaged name lengths, dimensions and header sizes made a load write and read out of bounds"),
("d744d67","C07","isdir() was true for block devices and sockets"),
("5892d15","C10","a job file was never read: every line was skipped and the program ran without its variables"),
("3eef03e","C08","the job interval depended on uninitialised memory without --last-job and --this-job"),
("be57bed","C09","copies of a shared_ptr freed their object twice"),
("1184188","C17","a failing or short /dev/urandom seeded the generator with uninitialised memory"),
("b66ee77","C17","rand<long>(n) returned negative numbers"),
("8c206bc","C07","rename_file() without overwriting replaced an existing file when the existence check failed"),
("52c002b","C09","a data set destroyed before a record was opened published an empty record"),
("4eb0b9f","C08","job numbers beyond 2^31 were truncated"),
("d855db4","C11","a variable pointed to released storage after a resize or copy ran out of memory"),
("c74f400","C12","the ranges of a view leaked when creating the view ran out of memory"),
("a9249a6","C11","fold_into() and similar read their operand after overwriting it when the output was an operand"),
]
EXTRA = "/verif/tools/fixed_extra.txt"
import os
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if l.strip(): M.append(tuple(l.rstrip("\n").split("|", 2)))
P = "/verif/known_findings.txt"
keep = [l for l in open(P) if not l.startswith("fixed:")] if os.path.exists(P) else ["# known: property=<id> scenario=<scenario> class=<class> <what fails>   (reported as KNOWN-FINDING)\n", "# fixed: property=<id> <commit> <what failed>   (suppresses nothing)\n"]
have = subprocess.run(["git","-C","/repo","log","--format=%h %s","abee1f5..HEAD"],stdout=subprocess.PIPE,text=True).stdout.splitlines()
fixes = {l.split()[0] for l in have if " fix:" in l}
assert fixes == {m[0] for m in M}, (fixes ^ {m[0] for m in M})
open(P, "w").write("".join(keep) + "".join(f"fixed: property={p} {c} {t}\n" for c, p, t in M))
