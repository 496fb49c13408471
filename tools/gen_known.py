"""Writes known_findings.txt from the fix commits of /repo and the open findings."""
import subprocess, os
OPEN = [
 ("C10", "nonstr-struc-recursion",
  "alpha = NonStructural(bravo) 'a'; bravo = ws Structural(alpha) is accepted although alpha reaches itself at the same structural token; "
  "parsing \" a\" recurses until the stack overflows. The validation takes the raw token between them for progress; seeing through it needs "
  "a second chain for the structural stream in every production's validation, which is no small repair"),
]
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],stdout=subprocess.PIPE,text=True,check=True).stdout
P = {
 "Constants lexeme must": "C02 C03", "validating a grammar with a Const": "C10", "prefix tree lookup": "C03",
 "reject empty punctuation": "C24 C11", "Position::from": "C14", "error messages must be valid": "C17", "tokenized syntax error": "C12",
 "grammar validation must detect": "C10", "filtered stream lookups": "C22", "Structural must continue": "C07",
 "non-structural parsing at the start": "C07", "first-token prediction": "C06", "a separated list of a nullable": "C23",
 "a separated list must stop": "C11", "a lookahead of a nullable": "C23", "an unbalanced closing": "C04", "grammar text must show": "C18",
 "grammar text must include": "C18", "grammar text of a keyword": "C16 C18", "end of file consumes": "C10 C23", "a lookahead consumes": "C10 C23",
 "a non-structural production consumes": "C10 C23", "the empty input": "C01 C09", "extending a keyword": "C24",
 "validating again": "C10", "missing symbols found": "C10", "left recursion found": "C10",
 "A token field for the end": "C11 C23",
 "Success logs end": "C25", "Labelled productions report": "C25", "Lexemes labelled Log::None": "C25",
}
out = []
for p, i, t in OPEN:
    out.append("open: property=%s %s %s" % (p, i, t))
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    ps = [v for k, v in P.items() if s.startswith(k)]
    assert len(ps) == 1, s
    for p in ps[0].split():
        out.append("fixed: property=%s %s %s" % (p, h, s))
open(os.path.join(os.path.dirname(__file__), "..", "known_findings.txt"), "w").write("\n".join(out) + "\n")
