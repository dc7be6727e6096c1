# Extra overlay entries for the replay harnesses (argv: repo, scratch dir).
# internal/linter/linter.go is used as it is in the tree, except that RunLinter
# first consults a hook variable, so that a test can play the linter's part.
import sys, json, os, re
repo, work = sys.argv[1], sys.argv[2]
out = {}
p = repo + "/internal/linter/linter.go"
s = open(p).read()
m = re.search(r"func RunLinter\((\w+) RunLinterOptions\) error \{\n", s)
if m:
    s = s[:m.end()] + "\tif VerifRun != nil {\n\t\treturn VerifRun(%s)\n\t}\n" % m.group(1) + s[m.end():]
    s += "\n// VerifRun stands in for the linter when a replay harness sets it.\nvar VerifRun func(RunLinterOptions) error\n"
    q = work + "/linter.go"
    open(q, "w").write(s)
    out[p] = q
json.dump(out, sys.stdout)
