"""Setup: nothing to build; verifies that the checker itself compiles and the analysed package parses."""
import ast, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = 0
for base in (os.path.join(root, "simpycheck"), os.path.join(os.environ.get("SIMPYCHECK_REPO", "/repo"), "src", "simpy")):
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".py"):
                ast.parse(open(os.path.join(d, f), encoding="utf-8").read()); n += 1
print("parsed", n, "files")
