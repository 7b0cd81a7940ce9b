"""setup: nothing to build; checks that the tools the framework needs are there"""
import sys, shutil
sys.path.insert(0, "irvc")
import z3, mpmath, contract
for t in ("clang++", "cvc5", "c++filt"):
    if not shutil.which(t): sys.exit("missing " + t)
print("ok")
