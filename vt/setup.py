"""setup: the machinery is Python and WhyML text; only the presence of the tools is checked"""
import shutil, sys
miss = [x for x in ("clang++", "why3", "cvc5", "z3", "z3-new", "g++") if not shutil.which(x)]
print("missing: " + " ".join(miss) if miss else "tools present")
sys.exit(1 if miss else 0)
