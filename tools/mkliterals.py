"""Writes specs/literals.json: the literals of the tree that the checks were built for."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "driver"))
import literals
w, n = literals.literals("/repo")
json.dump({"words": sorted(w), "nums": sorted(n)}, open(literals.BASE, "w"), indent=0)
print(len(w), "words", len(n), "numbers")
