"""Print the shrunk (or first) tape of a facet's JSON output as a replay file."""
import json, sys
j = json.load(open(sys.argv[1]))
print("facet", j["facet"]); print("tape", *j["tape"])
