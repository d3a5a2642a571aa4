#!/usr/bin/env python3
"""Prints the bounded spaces as they are declared in mc/*.cpp (for SPACES.md)."""
import glob, os, re
mc = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc")
print("# The explored spaces\n\nGenerated by tools/list_spaces.py from the sources in mc/.\n")
for f in sorted(glob.glob(os.path.join(mc, "c*.cpp"))):
    print("## " + os.path.basename(f)[:-4])
    for m in re.finditer(r'^SPACE\(((?:\s*"(?:[^"\\]|\\.)*"\s*)+),((?:\s*"(?:[^"\\]|\\.)*"\s*)+)\)', open(f).read(), re.M):
        j = lambda x: "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', x))
        print("- **%s**: %s" % (j(m[1]), j(m[2])))
    print()
