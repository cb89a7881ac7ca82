#!/usr/bin/env python3
"""How many of the lines a seeded change takes away or touches stem from the original repository?"""
import re, subprocess, glob, sys, os
BASE="6fa72a2"
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    orig=own=0; f=None
    for line in open(d):
        if line.startswith("--- a/"): f=line[6:].strip(); n=0
        elif line.startswith("@@"): n=int(re.match(r"@@ -(\d+)",line)[1])-1
        elif f and line.startswith("-") and not line.startswith("---"):
            n+=1
            b=subprocess.run(["git","-C","/repo","blame","-s","-L",f"{n},{n}",BASE+"..HEAD","--",f],capture_output=True,text=True).stdout
            if line[1:].strip() and not line[1:].strip().startswith("//"):
                if b.startswith("^"): orig+=1
                else: own+=1
        elif f and line.startswith(" "): n+=1
    print(os.path.basename(os.path.dirname(d)), "original:",orig,"own:",own, "" if orig else "<---")
