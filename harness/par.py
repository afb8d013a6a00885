"""Starts <n> instances of a command at the same time, <rounds> times; '@' in an
argument is replaced by the number of the instance. Ends with the worst code."""
import subprocess
import sys
import time

n, rounds, stagger = int(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3])
worst = 0
for r in range(rounds):
    ps = []
    for k in range(n):
        ps.append(subprocess.Popen([sys.argv[4]] + [a.replace("@", str(k)) for a in sys.argv[5:]], stdout=subprocess.DEVNULL))
        if stagger:
            time.sleep(stagger)
    for p in ps:
        rc = p.wait()
        if rc:
            worst = rc
sys.exit(worst if worst >= 0 else 128 - worst)
