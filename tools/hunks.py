"""commit hunks of /repo's uncommitted changes: hunks.py FILE 'i,j' MESSAGE
(i, j: indices of the hunks of FILE's diff, as of now)"""
import subprocess
import sys

fn, which, message = sys.argv[1:]
git = ["git", "-C", "/repo"]
diff = subprocess.run(git + ["diff", "-U1", fn], capture_output=True, text=True,
                      check=True).stdout
head, *hunks = diff.split("\n@@")
picked = [hunks[int(i)] for i in which.split(",")]
patch = head + "".join("\n@@" + h for h in picked)
subprocess.run(git + ["apply", "--cached", "--unidiff-zero",
                      "--recount", "-"],
               input=patch.rstrip("\n") + "\n", text=True, check=True)
subprocess.run(git + ["commit", "-qm", message], check=True)
print(subprocess.run(git + ["show", "--stat", "--oneline", "HEAD"],
                     capture_output=True, text=True).stdout)
