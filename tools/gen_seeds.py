import sys
sys.path.insert(0, "/verif/tools")
import seedlib, seeds_src
for i in sys.argv[1:] or seedlib.SEEDS:
    seedlib.build(i)
print(len(seedlib.SEEDS), "seeds")
