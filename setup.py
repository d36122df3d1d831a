import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
core.build_engine()
print("analyser built in", core.BUILD)
