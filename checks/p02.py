import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk, flowcommon
vk.main("P02", lambda c: flowcommon.run(c, gflow=True))
