import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vk, flowcommon
vk.main("P01", lambda c: flowcommon.run(c, gflow=False))
