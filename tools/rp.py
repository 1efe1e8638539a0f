import sys; sys.path.insert(0,"/verif")
from vcgen import replay as rp
import time
class C: seed=1
print(rp.replay(C, None, sys.argv[1], [], time.time()))
