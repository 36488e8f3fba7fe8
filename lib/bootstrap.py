import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
spec = json.load(open(sys.argv[1]))
sys.argv = [sys.argv[0], json.dumps(spec)]
import worker
worker.main()
