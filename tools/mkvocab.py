"""Record the names of the functions of the reviewed tree (helpers added
later are analysed inline, as part of their callers)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.project import Project
p = Project(sys.argv[1] if len(sys.argv) > 1 else "/repo")
json.dump(sorted({f.module.name + ":" + f.qual for f in p.functions}), open(os.path.join(HERE, "sa", "vocab.json"), "w"), indent=0)
