"""Nothing to build: verify that the analyzer imports and the source parses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa.project import Project  # noqa: E402

p = Project(os.environ.get('VERIF_ROOT', '/repo'))
print(len(p.modules), 'modules')
