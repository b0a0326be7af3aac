"""Import the library under test from the repository's working tree."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'      # neither read nor write bytecode in the repository
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PKG = os.path.join(REPO, 'sqlpuzzle')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import sqlpuzzle as sp                            # noqa: E402
import sqlpuzzle.relations as rel                 # noqa: E402
import sqlpuzzle.exceptions as exc                # noqa: E402

if not os.path.realpath(sp.__file__).startswith(PKG + os.sep):
    print('harness error: imported sqlpuzzle from', sp.__file__, file=sys.stderr)
    sys.exit(3)

DIALECTS = ('sql', 'mysql', 'postgresql', 'sqlite')
