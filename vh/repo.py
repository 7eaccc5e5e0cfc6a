"""Imports the code under test and puts it in a known, quiet state."""
import sys
import warnings

from vh import core

sys.dont_write_bytecode = True
if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)
warnings.simplefilter("ignore")

from hachoir.core import config  # noqa: E402
from hachoir.core.log import log  # noqa: E402

config.quiet = True
config.verbose = False
log.use_print = False
log.use_buffer = False


def assert_repo():
    import hachoir
    assert hachoir.__file__.startswith(core.REPO + "/"), hachoir.__file__


assert_repo()
