"""Rules of each property"""
RULES = {}


def register(pid):
    def deco(f):
        RULES.setdefault(pid, []).append(f)
        return f

    return deco


from . import executors  # noqa: E402,F401
from . import splitting  # noqa
from . import results  # noqa
from . import topologies  # noqa
from . import combining  # noqa
from . import directories  # noqa
from . import names  # noqa
from . import filters  # noqa
from . import selecting  # noqa
from . import params  # noqa
from . import registry  # noqa
from . import storage  # noqa
from . import fields  # noqa
from . import masks, symmetry, correlation, purity, preprocessing, logs, saving, launching  # noqa
