# The repository is written for Python < 3.11; Ubuntu 24.04 has only 3.12.
# inspect.getargspec() went away in 3.11: give it back with its old return value.
import inspect
import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)

if not hasattr(inspect, "getargspec"):
    def getargspec(func):
        s = inspect.getfullargspec(func)
        return (s.args, s.varargs, s.varkw, s.defaults)
    inspect.getargspec = getargspec
