"""Stand-ins for outside functions, however the code under test imported them."""
import contextlib
import sys


@contextlib.contextmanager
def replaced(*items):
    """items: (owner, name, stand-in). Every name in pterasoftware's modules bound to the same object is replaced too."""
    done = []
    try:
        for owner, name, new in items:
            old = getattr(owner, name)
            done.append((owner, name, old))
            setattr(owner, name, new)
            for mod in [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "pterasoftware" and m is not None]:
                for k, v in list(vars(mod).items()):
                    if v is old and mod is not owner:
                        done.append((mod, k, old))
                        setattr(mod, k, new)
        yield
    finally:
        for owner, name, old in reversed(done):
            setattr(owner, name, old)
