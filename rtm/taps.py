"""Instrumentation: observers attached at run time to the library's public entry points."""
import functools


class Taps:
    """Wraps methods/functions in place; every call is reported to observers."""

    def __init__(self):
        self._undo = []

    def wrap(self, owner, name, before=None, after=None):
        """after(args, kwargs, result) runs on return; before(args, kwargs) on entry."""
        original = getattr(owner, name)

        @functools.wraps(original)
        def wrapper(*args, **kwargs):
            if before:
                before(args, kwargs)
            result = original(*args, **kwargs)
            if after:
                after(args, kwargs, result)
            return result
        own = name in vars(owner)
        self._undo.append((owner, name, original, own))
        setattr(owner, name, wrapper)

    def undo(self):
        while self._undo:
            owner, name, original, own = self._undo.pop()
            if own:
                setattr(owner, name, original)
            else:
                delattr(owner, name)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.undo()
