"""Exceptions of many classes: what fails must be treated alike whatever its failure is called."""
import asyncio

CLASSES = [ValueError, KeyError, TimeoutError, OSError, RuntimeError, AttributeError, AssertionError, StopAsyncIteration, LookupError,
           TypeError, ConnectionResetError, asyncio.QueueEmpty, NotImplementedError]


def variants(base):
    """base, and classes that are base and something else besides."""
    return [base] + [type(f"{base.__name__}{c.__name__}", (base, c), {}) for c in CLASSES]


def pick(classes, i):
    return classes[i % len(classes)]
