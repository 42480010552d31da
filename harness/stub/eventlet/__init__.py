"""Deterministic stand-in for eventlet (greenlet does not exist for Jython).

Coroutines are threads that pass a single baton; a coroutine gives the baton up
only in api.sleep (or when it ends).  Time is virtual.  A driver may install a
chooser that decides which ready coroutine runs next, so that every schedule
of the code under test can be replayed exactly."""
version_info = (0, 8, 14)
__version__ = '0.8.14'
from eventlet import api, util
from eventlet.api import sleep, spawn, spawn_after, GreenletExit
