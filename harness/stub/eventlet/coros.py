from eventlet.api import sleep, spawn
