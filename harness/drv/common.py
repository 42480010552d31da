"""Shared by the drivers, which run under Jython against the code in /repo.

usage: jython driver.py IN OUT   (IN: one JSON scenario per line, OUT: one JSON trace per line)
"""
import sys
import os
import json
import logging
import wire

OUT = None
DATA = '/repo/pyogp/lib/base/message/data'
if os.environ.get('VF_REPO'):
    DATA = os.environ['VF_REPO'] + '/pyogp/lib/base/message/data'

XML_SMALL = '''<?xml version="1.0" ?><llsd><map>
<key>serverDefaults</key><map/>
<key>messages</key><map>%s</map>
<key>capBans</key><map/><key>messageBans</key><map/><key>maxQueuedEvents</key><integer>100</integer>
</map></llsd>'''
XML_ENTRY = '<key>%s</key><map><key>flavor</key><string>%s</string><key>trusted-sender</key><boolean>0</boolean></map>'


def template_text():
    f = open(os.path.join(DATA, 'message_template.msg'), 'rb')
    t = f.read()
    f.close()
    return t


def small_data(names, barred=(), scratch=None):
    """replaces the embedded template and configuration by the part a scenario needs:
    parsing all of it takes most of a run.  Must be called before anything is imported."""
    import pyogp.lib.base.message.data as data
    text = wire.subset_text(template_text(), set(names))
    p = os.path.join(scratch, 'tmpl-%d.msg' % os.getpid() if hasattr(os, 'getpid') else 'tmpl.msg')
    f = open(p, 'w')
    f.write(text)
    f.close()
    data.msg_tmpl = open(p)
    data.msg_details = XML_SMALL % ''.join([XML_ENTRY % (n, (n in barred) and 'llsd' or 'template')
                                             for n in barred])
    return wire.index(wire.parse_templates(text))


def full_index():
    return wire.index(wire.parse_templates(template_text()))


class Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass


# the logging settings a run is made with (driver log); otherwise quiet ones
VARIANT = None
MADE = []
LINES = [0]


def settings(quiet=True):
    from pyogp.lib.base.settings import Settings
    v = VARIANT
    if v is None:
        return Settings(quiet)
    s = Settings(v['quiet'], v['spammy'])
    MADE.append(s)
    switch(s, v['set'])
    return s


# what a component is made with: 0: settings and a handler, 1: settings, 2: neither (it makes its own)
BARE = 0


def bare(last=2):
    return VARIANT is None and min(BARE, last) or 0


def like(to, s):
    """the settings a component made for itself are set as the given ones"""
    if to is not s:
        for k, v in s.__dict__.items():
            setattr(to, k, v)


def switch(s, opts):
    for o in opts:
        setattr(s, str(o['o']), o['v'])


class NullHandler(logging.Handler):
    def emit(self, record):
        LINES[0] += 1
        # format it, as a real handler would, so that logging calls are executed in full
        try:
            record.getMessage()
        except Exception:
            pass        # which handlers report themselves


def quiet():
    root = logging.getLogger()
    root.setLevel(logging.DEBUG)
    root.addHandler(NullHandler())
    logging.raiseExceptions = 0
    sys.stdout = Null()
    sys.stderr = Null()


def errname(e):
    return '%s' % (getattr(e.__class__, '__name__', None) or e.__class__)


def istr(x):
    """integers as decimal strings"""
    try:
        return '%d' % x
    except Exception:
        return '?' + str(type(x))


def small(x):
    """an integer TLC can hold"""
    try:
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, long)) and abs(x) < 2 ** 30:
            return int(x)
    except Exception:
        pass
    return -999


def text(x):
    try:
        if isinstance(x, unicode):
            return x.encode('ascii', 'backslashreplace')
        return repr(str(x))[1:-1]
    except Exception:
        return '?'


def main(run):
    global OUT, BARE
    inp, outp = sys.argv[1], sys.argv[2]
    OUT = outp
    real_err = sys.stderr
    try:
        quiet()
        out = open(outp, 'w')
        for line in open(inp):
            line = line.strip()
            if not line:
                continue
            scn = json.loads(line)
            BARE = sum([ord(c) for c in line]) % 3
            tr = run(scn)
            out.write(json.dumps(tr) + '\n')
        out.flush()
        out.close()
    except:
        sys.stderr = real_err
        import traceback
        traceback.print_exc()
        try:
            out.flush()
        except Exception:
            pass
        real_err.flush()
        os._exit(3)
    os._exit(0)
