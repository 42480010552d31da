"""drives real messages, blocks, fields and the incremental builder"""
import common
from llbase import llsd
from values import val, tok
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder


def nm(x):
    return unicode(x).encode('utf-8')


class World(object):

    def __init__(self):
        self.b, self.m, self.u, self.ev = [], [], {}, []
        self.cur = None

    def put(self, e, f):
        e['err'] = ''
        self.ev.append(e)
        try:
            return f()
        except Exception, x:
            e['err'] = common.errname(x)

    def step(self, op):
        k = op['op']
        if k == 'blk':
            fs = [(str(f), val(v)) for f, v in op['fs']]
            e = {'op': k, 'name': op['name'], 'fs': [{'f': f, 'v': tok(v)} for f, v in fs]}

            def mk():
                b = op.get('kw') and Block(str(op['name']), **dict(fs)) or Block(str(op['name']))
                if not op.get('kw'):
                    for f, v in fs:
                        b.add_variable(Variable(f, v))
                self.b.append(b)
            self.put(e, mk)
        elif k == 'fld':
            v = val(op['v'])
            self.put({'op': k, 'b': op['b'], 'f': op['f'], 'v': tok(v)}, lambda: self.b[op['b'] - 1].add_variable(Variable(str(op['f']), v, -1)))
        elif k == 'msg':
            def mk():
                args, i, held = [], 0, []
                for n in op['cut']:
                    part = [self.b[x - 1] for x in op['bs'][i:i + abs(n)]]
                    i += abs(n)
                    if n < 0:
                        args.append(part)
                        held.append(part)
                    else:
                        args += part
                self.m.append(Message(str(op['name']), *args))
                for x in held:          # the caller's list is the caller's
                    x.append(x[0])
            self.put({'op': k, 'name': op['name'], 'bs': op['bs']}, mk)
        elif k == 'add':
            self.put({'op': k, 'm': op['m'], 'b': op['b']}, lambda: self.m[op['m'] - 1].add_block(self.b[op['b'] - 1]))
        elif k == 'bnew':
            self.u.setdefault(op['u'], LLSDMessageBuilder())
            self.put({'op': k, 'u': op['u'], 'name': op['name']}, lambda: self.u[op['u']].new_message(str(op['name'])))
        elif k == 'bnext':
            self.put({'op': k, 'u': op['u'], 'name': op['name']}, lambda: self.u[op['u']].next_block(str(op['name'])))
        elif k == 'badd':
            v = val(op['v'])
            self.put({'op': k, 'u': op['u'], 'f': op['f'], 'v': tok(v)}, lambda: self.u[op['u']].add_data(str(op['f']), v, -1))
        elif k == 'bbuild':
            self.build(op['u'])
        if not self.ev[-1]['err']:
            for i in range(len(self.m)):
                self.look(i)
            return True

    def build(self, u):
        e = {'op': 'bbuild', 'u': u, 'blocks': [], 'n': -1}

        def mk():
            d, e['n'] = self.u[u].build_message()
            e['blocks'] = self.shown(d)
            for k in d:
                for x in d[k]:
                    x.clear()
            d.clear()
        self.put(e, mk)

    def shown(self, d):
        return [{'b': nm(b), 'is': [[{'f': nm(f), 'v': tok(x[f])} for f in x] for x in d[b]]} for b in d]

    def look(self, i):
        m = self.m[i]
        for via in ('blocks', 'get', 'dict', 'llsd'):
            if via == 'llsd' and self.plain is False:
                continue
            e = {'op': 'look', 'm': i + 1, 'via': via, 'name': '?', 'blocks': []}
            self.put(e, lambda: getattr(self, 'via_' + via)(m, e))

    def via_blocks(self, m, e):
        e['name'] = m.name
        e['blocks'] = [{'b': b, 'is': [x.name == b and [{'f': f, 'v': tok(x.vars[f].data)} for f in x.vars] or [{'f': f, 'v': '?'} for f in x.vars]
                                       for x in m.blocks[b]]} for b in m.blocks]

    def via_get(self, m, e):
        try:
            str(m)
        except Exception:
            pass        # its text is for logs
        e['name'] = m.name
        for b in m.blocks:
            q = []
            l = m[b]
            if l != m.get_block(b):
                raise KeyError(b)
            for x in l:
                vs = []
                for v in x.get_variables():
                    y = x.get_variable(v.name)
                    if y.name != v.name or x()[v.name] is not y or y() is not y.data:
                        raise KeyError(v.name)
                    vs.append({'f': v.name, 'v': tok(x[v.name])})
                q.append(vs)
            e['blocks'].append({'b': b, 'is': q})

    def via_dict(self, m, e):
        d = m.to_dict()
        e['name'] = str(d['message'])
        e['blocks'] = self.shown(d['body'])
        for b in d['body']:
            for x in d['body'][b]:
                x.clear()
            del d['body'][b][:]

    def via_llsd(self, m, e):
        d = llsd.parse(m.to_llsd())
        e['name'] = str(d['message'])
        e['blocks'] = self.shown(d['body'])


def foreign(x):
    """no LLSD form"""
    if x[0] in ('U', 'V', 'Q'):
        return True
    if x[0] == 'l':
        return bool([y for y in x[1] if foreign(y)])
    if x[0] == 'm':
        return bool([y for y in x[1].values() if foreign(y)])
    return False


def run(scn):
    w = World()
    vs = [o['v'] for o in scn['ops'] if 'v' in o] + [v for o in scn['ops'] for f, v in o.get('fs', [])]
    w.plain = not [v for v in vs if foreign(v)]
    for op in scn['ops']:
        if not w.step(op):
            break
    for u in sorted(w.u):
        w.build(u)
    return {'id': scn['id'], 'cfg': {}, 'ev': w.ev}


if __name__ == '__main__':
    common.main(run)
