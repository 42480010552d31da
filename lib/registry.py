"""which check decides which property, and what it rests on"""
import fam_net
CHECKS = {}
NOTES = {}
NOT_APPLICABLE = {}

MBT = 'TLA+ specification checked with TLC; replay of its behaviours into the code and validation of the recorded executions against it'


def add(fn, props, note, technique=MBT):
    for p in props:
        CHECKS[p] = fn
        NOTES[p] = (technique, note)


add(fam_net.check, ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C15', 'C25', 'C28'),
    'Net.tla: the design of dispatcher and circuits satisfies the property clauses in every reachable state up to the depth given in '
    'the evidence; every generated and random history run on the real dispatcher is judged by the same clauses. Exhaustive on the '
    'model within its vocabulary, sampled on the code. Trusts Jython, an independent reader of the template, and a recording UDP client.')

import fam_evt
add(fam_evt.check, ('C08', 'C09'),
    'Evt.tla: subscriptions, nested firings, notifiers by name; the design satisfies the clauses for every history up to the depth in the '
    'evidence including handlers that subscribe, unsubscribe, clear, fire or raise; the histories and random longer ones run on the real '
    'classes and are judged by the same clauses. Calls of subscriptions added or removed during a firing are left open.')

import fam_codec
add(fam_codec.check, ('C10', 'C11', 'C12'),
    'Codec.tla: the wire layout as operators on byte sequences (reading bodies, zero coding, extra header, appended acknowledgements) and the '
    'encoder and decoder as designed; TLC checks every message of a family of small templates and every single tampering with their datagrams, '
    'and the real encoder and decoder are judged byte by byte on those, on generated template files and on all embedded templates. '
    'Exhaustive on the small family; sampled values elsewhere.')

import fam_tpl
add(fam_tpl.check, ('C14',),
    'Tpl.tla: a token-level grammar of template files against the line-by-line state machine of the parser, equal on all files up to the '
    'number of lines in the evidence; the real parser and both lookups are judged by the grammar on those, on generated files and on the '
    'embedded file, and the bytes a manager with a supplied file sends and accepts are judged by Codec.tla.')

import fam_link
add(fam_link.check, ('C06',),
    'Link.tla: two endpoints and a network that drops, duplicates and reorders; the clauses hold in every history up to the depth in the '
    'evidence and in the whole state graph for a bounded number of sends, where under fairness everything comes to rest; the histories and '
    'longer random ones among two or three real dispatchers, each ended by a reliable phase, are judged by the same clauses.')

import fam_mgr
add(fam_mgr.check, ('C13', 'C16', 'C24'),
    'Mgr.tla: message queue, network loop and event queue loop at the granularity of yields; the clauses hold under every interleaving of '
    'application calls, arrivals and turns up to the depth in the evidence, followed by fair turns and a stop; the interleavings and longer '
    'random ones are replayed on the real MessageManager with a scheduler that decides every turn, and judged by the same clauses. '
    'For C13 rejected datagrams at the dispatcher are judged by Net.tla as well.')

import fam_eq
add(fam_eq.check, ('C17', 'C18'),
    'Eq.tla: the poll loop, its responses and the messages events become; the clauses hold in every history up to the depth in the evidence, '
    'and beyond it on states, followed by fair turns and a stop; the histories with generated contents and longer random ones run on the real '
    'client, some through a real capability and LLSD, and are judged by the same clauses.')

import fam_caps
add(fam_caps.check, ('C19', 'C20'),
    'Caps.tla: calls of every kind, several under way at once, on capabilities made by the application and granted ones, with replies of every '
    'kind; the clauses hold in every history up to the depth in the evidence; those histories with generated contents and longer random ones run on '
    'real capabilities over recording clients, and over HTTP on the loopback network, and are judged by the same clauses.')

import fam_val
add(fam_val.check, ('C21', 'C27', 'C30'),
    'Val.tla: identifiers as digits against bytes, numbers as mantissa and exponent against their four bytes, positions of packed fractions in exact '
    'integer arithmetic; the clauses hold in every history up to the depth in the evidence and for all eight-bit codes between sample bounds; the '
    'histories, others with generated contents, every code between sample bounds and random ones run on the real classes and are judged by the same clauses.')

import fam_bld
add(fam_bld.check, ('C22',),
    'Bld.tla: messages as flat histories of blocks and fields against the containers by name, and the incremental builder; the clauses hold in every '
    'history up to the depth in the evidence; those histories with generated values and longer random ones run on the real classes, looked at after '
    'every step through blocks, accessors, dictionary and LLSD, and are judged by the same clauses.')

import fam_udp
add(fam_udp.check, ('C26',),
    'Udp.tla: arrivals, failures, receptions and sends with hosts as references that are kept; the clauses hold in every history up to the depth in '
    'the evidence; those histories with datagrams of all sizes and longer random ones run on the real client, alone and under a dispatcher, over a '
    'simulated socket and over UDP on the loopback network, and are judged by the same clauses.')

import fam_log
add(fam_log.check, ('C23',),
    'Log.tla: two runs of the dispatcher of Net.tla under any settings and switches of settings, with the steps of its logging; they agree in every '
    'history up to the depth in the evidence; those histories, and those of the manager, the event queue and the capabilities, run on the real code '
    'under several settings each, and must be observed alike.')

import fam_wait
add(fam_wait.check, ('C29',),
    'Wait.tla: waiters with a start, a duration and a switch, under every order of turns, passing time, failing sleeps, stops and restarts up to the '
    'depth in the evidence; these and longer random histories run on the real class over a scheduler and clock of the harness and are judged by the same clauses.')

import fam_pack
add(fam_pack.check, ('C31',),
    'Pack.tla: numbers as sign, binary digits and exponent against bytes of every wire type and order; the clauses hold in every history of two '
    'writes and reads at any offset with a table of edge numbers, and for all 8- and 16-bit codes; these, and random histories over all types, run '
    'on the real packer and unpacker and are judged by the same clauses.')
