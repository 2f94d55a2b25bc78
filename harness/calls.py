"""Call histories against a reference: what each call must look like after every event, what is sent,
what is announced."""
import vlib as V
from harness import mdm
from gsmmodem.modem import Call, IncomingCall
from gsmmodem.exceptions import InvalidStateException


class Rec(object):
    def __init__(self, obj, kind, number):
        self.obj = obj
        self.id = obj.id
        self.kind = kind
        self.number = number
        self.ringing = kind == 'in'
        self.answered = False
        self.active = True
        self.rings = 1
        self.updates = []        # (answered, active) seen by the status callback
        self.seen = 0


def tones_line(family, cid, tones):
    """the command line for the tones"""
    base = '^DTMF=%d,' % cid if family in ('huawei', 'huawei2', 'huaweiman') else '+VTS='
    return 'AT' + ';'.join([base + t for t in tones])


class Sim(object):
    def __init__(self, family, numbers, crc=True, clip=True):
        self.family = family
        self.numbers = numbers
        self.rings = []
        self.clip = clip
        self.crc = crc

        def prep(model):
            if not crc:
                model.t['AT+CRC=1'] = ['ERROR']
            if not clip:
                model.t['AT+CLIP=1'] = ['ERROR']
        self.m, self.model = mdm.attach(family, prepare=prep, incomingCallCallbackFunc=self.rings.append)
        self.recs = []

    def active(self):
        return [r for r in self.recs if r.active]

    def unused_id(self):
        k = 1
        while k in [r.id for r in self.active()]:
            k += 1
        return k

    # ---------------------------------------------------------------- events
    def ops(self, allowed):
        """events possible now"""
        o = []
        for a in allowed:
            if a in ('ring0', 'ring1', 'ringx'):
                o.append((a, None))
            elif a == 'dial':
                if not [r for r in self.active() if r.kind == 'out' and not r.answered]:
                    o.append((a, None))
            elif a in ('unknown-end', 'unknown-answer'):
                o.append((a, None))
            else:
                for i, r in enumerate(self.recs):
                    if a == 'answer' and r.kind == 'in':
                        o.append((a, i))
                    elif a in ('hangup', 'dtmf'):
                        o.append((a, i))
                    elif a == 'end' and r.active:
                        o.append((a, i))
                    elif a == 'r-answer' and r.active and r.kind == 'out' and not r.answered:
                        o.append((a, i))
                    elif a == 'reject' and r.active and r.kind == 'out' and not r.answered:
                        o.append((a, i))
        return o

    def step(self, op, i):
        n = len(self.model.cmds)
        k = len(self.rings)
        want = []
        announced = None
        r = self.recs[i] if i is not None else None
        if op.startswith('ring'):
            number = None if op == 'ringx' or not self.clip else self.numbers[int(op[4])]
            self.ring(number)
            announced = self.expect_ring(number, k)
        elif op == 'dial':
            self.dial()
            want = ['ATD555;']
        elif op == 'answer':
            r.obj.answer()
            if r.ringing and r.active:
                want = ['ATA']
                r.ringing = False
                r.answered = True
        elif op == 'hangup':
            r.obj.hangup()
            if r.active:
                want = ['ATH']
                self.ended(r)
                r.seen = len(r.updates)      # hanging up may or may not run the callback
        elif op in ('end', 'reject'):
            mdm.report(self.m, self.model, 'ended' if op == 'end' else 'rejected', r.id)
            self.ended(r)
            if r.kind == 'out':
                self.updated(r)
        elif op == 'r-answer':
            mdm.report(self.m, self.model, 'answered', r.id)
            r.answered = True
            self.updated(r)
        elif op == 'dtmf':
            try:
                r.obj.sendDtmfTone('7#')
                V.check(r.answered, 'tones for a call that is not answered raise')
            except InvalidStateException:
                V.check(not r.answered, 'tones can be sent in an answered call')
            if r.answered:
                want = [tones_line(self.family, r.id, '7#')]
        elif op == 'unknown-end':
            mdm.report(self.m, self.model, 'ended', 9)
        elif op == 'unknown-answer':
            if self.family in ('huawei', 'huaweiman') or not [x for x in self.active() if x.kind == 'out' and not x.answered]:
                mdm.report(self.m, self.model, 'answered', 9)
        sent = self.model.cmds[n:]
        V.check([c for c in sent if c != 'AT+CRC=1'] == want, 'exactly the commands of the event are sent')
        V.check(len(self.rings) == k + (1 if announced is not None else 0), 'every RING is announced exactly once, and nothing else is')
        self.consistent()

    def ended(self, r):
        r.active = r.answered = r.ringing = False

    def updated(self, r):
        """the status callback has run and seen the new state"""
        V.check(len(r.updates) > r.seen, 'the status callback runs on the change')
        V.check(r.updates[-1] == (r.answered, r.active), 'the status callback sees the new state')
        r.seen = len(r.updates)

    def ring(self, number):
        lines = ['+CRING: VOICE' if self.crc and self.clip else 'RING']
        if self.clip:
            lines.append('+CLIP: "%s",145,"",0' % number if number is not None else '+CLIP: "",128')
        mdm.notify(self.model, lines)

    def expect_ring(self, number, k):
        V.check(len(self.rings) == k + 1, 'every RING is announced exactly once')
        obj = self.rings[k]
        old = [r for r in self.active() if r.kind == 'in' and r.ringing and (r.number == number if number is not None else r.number is None)]
        if old:
            V.reach('again')
            V.check(obj is old[0].obj, 'a ringing call keeps its identity')
            old[0].rings += 1
        else:
            V.reach('new')
            V.check(not [r for r in self.recs if r.obj is obj], 'a new call is a new object')
            V.check(isinstance(obj, IncomingCall), 'an incoming call')
            V.check(obj.number == number if number is not None else obj.number is None, 'with the number of the caller')
            if self.crc and self.clip:
                V.check(obj.type == 0, 'with its type')
            V.check(obj.id not in [r.id for r in self.active()], 'concurrent calls have different ids')
            self.recs.append(Rec(obj, 'in', number))
        return obj

    def dial(self):
        rec = []

        def cb(call):
            if rec:
                rec[0].updates.append((call.answered, call.active))
        c = mdm.dial(self.m, self.model, '555', self.unused_id(), cb)
        V.check(type(c) is Call or isinstance(c, Call), 'dialling returns the call')
        V.check(not isinstance(c, IncomingCall), 'an outgoing call')
        V.check(not [r for r in self.recs if r.obj is c], 'a new call is a new object')
        V.check(c.number == '555', 'with the number dialled')
        V.check(c.id not in [r.id for r in self.active()], 'concurrent calls have different ids')
        rec.append(Rec(c, 'out', '555'))
        self.recs.append(rec[0])

    def consistent(self):
        for r in self.recs:
            V.check(bool(r.obj.active) == r.active, 'a call is active until it ends')
            V.check(bool(r.obj.answered) == r.answered, 'a call is answered while it is answered')
            if r.kind == 'in':
                V.check(bool(r.obj.ringing) == r.ringing, 'a call rings until it is answered or ends')
                V.check(r.obj.ringCount == r.rings, 'the ring count is the number of RINGs')
            else:
                V.check(len(r.updates) == r.seen, 'no report of another call runs the status callback')
        act = self.active()
        V.check(len(self.m.activeCalls) == len(act), 'exactly the calls that have not ended are listed')
        for r in act:
            V.check(r.id in self.m.activeCalls, 'exactly the calls that have not ended are listed')
            V.check(self.m.activeCalls[r.id] is r.obj, 'every call is listed under its id')
        mdm.fine()


def history(p):
    s = Sim(p['family'], ['71', '72'], p.get('crc', True), p.get('clip', True))
    for op in p['prefix']:
        s.step(*op)
    for k in range(p['n']):
        o = s.ops(p['ops'])
        op, i = o[V.choice('op%d' % k, len(o))]
        s.step(op, i)
        V.reach(op)
    s.m.close()
