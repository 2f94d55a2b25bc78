#!/usr/bin/env python3
"""Regenerates DESIGN.md: the text below + the bounds of each harness + the recorded defects + the quick run times in evidence/."""
import ast, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
props = {j['id']: j for j in map(json.loads, open(os.path.join(HERE, 'properties.jsonl')))}


def consts(i):
    out = {}
    for n in ast.parse(open(os.path.join(HERE, 'harness', i.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


# how each property is decided: what is executed symbolically, what the oracle is
HOW = {
 'P01': 'encodeGsm7, decodeGsm7 on symbolic code points / 7-bit codes; oracle: the two tables of GSM 03.38 transcribed in spec.py, applied to the same symbolic characters.',
 'P02': 'packSeptets, unpackSeptets on symbolic codes; oracle: bit equations "octet bits = code bits" (bit i of code k is bit 7k+i+fill of the output), decided by the solver for all codes at once.',
 'P03': 'encodeSemiOctets, decodeSemiOctets on symbolic digits; oracle: nibble equations and position of the iterator afterwards.',
 'P04': '_encodeAddressField, _decodeAddressField on symbolic digits/characters, followed by symbolic junk; oracle: field layout in spec.py.',
 'P05': '_encodeTimestamp, _decodeTimestamp on symbolic year..second and zone (dt.py models datetime on terms); oracle: BCD equations.',
 'P06': '_encodeRelativeValidityPeriod, _decodeRelativeValidityPeriod with a symbolic code / a symbolic duration in microseconds; oracle: the four ranges of the standard, "no larger code fits" asserted over all 256.',
 'P07': 'encodeSmsSubmitPdu end to end on symbolic text, number, flags, validity; the result is read by an independent decoder (spec.py) and by decodeSmsPdu.',
 'P08': 'encodeSmsSubmitPdu on multi-part texts whose characters around every seam are symbolic; oracle: independent reassembly.',
 'P09': 'PDUs laid out by spec.py from symbolic fields are given to decodeSmsPdu; every field compared.',
 'P10': 'Concatenation, PortAddress and generic elements, UserDataHeader.decode/encode with symbolic values and payloads.',
 'P11': 'decodeSmsPdu on wholly symbolic octets / hex text, and on templates with symbolic holes, truncated anywhere; assertion: a result or EncodingError, nothing else, and it terminates (path step limit).',
 'P12': 'util.parseTextModeTimeStr and SimpleOffsetTzInfo on symbolic digits.',
 'P13': 'SerialComms read thread, on the fake port with symbolic characters and solver-chosen burst boundaries; threads interleave at each access to shared state; oracle: split at CR LF of the same stream.',
 'P14': 'SerialComms.write with symbolic response lines and terminators; oracle: grammar of final results in the harness.',
 'P15': 'SerialComms.write with a response (or its late rest) at symbolic moments around the expiry; virtual clock; oracle: partial data and time of return.',
 'P16': 'GsmModem.write / SerialComms.write from two or three threads under the symbolic scheduler (preemption bounded), each command answered, refused or ignored; oracle: order of the bytes on the port, per-thread answers, absence of deadlock.',
 'P17': 'SerialComms with a port that fails at a symbolic moment; oracle: number of handler calls, port state, `alive` at each moment.',
 'P18': 'GsmModem.write with symbolic error kind and code digits; oracle: table of exceptions; retry pauses read from the virtual clock.',
 'P19': 'GsmModem._handleModemNotification (through the reader) on symbolic lines; handlers replaced by recorders on the instance; oracle: grammar of the notifications.',
 'P20': 'GsmModem with the model modem (mdm.py): histories of rings, dials and ends chosen by the solver; oracle: an abstract list of calls.',
 'P21': 'as P20 with dial() of each modem family (Huawei, ZTE, Wavecom, generic polling) and every order of progress reports; symbolic call ids, digits, poll answers.',
 'P22': 'as P20 with answer()/hangup() on any call, current or ended; commands on the port compared with the abstract state.',
 'P23': 'Call.sendDtmfTone of each family with symbolic tones, ids and error codes; oracle: documented command syntax.',
 'P24': 'GsmModem.sendSms in both modes against a model of the +CMGS dialogue; refusals at any step; threads interleaving with the dialogue.',
 'P25': 'sendSms(waitForDeliveryReport), status report handling; symbolic references, statuses, times, places; schedules of waiting senders.',
 'P26': '_handleSmsReceived, readStoredSms, deleteStoredSms against a model of the message memories (smsbox.py); symbolic texts, senders, places.',
 'P27': 'listStoredSms, processStoredSms, deleteMultipleStoredSms against the same model.',
 'P28': 'sendUssd, Ussd.reply/cancel against a model of the session; the reply at a symbolic moment relative to the OK.',
 'P29': 'signalStrength, networkName, imei, supportedCommands, smsc, waitForNetworkCoverage ... against a model modem with symbolic answers.',
 'P30': 'GsmModem.connect() whole, against a model modem that rejects a symbolic subset of the optional commands, with a symbolic PIN, CFUN value, number.',
 'P31': 'util/trie operations on symbolic keys; oracle: an association list.',
 'P32': 'Trie.filter / longestCommonPrefix with symbolic keys and prefix; oracle: definition over the same keys.',
 'P33': 'gsmtermlib GsmTerm key handling on symbolic keys; oracle: a line-editor model (buffer, cursor, history).',
 'P35': 'GsmModem.smsTextMode with sendSms, listStoredSms and arrivals against a model modem that keeps its own format; histories and schedules chosen by the solver; library mode, modem mode and message contents compared after each step.',
 'P36': 'notification handlers with callbacks that run an operation of the public interface while further notifications arrive; virtual time and scheduler detect a callback that never completes.',
 'P37': 'self-composition: the same operations on a modem alone and next to another one (every family pair, every position of the other\'s operation); writes, results, callbacks and state must be equal.',
 'P38': 'SerialComms and GsmModem: symbolic characters and end of the first connection, then a second (third) one on a new port; its notifications and responses compared with what that port carried.',
 'P39': 'GsmTerm / RawTerm on symbolic keys and symbolic modem output; everything written to the console goes through a screen model whose rows and cursor are compared with the editor model of P33.',
 'P40': 'main() of the three tools, with the real argument parser, against a model modem; the PDU sent is decoded with the specification functions of P07.',
 'P34': 'GsmTerm tab completion on symbolic lines and command tables; oracle: definition of the common completion.',
}
CATCH = json.load(open(os.path.join(HERE, 'catch.json'))) if os.path.exists(os.path.join(HERE, 'catch.json')) else {}


def prop_text():
    out = []
    for i in sorted(props):
        c = consts(i)
        b = c['BOUNDS']
        w = ''
        try:
            e = json.load(open(os.path.join(HERE, 'evidence', i + '.json')))
            if e['tier'] == 'quick':
                w = ''
        except Exception:
            pass
        out.append('### %s %s' % (i, props[i]['title']))
        out.append('')
        out.append('* Decided by: ' + HOW[i])
        if isinstance(b, dict):
            out.append('* Bounds (quick): ' + b['quick'])
            out.append('* Bounds (thorough): ' + b['thorough'])
        else:
            out.append('* Bounds: ' + b)
        if c.get('OUTSIDE'):
            out.append('* Outside: ' + c['OUTSIDE'])
        out.append('* Why tests cannot: ' + props[i]['why_tests_cant'])
        out.append('')
    return '\n'.join(out)


def defects():
    k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out = ['Repaired in /repo, one "fix:" commit each (found by the check of the property named):', '']
    for f in k['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
        out.append('* %s (%s) %s' % m.groups())
    out += ['', 'Recorded, not repaired (known_findings.json; the checks print KNOWN-FINDING and still report anything else):', '']
    for f in k['findings']:
        out.append('* %s: %s' % (f['id'], f['what']))
    return '\n'.join(out)


def seeds():
    out = []
    d = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(d)):
        p = os.path.join(d, s, 'meta.json')
        if os.path.exists(p):
            m = json.load(open(p))
            out.append('| %s | %s | %s | %s |' % (s, m['property'], CATCH.get(s, 'caught by ' + m['property']), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')[:160]))
    return '\n'.join(['| seed | property | result | what it breaks |', '|---|---|---|---|'] + out)


t = open(os.path.join(HERE, 'design.in')).read()
t = t.replace('@PROPS@', prop_text()).replace('@DEFECTS@', defects()).replace('@SEEDS@', seeds())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
print(len(t))
