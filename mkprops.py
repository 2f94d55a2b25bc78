#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [], 'observe_at': list(observe), 'hook_needed': None,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


PDU = 'gsmmodem/pdu.py'
MOD = 'gsmmodem/modem.py'
SER = 'gsmmodem/serial_comms.py'
UTL = 'gsmmodem/util.py'

p('P01', 'GSM-7 text coding follows the standard alphabet and is invertible',
  'Encoding a text as GSM-7 yields exactly the default- and extension-table codes of GSM 03.38 for its characters, and fails with '
  'ValueError (or skips the character, when asked to discard) exactly for characters in neither table. '
  'Decoding an encoded text gives the text back. Decoding any sequence of 7-bit codes maps each code, or escape pair, to its table '
  'character without failing; an escape pair that is not assigned shows the default-table character of its second code.',
  ['inputs'], 'every text of every Unicode code point up to the length bound; every sequence of 7-bit codes up to the bound',
  'The tests encode a handful of strings; the 1.1 million code points, the 128 extension codes and their positions are never covered.',
  [PDU], [('encodeGsm7 / decodeGsm7, GSM7_BASIC, GSM7_EXTENDED', PDU)], ['encodeGsm7', 'decodeGsm7'])
p('P02', 'Septet packing has the GSM bit layout and loses nothing',
  'Packing n 7-bit codes produces ceil(7n/8) octets in which code i occupies bits 7i..7i+6, least significant bit first, shifted by the '
  'fill bits that follow a user data header of h octets, with unused bits zero. Unpacking the packed octets gives the same codes back '
  '(except that a final code 0 filling the last octet exactly cannot be told from padding when no length is given). An empty '
  'sequence packs to no octets.',
  ['inputs'], 'every sequence of 7-bit codes up to the length bound, every alignment of a preceding header',
  'Nine fixed strings are packed; the eight length classes, the seven alignments and the code values that expose a wrong shift are not.',
  [PDU], [('packSeptets / unpackSeptets', PDU)], ['packSeptets', 'unpackSeptets'])
p('P03', 'Semi-octet digit coding round-trips and places nibbles as specified',
  'Coding a digit string puts digit 2i in the low and digit 2i+1 in the high nibble of octet i, with an F nibble completing an odd '
  'length. Decoding returns the digits, consumes exactly the stated number of octets and never reads past the terminating F nibble.',
  ['inputs'], 'every digit string up to the length bound, with arbitrary octets following it',
  'Four literal numbers are tested.', [PDU], [('encodeSemiOctets / decodeSemiOctets', PDU)], ['encodeSemiOctets', 'decodeSemiOctets'])
p('P04', 'Address fields round-trip and account for exactly their octets',
  'Every phone number (international with leading plus, or national digits) and every alphanumeric sender name expressible in GSM-7 is coded '
  'as length, type-of-address and value as GSM 03.40 prescribes, both as a message address and (numbers only) as a service-centre address. '
  'Decoding such a field followed by arbitrary octets returns the same address, reports its exact size and leaves the iterator at the '
  'octet after the field; a zero-length field decodes to no address.',
  ['inputs'], 'all digit strings and all GSM-7 names up to the length bound, followed by arbitrary octets',
  'Six literal addresses are tested.', [PDU], [('_encodeAddressField / _decodeAddressField', PDU)], ['encodeSmsSubmitPdu', 'decodeSmsPdu'])
p('P05', 'PDU timestamps round-trip with every quarter-hour zone',
  'A timezone-aware date between 1969 and 2068 is coded as seven swapped-BCD octets (YY MM DD hh mm ss zz) with zz the distance from UTC in '
  'quarter hours and the top bit marking zones west of Greenwich. Decoding gives back the same local fields and the same UTC offset; a date '
  'without zone is refused with ValueError.',
  ['inputs'], 'every valid date and time to the second in that century, every offset -19:45..+19:45 in quarter hours',
  'Three timestamps are tested.', [PDU], [('_encodeTimestamp / _decodeTimestamp / SmsPduTzInfo', PDU)], ['encodeSmsSubmitPdu', 'decodeSmsPdu'])
p('P06', 'Relative validity periods use the largest table value that fits',
  'Each of the 256 relative validity codes decodes to the duration GSM 03.40 gives it, and coding that duration gives the code back. Any '
  'requested duration from 5 minutes to 63 weeks is coded as the longest representable duration that does not exceed it; negative or longer '
  'ones are refused with ValueError.',
  ['inputs'], 'every code 0..255 and every duration to the second',
  'A dozen durations are tested, none next to the table boundaries.', [PDU],
  [('_encodeRelativeValidityPeriod / _decodeRelativeValidityPeriod', PDU)], ['encodeSmsSubmitPdu', 'decodeSmsPdu'])
p('P07', 'A submitted message carries exactly what the caller asked for',
  'The PDU built for a short text, decoded octet by octet by the rules of GSM 03.40, shows the given destination, text, reference, service '
  'centre, validity period, flash class, status-report-request and reject-duplicates flags and nothing else, and its reported TPDU length '
  'is the number of octets after the service-centre field. GSM-7 is used if and only if every character has a GSM-7 code, else UCS-2. '
  "The library's own decoder returns the same values.",
  ['inputs', 'configurations'], 'every text of every character up to the length bounds, all flag combinations, references, validity kinds',
  'The tests compare a few literal PDUs.', [PDU], [('encodeSmsSubmitPdu / decodeSmsPdu', PDU)], ['encodeSmsSubmitPdu', 'decodeSmsPdu'])
p('P08', 'Long texts are split without loss into well-formed concatenated parts',
  'A text that does not fit one message (160 septets or 70 UCS-2 units) is sent as N parts, each with a concatenation header carrying the same reference, the '
  'total N and its own number 1..N, each within 140 octets of user data, and the texts of the parts in order make up the original. '
  'A text that fits is sent as a single part without header. No part is empty and no character is split between parts.',
  ['inputs'], 'every text length up to the bound, every mixture of basic, escaped and non-GSM characters around part boundaries',
  'Two long messages are tested; the loss depends on the length modulo 153/67 and on where escaped characters fall.', [PDU],
  [('encodeSmsSubmitPdu splitting', PDU)], ['encodeSmsSubmitPdu'])
p('P09', 'Delivered messages and status reports are decoded as the standard lays out',
  'For every SMS-DELIVER and SMS-STATUS-REPORT built to GSM 03.40 (any service centre, any sender kind, 7-bit, 8-bit or UCS-2 text, with or '
  'without a user data header of any length), decoding returns exactly its service centre, sender, protocol id, time stamps, '
  'reference, delivery status, header elements and text, and the TPDU length.',
  ['inputs'], 'all field values; text and header lengths up to the bounds, including every septet alignment after a header',
  'A dozen captured PDUs are tested; header lengths other than 5 and 8-septet boundaries ending in @ never occur in them.', [PDU],
  [('decodeSmsPdu, _decodeUserData', PDU)], ['decodeSmsPdu'])
p('P10', 'User data header elements round-trip with the right width',
  'Concatenation and port elements are written in the 8-bit form when their values fit one octet and in the 16-bit form otherwise, and '
  'decoding any element sequence returns every identifier, length, payload and, for the known kinds, the decoded values. Re-encoding a '
  'decoded element of a known or unknown kind yields an equivalent element.',
  ['inputs'], 'all references, part numbers, ports 0..65535 and arbitrary unknown elements up to the size bound',
  'Only an 8-bit and a 16-bit example are tested.', [PDU], [('InformationElement, Concatenation, PortAddress', PDU)],
  ['decodeSmsPdu', 'InformationElement.encode'])
p('P11', 'Decoding arbitrary octets either succeeds or reports an encoding error',
  'For every octet string (and every hex or non-hex text) handed to the PDU decoder, the call terminates and either returns a result with one of the three known '
  'message types or raises the documented encoding error; no other exception escapes.',
  ['inputs'], 'every octet string up to the length bound; every text up to the bound',
  'One malformed PDU is tested.', [PDU], [('decodeSmsPdu', PDU)], ['decodeSmsPdu'])
p('P12', 'Text-mode time stamps keep their date, time and quarter-hour zone',
  'Parsing a text-mode time string "yy/MM/dd,hh:mm:ss+zz" returns exactly that date and time with a UTC offset of zz quarter hours, for zones '
  'east and west of Greenwich including half- and quarter-hour ones.',
  ['inputs'], 'every valid date and time, every zone -95..+95', 'Four time strings with whole-hour zones are tested.', [UTL],
  [('parseTextModeTimeStr, SimpleOffsetTzInfo', UTL)], ['ReceivedSms.time', 'StatusReport.timeSent'])

p('P13', 'The line reader hands over every received line once, in order',
  'However the bytes from the port arrive (any content, any pauses), the reader splits them at CR LF, drops empty lines, and delivers every other line exactly '
  'once, unchanged and in order, either to the waiting command or to the notification handler. Lines received while no command is '
  'waiting reach the handler as soon as no more bytes are pending, grouped in order and never twice.',
  ['inputs', 'schedules'], 'every byte content up to the length bound with a read timeout possible between any two bytes',
  'The tests feed a few well-formed lines.', [SER], [('_readLoop, _handleLineRead', SER)], ['notification callback', 'write()'])
p('P14', 'A command gets its own complete response and nothing else',
  'A command that waits for a response returns exactly the lines received between its transmission and the first line that is a final '
  'result (OK, ERROR, +CME/+CMS ERROR: n, COMMAND NOT SUPPORT), including it; a line that merely starts with or contains such a word '
  'does not end it. With a custom terminator the response ends exactly where that sequence first occurs, and the '
  'terminator does not affect later commands.',
  ['inputs', 'schedules'], 'every content of the response lines up to the bound; every following command',
  'Responses in the tests are a fixed OK or ERROR.', [SER], [('RESPONSE_TERM, _handleLineRead, write', SER)], ['write()'])
p('P15', 'A response timeout is reported with the partial data and leaves the link usable',
  'If no final result arrives in the given time the caller gets a timeout error carrying exactly the lines received so far (or none), no earlier than '
  'the requested time; the reader survives, whatever the interleaving of the late response with the expiry, and the next command works normally.',
  ['schedules', 'inputs'], 'every interleaving of reader and writer around the expiry, within the preemption bound',
  'The single timeout test has no late response.', [SER], [('write, _handleLineRead', SER)], ['write()'])
p('P16', 'Concurrent commands are serialised and never share a response',
  'When several threads issue commands at once, each command is transmitted only after the response of the previous one completed or timed out, and every thread '
  'gets the response to its own command, including when another fails or times out; no schedule deadlocks.',
  ['schedules'], 'every interleaving of two or three writers and the reader within the preemption bound',
  'The tests use one thread at a time.', [SER], [('_txLock', SER)], ['write()'])
p('P17', 'A device failure is reported once and the port is closed',
  'If the port fails while being read, the connection is marked dead, the port is closed and the fatal-error handler is called exactly once with the error, '
  'even if closing fails too; closing the connection normally stops the reader and closes the port without calling the handler.',
  ['fault_sequences', 'schedules'], 'a failure after any number of bytes of any content, and a close at any moment',
  'One failure point is tested.', [SER], [('_readLoop, close', SER)], ['fatal error callback', 'alive'])

p('P18', 'Modem error results map to the right exception with the right code',
  'Every final result of a command is either returned or raised as the documented error: CME and CMS errors carry their number and the specialised types for PIN required, '
  'wrong PIN, PUK required and unknown service centre, plain ERROR and COMMAND NOT SUPPORT a generic command error. '
  'Busy results (515 and 14) are retried after a growing pause until another result arrives, and with error parsing off the '
  'response is returned unchanged.',
  ['inputs', 'histories'], 'every error number 0..9999, every sequence of busy results up to the bound', 'Three codes are tested.',
  [MOD, 'gsmmodem/exceptions.py'], [('GsmModem.write, CmeError, CmsError', MOD)], ['write()'])
p('P19', 'Unsolicited notifications reach the one handler they belong to',
  'A notification is dispatched by what kind of message its line is: RING/+CRING to incoming calls, +CMTI to SMS arrival, +CDSI to status reports, +CUSD to USSD, and call-progress '
  'lines to call tracking; text inside a notification never changes its kind. An unknown notification changes nothing and raises nothing.',
  ['inputs'], 'every notification kind with arbitrary payload text up to the bound', 'Only fixed notifications are tested.', [MOD],
  [('__threadedHandleModemNotification', MOD)], ['callbacks'])
p('P20', 'Incoming calls are announced once each with caller, type and ring count',
  'Each RING announcement triggers the callback exactly once with the call it belongs to: a new incoming call with its number, type and a ring count of 1, or the '
  'already ringing call from that number with its ring count increased by one. Concurrent calls have different ids and all stay '
  'listed until they end.',
  ['histories', 'inputs'], 'every sequence of rings, caller numbers, call ends and dials up to the bound', 'Single calls are tested.',
  [MOD], [('_handleIncomingCall', MOD)], ['incomingCallCallback', 'activeCalls'])
p('P21', 'Outgoing call state follows the modem call-progress reports',
  'A dialled call becomes listed when the modem reports it initiated, becomes answered when it is reported answered, and becomes inactive and unlisted when it ends or is rejected, for each '
  'supported modem family; the status callback runs on each change. Reports about unknown calls change no other call and raise nothing.',
  ['histories', 'inputs'], 'every sequence of call-progress reports with any call ids up to the bound, for every family',
  'One fixed scenario per modem is tested.', [MOD], [('dial, _handleCallInitiated/Answered/Ended/Rejected, _pollCallStatus', MOD)],
  ['Call.answered', 'Call.active', 'activeCalls'])
p('P22', 'Answering and hanging up act once and only on their own call',
  'Answering sends the answer command only while the call rings; hanging up sends the hang-up command only while the call is active, after '
  'which the call is neither ringing, answered nor active and is unlisted. Repeating either, or hanging up a call that has already ended, sends nothing and never '
  'affects another call.',
  ['histories'], 'every sequence of answer, hang-up, ring and end events on up to two calls', 'Fixed sequences are tested.', [MOD],
  [('IncomingCall.answer, Call.hangup', MOD)], ['commands written', 'activeCalls'])
p('P23', 'DTMF tones are sent as one tone command each, in order, to an answered call',
  'For an answered call the tone string is sent as one command line that contains one tone command per tone, in order, in the syntax of the modem '
  'family; an unanswered or ended call raises the invalid-state error without sending anything. CME errors 30 and 3 surface as '
  'interruption errors, all other errors unchanged, and one modem\'s DTMF syntax never affects another modem.',
  ['inputs', 'configurations'], 'every tone string up to the bound, every error code', 'Fixed strings are tested.', [MOD],
  [('Call.sendDtmfTone', MOD)], ['commands written'])
p('P24', 'Sending an SMS submits every part once and returns the network reference',
  'Sending writes, for each part in order, the announced length command, waits for the prompt, then exactly that part terminated by Ctrl-Z; any refusal stops the '
  'sending and surfaces as the error. The returned message carries the number, text and reference reported by the modem, and the next '
  'message uses the following reference modulo 256.',
  ['inputs', 'fault_sequences'], 'every destination and text up to the bounds, every reported reference, failure at any step, both modes',
  'Fixed messages and references are tested.', [MOD], [('sendSms', MOD)], ['commands written', 'SentSms'])
p('P25', 'Delivery reports update exactly the message they refer to',
  'An arriving status report sets the report of the sent message with its reference and of no other, and the status becomes delivered or failed as '
  'the report says. A sender waiting for a delivery report returns when the report for its own message has arrived, whenever that is after submission, '
  'and otherwise times out; reports for other messages go to the status-report callback.',
  ['schedules', 'histories'], 'every order of reports and waiting senders within the bound', 'A single report after the wait is tested.',
  [MOD], [('_handleSmsStatusReport, sendSms', MOD)], ['SentSms.status', 'smsStatusReportCallback'])
p('P26', 'Received messages are read, deleted and delivered exactly once',
  'For each arrival notification the message is read from the indicated memory and index, deleted from that same memory and index, and handed to the callback exactly once with its '
  'sender, time, text and status, in both text and PDU mode.',
  ['inputs', 'schedules'], 'every memory, index and message content up to the bound; two notifications handled concurrently',
  'One notification at a time is tested.', [MOD], [('_handleSmsReceived, readStoredSms, deleteStoredSms, _setSmsMemory', MOD)],
  ['smsReceivedCallback', 'commands written'])
p('P27', 'Listing stored messages returns every message and deletes only those',
  'Listing returns each stored message of the requested status once, in order, with its own index, status, sender, time and text, whatever their texts contain; an undecodable entry is skipped '
  'without affecting the others. With deletion requested, exactly the returned messages are deleted from the memory they were read from.',
  ['inputs'], 'every listing of up to three messages with arbitrary contents and positions of bad entries, both modes',
  'Fixed listings are tested.', [MOD], [('listStoredSms, processStoredSms', MOD)], ['listStoredSms', 'commands written'])
p('P28', 'USSD replies are matched to the request with text and session state',
  'A USSD request returns the message text and whether the session remains open, whether the reply precedes or follows the OK, spans several lines, comes with '
  'an extra release, or has no text; without a reply it times out. Replying is refused once the session is closed, and '
  'cancelling sends the cancel command only for an open session.',
  ['inputs', 'schedules'], 'every reply text and session code up to the bound, both orders', 'Fixed replies are tested.', [MOD],
  [('sendUssd, _handleUssd, _parseCusdResponse, Ussd', MOD)], ['Ussd'])
p('P29', 'Modem status queries report what the modem answered',
  'Signal strength is the reported value with 99 meaning unknown (-1); operator name, service centre, identification strings and supported commands are those in the '
  'response; the service centre is queried once and cached, and setting it writes only changes. Waiting for coverage returns a positive signal strength only after registration, '
  'raises the invalid-state error when registration is denied or not attempted, and times out otherwise.',
  ['inputs', 'histories'], 'every reported value and every sequence of registration states up to the bound', 'Fixed values are tested.',
  [MOD], [('signalStrength, networkName, smsc, supportedCommands, waitForNetworkCoverage', MOD)], ['properties'])
p('P30', 'Connecting unlocks the SIM at most once and configures what is supported',
  'Connecting submits the PIN exactly once when the SIM asks for it and never when it is ready; without a PIN it raises the PIN-required error, and a wrong PIN surfaces as '
  'incorrect-PIN without a further attempt. Whichever optional commands the modem rejects, connecting succeeds with those features off, the service centre number is '
  'unchanged at the end, and the message format matches the selected mode. A modem that is not in full-functionality mode is switched to it, any other is not. '
  'Voice calls and plain-text USSD are enabled on the modems that list the commands for it.',
  ['configurations', 'fault_sequences'], 'every subset of optional commands rejected, every SIM state', 'A handful of fixed fake modems are tested.',
  [MOD], [('connect, _unlockSim', MOD)], ['commands written', 'exceptions'])

TRI = 'tools/gsmtermlib/trie.py'
TER = 'tools/gsmtermlib/terminal.py'
p('P31', 'The prefix tree behaves as a map from strings to values',
  'After any sequence of insertions, overwrites and deletions the tree contains exactly the keys last stored, each with its last value; lookup of any other key '
  'fails, the size is their number, and key listing and iteration produce each once.',
  ['histories', 'inputs'], 'every history of insertions and deletions of keys up to the bounds',
  'Fixed key sets are tested, with deletion only of keys that share no prefix pattern.', [TRI], [('Trie', TRI)], ['Trie'])
p('P32', 'Prefix queries return exactly the matching keys and their common prefix',
  'Filtering by a prefix returns exactly the stored keys that start with it, and the longest-common-prefix query returns the longest string that all stored '
  'keys starting with the given prefix share (the empty string if there is none).',
  ['histories', 'inputs'], 'every stored key set and prefix up to the bounds', 'Fixed key sets are tested.', [TRI], [('Trie.filteredKeys, Trie.longestCommonPrefix', TRI)],
  ['Trie'])
p('P33', 'The terminal line editor keeps buffer, cursor and history consistent',
  'Any sequence of typed characters, cursor keys, backspace, delete, home, end and history keys leaves the input line as an ordinary line editor would, with the cursor inside it; '
  'Enter sends exactly the line (without surrounding blanks; lines that are commands of the terminal itself, such as help, ls or load, excepted) and records it in the history; '
  'while the text of a message is typed, Enter sends the text up to the cursor, Ctrl+Z all remaining text and the end mark, and Escape only the cancel mark; '
  'no key sequence raises an error.',
  ['histories'], 'every key sequence up to the bound', 'The terminal has no tests of its editor.', [TER], [('GsmTerm key handlers', TER)], ['input buffer', 'bytes sent'])
p('P34', 'Tab completion only extends the typed command to a common completion',
  'Completion never loses or changes typed characters except their case and surrounding blanks, extends the input only to the longest prefix shared by all commands that match it '
  '(to the whole command when only one matches), lists exactly those commands when it cannot extend, and never raises an error, whatever is typed.',
  ['inputs'], 'every typed text up to the bound against the command table', 'The terminal has no tests of completion.', [TER], [('GsmTerm._doCommandCompletion', TER)],
  ['input buffer'])

p('P35', 'Changing the message format takes effect everywhere at once',
  'Setting the text mode property changes the format of the modem exactly when it differs from the current one; if the modem refuses, the error surfaces and the library keeps '
  'using the old format. Set while closed, it takes effect on connecting. Every message sent, read, listed or received afterwards uses the format then in force in both the '
  'modem and the library, also while other threads are using the modem during the change: no message is lost, misread or sent in the wrong format.',
  ['histories', 'schedules'], 'every history of changes and message operations and every schedule of a change against another operation up to the bounds',
  'The tests set one mode before connecting and never change it afterwards.', [MOD], [('smsTextMode, _compileSmsRegexes, sendSms, readStoredSms, listStoredSms', MOD)],
  ['smsTextMode', 'commands written', 'messages'])
p('P36', 'Callbacks may use the modem',
  'A callback (incoming call, change of a dialled call, received message, delivery report) can issue commands, send messages and wait for their delivery reports, read messages, make '
  'USSD requests, dial, answer, hang up and close the connection; each gets its own result and the callback completes. Notifications that arrive meanwhile are handled exactly '
  'once as well, other threads get the responses to their own commands, and the modem stays usable.',
  ['histories', 'schedules'], 'every callback with every operation in it and every second notification, under the schedules up to the bound',
  'The callbacks in the tests only record their arguments.', [MOD, SER], [('_handleModemNotification, notification handlers', MOD), ('_handleLineRead, write', SER)],
  ['callbacks', 'commands written', 'responses'])
p('P37', 'Modems used in one process do not affect each other',
  'With several modem objects connected to different devices in one process, each writes exactly the commands, returns exactly the results, runs exactly the callbacks and has exactly the state '
  '(calls, message format, service centre number) that it would have if it were the only one, whichever families they belong to and in whatever order they are connected, used and '
  'closed. A modem that keeps its user waiting does not hold up another.',
  ['histories', 'configurations'], 'every pair of modem families and every interleaving of operations on the two up to the bounds',
  'The tests use one modem object at a time.', [MOD, SER], [('GsmModem, Call', MOD), ('SerialComms', SER)], ['commands written', 'callbacks', 'state'])
p('P38', 'A connection that was closed or has failed can be opened again',
  'After close(), or after the port has failed, the same object can be connected again on a new port, any number of times: it is alive, the old port is left alone, nothing received in '
  'an earlier connection (complete or partial lines, responses, prompts) appears in the new one, every command gets its own response and every notification is handled exactly once. '
  'The message format and service centre number are those in force before.',
  ['histories', 'crash_points'], 'every end of the first connection (closing or failure after any received characters, idle or within a command) and every operation in each connection up to the bounds',
  'The tests connect each object once.', [SER, MOD], [('connect, close, _readLoop', SER), ('connect', MOD)], ['notifications', 'responses', 'commands written'])
p('P39', 'The terminal screen shows the input line, the cursor and all modem output',
  'After every editing, history, completion or message-text key, the last row of the screen shows the prompt and exactly the current input line, with the cursor at the editing position. Every line the modem sends is shown '
  'once, complete, in order, on a row of its own, and leaves the line being edited intact (and, in GsmTerm, redrawn below); an entered line stays on the screen. The prompt is that of the current mode (command or message text) '
  'whatever arrives meanwhile. In raw mode every key goes to the modem at once (Enter as carriage return) and is echoed. The exit keys close the port and send nothing.',
  ['histories'], 'every key sequence with modem output at any point, up to the bound', 'The terminal has no tests.', [TER], [('_refreshInputPrompt, _removeInputPrompt, _handleModemNotification, key handlers, RawTerm._inputLoop', TER)],
  ['screen contents', 'bytes sent'])
p('P40', 'The command line tools do what they are told and report truthfully',
  'sendsms opens the given port at the given speed, uses the given PIN only if the SIM asks for it and at most once, sends exactly the typed text once to the given destination if and only if the modem has network coverage, and asks '
  'for a delivery report if told to; it reports the message as sent only if the modem accepted it, as delivered only if the report says so, and exits with a failure status otherwise. identify-modem shows exactly what the modem answers '
  'to each query, refused or not in debug mode. gsmterm opens the given port in the selected mode and closes it on exit.',
  ['configurations', 'inputs'], 'every text, number, option set and modem behaviour up to the bounds', 'The tools have no tests.', ['tools/sendsms.py', 'tools/identify-modem.py', 'tools/gsmterm.py'],
  [('main', 'tools/sendsms.py'), ('main', 'tools/identify-modem.py'), ('main', 'tools/gsmterm.py')], ['commands written', 'output', 'exit status'])


if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
