"""Stand-in for the serial device: what the code writes is recorded, what the device sends is read back
character by character.  read(1) behaves like pyserial with a timeout: '' when nothing arrives in time."""
import vlib as V


class Port(object):
    def __init__(self, **k):
        self.timeout = k.get('timeout', 1)
        self.rx = []             # characters on their way to the library
        self.log = []            # what the library wrote, one entry per write
        self.closed = False
        self.onwrite = None
        self.reads = 0
        self.error = None        # raised by read() once everything fed is read
        self.raised = 0

    def read(self, n=1):
        self.reads += 1
        if not self.rx:
            V.sched.block(lambda: len(self.rx) > 0 or self.closed or self.error is not None, self.timeout)
        if not self.rx:
            if self.error is not None:
                self.raised += 1
                raise self.error
            return ''
        return self.rx.pop(0)

    def inWaiting(self):
        return len(self.rx)

    in_waiting = property(inWaiting)

    def write(self, data):
        self.log.append(data)
        if self.onwrite is not None:
            self.onwrite(data)
        return len(data)

    def flush(self):
        pass

    def flushInput(self):
        pass

    def flushOutput(self):
        pass

    def isOpen(self):
        return not self.closed

    def close(self):
        self.closed = True

    def feed(self, text):
        for c in text:
            self.rx.append(c)
