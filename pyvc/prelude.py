"""Python definitions of iterating built-ins, interpreted so that their loops obey the loop rule."""


def to_list(it):
    out = []
    for x in it:
        out.append(x)
    return out


def collect(it, begin):
    out = []
    begin(it, out)
    for x in it:
        out.append(x)
    return out


def sum_(it, start):
    for x in it:
        start = start + x
    return start


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def reduce_(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = f(acc, x)
    return acc


def takewhile_(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def islice_(it, start, n):
    it = iter(it)
    i = 0
    while i < n:
        try:
            x = next(it)
        except StopIteration:
            return
        if i >= start:
            yield x
        i += 1


def islice_rest(it, start, n):
    it = iter(it)
    i = 0
    while i < start:
        try:
            next(it)
        except StopIteration:
            return
        i += 1
    for x in it:
        yield x


def compress_(it, sel):
    for x, s in zip(it, sel):
        if s:
            yield x


def bytes_(it):
    out = bytearray()
    for x in it:
        out.append(x)
    return bytes(out)


class BytesIO:
    def __init__(self, initial_bytes=b""):
        self.data = initial_bytes
        self.pos = 0

    def read(self, size=-1):
        if size is None or size < 0:
            out = self.data[self.pos:]
        else:
            out = self.data[self.pos:self.pos + size]
        self.pos += len(out)
        return out

    read1 = read

    def seek(self, offset, whence=0):
        if whence == 0:
            if offset < 0:
                raise ValueError("negative seek value")
            self.pos = offset
        else:
            self.pos = max(0, offset + (self.pos if whence == 1 else len(self.data)))
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.data

    getbuffer = getvalue

    def readable(self):
        return True

    def seekable(self):
        return True

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class deque:
    def __init__(self, iterable=()):
        self.items = list(iterable)

    def append(self, x):
        self.items.append(x)

    def extend(self, it):
        self.items.extend(it)

    def popleft(self):
        if not self.items:
            raise IndexError("pop from an empty deque")
        x = self.items[0]
        self.items = self.items[1:]
        return x

    def pop(self):
        return self.items.pop()

    def clear(self):
        self.items = []

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


def count_(start=0, step=1):
    while True:
        yield start
        start += step


def bytes_split0(b):
    out = []
    while True:
        a, s, b = b.partition(b"\x00")
        out.append(a)
        if not s:
            return out


def iter_unpack(fmt, b):
    import struct
    n = struct.calcsize(fmt)
    if n == 0 or len(b) % n:
        raise struct.error("iterative unpacking requires a buffer of a multiple of the size")
    pos = 0
    while pos < len(b):
        yield struct.unpack_from(fmt, b, pos)
        pos += n
