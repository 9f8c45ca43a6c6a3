U="UnicodeSet.py"
SPECS=[
dict(ID="find-rewrite",PROPS="C02 C04",EDITS=[(U,"""        while True:
            i = (lo + hi) >> 1

            if i == lo:
                break

            if cp < self.list[i]:
                hi = i
            else:
                lo = i

        return hi""","""        while hi - lo > 1:
            mid = (lo + hi) // 2

            if self.list[mid] <= cp:
                lo = mid
            else:
                hi = mid

        return hi""")]),
dict(ID="find-local-list",PROPS="C03",EDITS=[(U,"""        if cp < self.list[0]:
            return 0

        length = len(self.list)
        lo: int = 0
        hi: int = length - 1
""","""        boundaries = self.list
        if cp < boundaries[0]:
            return 0

        lo: int = 0
        hi: int = len(boundaries) - 1
""")]),
dict(ID="pin-minmax",PROPS="C03 C02",EDITS=[(U,"""    if (cp < UNICODE_SET_LOW):
        cp = UNICODE_SET_LOW
    elif (cp > (UNICODE_SET_HIGH - 1)):
        cp = UNICODE_SET_HIGH - 1

    return cp""","""    return max(UNICODE_SET_LOW, min(cp, UNICODE_SET_HIGH - 1))""")]),
dict(ID="range-list-helper",PROPS="C03 C01",EDITS=[(U,"""class UnicodeSet(object):""","""def _rangeList(start: int, end: int) -> list[int]:
    return [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]


class UnicodeSet(object):"""),(U,"""            start = _pinCodePoint(start)
            end = _pinCodePoint(end)
            other = [start, end + 1, UNICODE_SET_HIGH]
            self._retainList(other, 2) # polarity""","""            self._retainList(_rangeList(start, end), 2) # polarity"""),(U,"""            start = _pinCodePoint(start)
            end = _pinCodePoint(end)
            other = [start, end + 1, UNICODE_SET_HIGH]
            self._exclusiveOrList(other)""","""            self._exclusiveOrList(_rangeList(start, end))""")]),
dict(ID="retain-early-return",PROPS="C03",EDITS=[(U,"""        if start <= end:
            start = _pinCodePoint(start)
            end = _pinCodePoint(end)
            other = [start, end + 1, UNICODE_SET_HIGH]
            self._retainList(other, 0) # polarity == 0: intersect
        else:
            self.clear()  # intersecting with an empty range

        return self""","""        if end < start:
            return self.clear()  # intersecting with an empty range

        first, last = _pinCodePoint(start), _pinCodePoint(end)
        return self._retainList([first, last + 1, UNICODE_SET_HIGH])""")]),
dict(ID="size-sum",PROPS="C04",EDITS=[(U,"""        s = 0

        for index in range(self.getRangeCount()):
            start = self.getRangeStart(index)
            end = self.getRangeEnd(index)
            s += end - start + 1

        return s""","""        return sum(len(r) for r in self.getRanges())""")]),
dict(ID="ranges-comprehension",PROPS="C04",EDITS=[(U,"""        ranges: list[range] = []
        for i in range(0, len(self.list) - 1, 2):
            ranges.append(range(self.list[i], self.list[i+1]))

        return ranges""","""        return [range(self.list[i], self.list[i+1]) for i in range(0, len(self.list) - 1, 2)]"""),(U,"""        for i in range(0, len(self.list) - 1, 2):
            for cp in range(self.list[i], self.list[i+1]):
                yield cp""","""        for codeRange in self.getRanges():
            yield from codeRange""")]),
dict(ID="indexof-while",PROPS="C04",EDITS=[(U,"""        for i in range(0, len2, 2):
            start = self.list[i]

            if cp < start:
                break

            limit = self.list[i+1]

            if cp < limit:
                return n + cp - start

            n += limit - start

        return None""","""        i = 0
        while i < len2 and self.list[i] <= cp:
            start = self.list[i]
            limit = self.list[i+1]

            if cp < limit:
                return n + cp - start

            n += limit - start
            i += 2

        return None""")]),
dict(ID="xor-helper",PROPS="C01",EDITS=[(U,"""            elif a != UNICODE_SET_HIGH: # a == b, discard both
                a = self.list[i]
                i += 1
                b = other[j]
                j += 1
            else: # done!
                buffer.append(UNICODE_SET_HIGH)
                break

        self.list = buffer""","""            elif a == UNICODE_SET_HIGH: # done!
                break
            else: # a == b, discard both
                a, b = self.list[i], other[j]
                i += 1
                j += 1

        buffer.append(UNICODE_SET_HIGH)
        self.list = buffer""")]),
dict(ID="complement-insert",PROPS="C01 C03",EDITS=[(U,"""            if self.list[0] == UNICODE_SET_LOW:
                self.list = self.list[1:]
            else:
                self.list[0:0] = [UNICODE_SET_LOW]""","""            if self.list[0] == UNICODE_SET_LOW:
                del self.list[0]
            else:
                self.list.insert(0, UNICODE_SET_LOW)""")]),
dict(ID="add-reorder",PROPS="C02",EDITS=[(U,"""        if cp == self.list[i] - 1:
            self.list[i] = cp

            if cp == UNICODE_SET_HIGH - 1:
                self.list.append(UNICODE_SET_HIGH)

            if i > 0 and cp == self.list[i-1]:
                del self.list[i-1:i+1]

        elif i > 0 and cp == self.list[i-1]:""","""        touchesPrevious = i > 0 and self.list[i-1] == cp
        if self.list[i] == cp + 1:
            self.list[i] = cp

            if cp == UNICODE_SET_HIGH - 1:
                self.list += [UNICODE_SET_HIGH]

            if touchesPrevious:
                del self.list[i-1:i+1]

        elif touchesPrevious:""")]),
dict(ID="union-chain",PROPS="C01",EDITS=[(U,"""        result = UnicodeSet(self)
        return result.addAll(other)""","""        return self.copy().addAll(other)"""),(U,"""    def clear(self):""","""    def copy(self) -> UnicodeSet:
        return UnicodeSet(self)

    def clear(self):""")]),
dict(ID="init-common",PROPS="C02 C01",EDITS=[(U,"""        if arg is None:
            self.list: list[int] = [UNICODE_SET_HIGH]
        elif type(arg) is UnicodeSet:
            self.list = arg.list.copy()
        elif type(arg) is int:
            self.list = [UNICODE_SET_HIGH]
            self.add(arg)
        elif type(arg) is range:
            self.list = [UNICODE_SET_HIGH]
            self.addRange(arg.start, arg.stop - 1)
        else:""","""        self.list: list[int] = [UNICODE_SET_HIGH]

        if arg is None:
            pass
        elif type(arg) is UnicodeSet:
            self.list = list(arg.list)
        elif type(arg) is int:
            self.add(arg)
        elif type(arg) is range:
            self.addRange(arg.start, arg.stop - 1)
        else:""")]),
dict(ID="str-join",PROPS="C02",EDITS=[(U,"""        pieces: list[str] = []

        for cp in self.list:
            pieces.append(f"0x{cp:04X}")

        s = ", ".join(pieces)

        return f"[{s}]\"""","""        return "[" + ", ".join(f"0x{cp:04X}" for cp in self.list) + "]\"""")]),
dict(ID="retain-advance",PROPS="C01",EDITS=[(U,"""            elif polarity == 1: # a second, b first
                if a < b: # no overlap, drop a
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                elif b < a: # overlap, take b
                    buffer.append(b)
                    b = other[j]
                    j += 1
                    polarity ^= 2
                else: # a == b, drop both!
                    if a == UNICODE_SET_HIGH:
                        break
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                    b = other[j]
                    j += 1
                    polarity ^= 2

            elif""","""            elif polarity == 1: # a second, b first
                if a == b: # drop both!
                    if a == UNICODE_SET_HIGH:
                        break
                    a = self.list[i]
                    b = other[j]
                    i += 1
                    j += 1
                    polarity = 2
                elif a < b: # no overlap, drop a
                    a = self.list[i]
                    i += 1
                    polarity = 0
                else: # overlap, take b
                    buffer.append(b)
                    b = other[j]
                    j += 1
                    polarity = 3

            elif""")]),
]
