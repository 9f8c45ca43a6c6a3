import re

CT = "UnicodeData/CPTrie.py"; U2 = "UnicodeData/Utrie2.py"; C = "UnicodeData/CharNames.py"; N = "UnicodeData/Normalizer2.py"
MB = "module_builder/ModuleBuilder.py"; UR = "module_builder/UCDReader.py"
SPECS = [
dict(ID="ct-block-helper", PROPS="C07 C08", EDITS=[(CT, '''                if (i3Block & 0x8000) == 0:
                    block = self.index[i3Block + i3]
                else:
                    # 18-bit indexes stored in groups of 9 entries per 8 indexes.
                    group = (i3Block & 0x7FFF) + (i3 & ~7) + (i3 >> 3)
                    gi = i3 & 7
                    block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                    block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
''', '''                block = self._dataBlock(i3Block, i3)
'''), (CT, '''    def smallIndex(self, c: int) -> int:
''', '''    def _dataBlock(self, i3Block: int, i3: int) -> int:
        if (i3Block & 0x8000) == 0:
            return self.index[i3Block + i3]
        group = (i3Block & 0x7FFF) + (i3 & ~7) + (i3 >> 3)
        gi = i3 & 7
        return ((self.index[group] << (2 + (2 * gi))) & 0x30000) | self.index[group + gi + 1]

    def smallIndex(self, c: int) -> int:
''')]),
dict(ID="ct-get-block-helper", PROPS="C07 C08", EDITS=[(CT, '''        if (i3Block & 0x8000) == 0:
            # 16-bit indexes
            dataBlock = self.index[i3Block + i3]
        else:
            # 18-bit indexes stored in groups of 9 entries per 8 indexes.
            i3Block = (i3Block & 0x7fff) + (i3 & ~7) + (i3 >> 3)
            i3 &= 7
            dataBlock = (self.index[i3Block] << (2 + (2 * i3))) & 0x30000
            dataBlock |= self.index[i3Block + 1 + i3]
        return dataBlock + (c & UCPTRIE_SMALL_DATA_MASK)
''', '''        return self._dataBlock(i3Block, i3) + (c & UCPTRIE_SMALL_DATA_MASK)

    def _dataBlock(self, i3Block: int, i3: int) -> int:
        if not (i3Block & 0x8000):
            return self.index[i3Block + i3]
        group = (i3Block & 0x7FFF) + (i3 & ~7) + (i3 >> 3)
        gi = i3 & 7
        high = (self.index[group] << (2 + 2 * gi)) & 0x30000
        return high | self.index[group + 1 + gi]
''')]),
dict(ID="ct-inner-while", PROPS="C08", EDITS=[(CT, '''            for i3 in range(i3Start, i3BlockLength):
                if c >= limit: break
''', '''            i3 = i3Start - 1
            while i3 + 1 < i3BlockLength and c < limit:
                i3 += 1
''')]),
dict(ID="ct-first-value", PROPS="C08", EDITS=[(CT, '''                        di = block + (c & dataMask)
                        value = self.data[di]
                        if prevValue != value:
                            if prev < c: yield range(prev, c), prevValue
                            prev = c
                            prevValue = value

                        c += 1
                        di += 1
                        while c < limit and (c & dataMask) != 0:
''', '''                        di = block + (c & dataMask)
                        first = True
                        while c < limit and (first or (c & dataMask) != 0):
                            first = False
''')]),
dict(ID="u2-j-while", PROPS="C06", EDITS=[(U2, '''                        jStart = c & self.DATA_MASK
                        jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
                        for j in range(jStart, jLimit):
                            value = valueFunction(self.index[block + j], **valueFunctionArgs)
''', '''                        blockLimit = min((c | self.DATA_MASK) + 1, tempLimit)
                        while c < blockLimit:
                            value = valueFunction(self.index[block + (c & self.DATA_MASK)], **valueFunctionArgs)
''')]),
dict(ID="u2-bmp-order", PROPS="C06", EDITS=[(U2, '''                if not isSurrogate(c):
                    i2Block = (c >> self.SHIFT_1) << self.SHIFT_1_2
                elif isSurrogateLead(c):
                    # Enumerate values for lead surrogate code points, not code units:
                    # This special block has half the normal length.
                    i2Block = self.LSCP_INDEX_2_OFFSET
                    tempLimit = min(0xDC00, limit)
                else:
''', '''                if 0xD800 <= c <= 0xDBFF:
                    i2Block = self.LSCP_INDEX_2_OFFSET
                    tempLimit = min(0xDC00, limit)
                elif c < 0xD800 or c > 0xDFFF:
                    i2Block = (c >> self.SHIFT_1) << self.SHIFT_1_2
                else:
''')]),
dict(ID="cn-string-while", PROPS="C19 C21", EDITS=[(C, '''        nameLength = len(string)
        s = 0

        while nameLength > 0:
            c = string[s]
            s += 1
            nameLength -= 1
''', '''        s = 0

        while s < len(string):
            c = string[s]
            s += 1
'''), (C, '''                    s += 1
                    nameLength -= 1

                if token''', '''                    s += 1

                if token''')]),
dict(ID="cn-string-list", PROPS="C19 C21", EDITS=[(C, '''                    while cls._strings[token] != 0:
                        expandedName += chr(cls._strings[token])
                        token += 1
''', '''                    while (unit := cls._strings[token]) != 0:
                        expandedName = expandedName + chr(unit)
                        token = token + 1
''')]),
dict(ID="cn-group-comprehension", PROPS="C19 C21", EDITS=[(C, '''        self.strings: list[bytes] = []
''', ''''''), (C, '''        for i in range(len(offsets)):
            stringStart = dataOffset + offsets[i]
            stringLimit = stringStart + lengths[i]
            self.strings.append(icuData.getData(stringStart, stringLimit))
''', '''        self.strings: list[bytes] = [icuData.getData(dataOffset + o, dataOffset + o + n) for o, n in zip(offsets, lengths)]
''')]),
dict(ID="cn-alg-for", PROPS="C20 C21", EDITS=[(C, '''        indexes: list[int] = []
        code = char - self.charRange.start
        suffix = self.string
        count = len(self.factors) - 1
        for i in range(count, 0, -1):
            factor = self.factors[i]
            indexes.insert(0, code % factor)
            code //= factor

        indexes.insert(0, code)

        elementIndex = 0
        for i in range(count + 1):
            elementIndex += indexes[i]
            suffix += self.elements[elementIndex]
            elementIndex += self.factors[i] - indexes[i]

        return suffix
''', '''        code = self.charOffsetInRange(char)
        count = len(self.factors)
        indexes = [0] * count
        i = count - 1
        while i > 0:
            indexes[i] = code % self.factors[i]
            code = code // self.factors[i]
            i -= 1
        indexes[0] = code

        suffix = self.string
        base = 0
        for index, factor in zip(indexes, self.factors):
            suffix += self.elements[base + index]
            base += factor

        return suffix
''')]),
dict(ID="cn-hex-width", PROPS="C20 C21", EDITS=[(C, '''            digits = self.variant
            if digits == 4:
                hex = f"{code:04X}"
            elif digits == 5:
                hex = f"{code:05X}"
            else:
                hex = f"{code:06X}"
            name += hex
''', '''            digits = self.variant if self.variant in (4, 5) else 6
            name += f"{code:0{digits}X}"
''')]),
dict(ID="cn-next-name", PROPS="C21", EDITS=[(C, '''        for (code, name) in cls.nameIterator(nameChoice):
            if name == theName:
                return code

        return 0xFFFFFFFF
''', '''        return next((code for (code, name) in cls.nameIterator(nameChoice) if name == theName), 0xFFFFFFFF)
''')]),
dict(ID="cn-iter-list", PROPS="C21", EDITS=[(C, '''        for charRange in sorted([*cls._groups, *cls._algorithmicRanges], key=lambda r: r.charRange.start):
            for (code, name) in charRange.nameIterator(nameChoice):
                if name: yield (code, name)
''', '''        ranges = list(cls._groups)
        ranges += cls._algorithmicRanges
        ranges.sort(key=lambda r: r.charRange.start)
        for charRange in ranges:
            for (code, name) in charRange.nameIterator(nameChoice):
                if not name:
                    continue
                yield (code, name)
''')]),
dict(ID="n2-raw-split", PROPS="C16 C17", EDITS=[(N, '''        if firstUnit & MAPPING_HAS_RAW_MAPPING:
''', '''        if not (firstUnit & MAPPING_HAS_RAW_MAPPING):
            return self.stringFromData(ix + 1, length) if length else None
        if True:
''')]),
dict(ID="n2-str-pairs", PROPS="C16 C17", EDITS=[(N, '''        s = ""

        # lead is the lead surrogate of a surrogate pair
        for i in range(length):
            ch = self.extraData[index + i]

            # handle surrogate pairs
            if lead != 0:
                ch = charFromSurrogates(lead, ch)
                lead = 0
            elif isLead(ch):
                lead = ch
                continue

            s += chr(ch)

        return s
''', '''        parts = []
        for ch in self.extraData[index:index + length]:
            if lead != 0:
                parts.append(chr(charFromSurrogates(lead, ch)))
                lead = 0
            elif isLead(ch):
                lead = ch
            else:
                parts.append(chr(ch))
        return "".join(parts)
''')]),
dict(ID="mb-array-helper", PROPS="C25", EDITS=[(MB, '''        final = "\\n" if "\\n" in array else ""
        if array.endswith("\\n"):
            array = array[:-1]
        if final:
            array = array.replace("\\n", "\\n    ")
        self.outputLines.append(f"{arrayName} = [{array}{final}]\\n")
''', '''        if "\\n" in array:
            lines = array.split("\\n")
            if not lines[-1]:
                lines.pop()
            array = "\\n    ".join(lines) + "\\n"
        self.outputLines.append(f"{arrayName} = [{array}]\\n")
''')]),
dict(ID="mb-build-loop", PROPS="C25", EDITS=[(MB, '''    bidiPropBuilder.arrayToPython("ubidi_props_indexes")
    bidiPropBuilder.arrayToPython("ubidi_props_trieIndex")
    bidiPropBuilder.arrayToPython("ubidi_props_mirrors")
    bidiPropBuilder.arrayToPython("ubidi_props_jgArray")
    bidiPropBuilder.arrayToPython("ubidi_props_jgArray2")
''', '''    for suffix in ("indexes", "trieIndex", "mirrors", "jgArray", "jgArray2"):
        bidiPropBuilder.arrayToPython("ubidi_props_" + suffix)
''')]),
dict(ID="ur-dispatch", PROPS="C25 C24", EDITS=[(UR, '''                    if (typePrefix := self.prefix.get(type)):
                        if type not in self.lines:
                            self.lines[type] = []
''', '''                    typePrefix = self.prefix.get(type)
                    if typePrefix is not None:
                        self.lines.setdefault(type, [])
''')]),
]


def _real(path, old):
    """the text of the file that differs from `old` at most in blank lines"""
    text = open("/repo/" + path).read()
    lines = [l for l in old.split("\n") if l.strip()]
    found = re.findall(r"\n(?:[ \t]*\n)*".join(re.escape(l) for l in lines) + "\n", text)
    assert len(found) == 1, (path, old)
    return found[0]


for s in SPECS:
    s["EDITS"] = [(p, o if open("/repo/" + p).read().count(o) == 1 else _real(p, o), n) for p, o, n in s["EDITS"]]
