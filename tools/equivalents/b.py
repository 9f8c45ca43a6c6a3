C="CharNames.py"; N="Normalizer2.py"; I="ICUDataFile.py"; L="LayoutProps.py"; CA="CaseProps.py"; B="BidiProps.py"; P="CharProps.py"; UT="Utrie2.py"; T="CPTrie.py"; UTL="Utilities.py"
SPECS=[
dict(ID="group-search-inclusive",PROPS="C21",EDITS=[(C,"""        start = 0
        limit = len(cls._groups)

        while start < limit - 1:
            midpoint = (start + limit) // 2
            if groupMSB < cls._groups[midpoint].msb:
                limit = midpoint
            else:
                start = midpoint

        return cls._groups[start] if cls._groups[start].msb == groupMSB else None
""","""        groups = cls._groups
        lo = 0
        hi = len(groups) - 1

        while lo < hi:
            middle = (lo + hi + 1) // 2
            if groups[middle].msb <= groupMSB:
                lo = middle
            else:
                hi = middle - 1

        candidate = groups[lo]
        return candidate if candidate.msb == groupMSB else None
""")]),
dict(ID="factor-divmod",PROPS="C20",EDITS=[(C,"""            indexes.insert(0, code % factor)
            code //= factor
""","""            code, remainder = divmod(code, factor)
            indexes.insert(0, remainder)
""")]),
dict(ID="factor-reverse",PROPS="C20",EDITS=[(C,"""        for i in range(count, 0, -1):
            factor = self.factors[i]
            indexes.insert(0, code % factor)
            code //= factor

        indexes.insert(0, code)
""","""        for factor in reversed(self.factors[1:]):
            indexes.append(code % factor)
            code //= factor

        indexes.append(code)
        indexes.reverse()
""")]),
dict(ID="hex-helper",PROPS="C20 C21",EDITS=[(C,"""            digits = self.variant
            if digits == 4:
                hex = f"{code:04X}"
            elif digits == 5:
                hex = f"{code:05X}"
            else:
                hex = f"{code:06X}"

            name += hex
        elif""","""            name += self._hexDigits(code)
        elif"""),(C,"""    def charInRange(self, char: int) -> bool:""","""    def _hexDigits(self, code: int) -> str:
        if self.variant == 4:
            return f"{code:04X}"

        if self.variant == 5:
            return f"{code:05X}"

        return f"{code:06X}"

    def charInRange(self, char: int) -> bool:""")]),
dict(ID="names-early",PROPS="C21",EDITS=[(C,"""        for algorithmicRange in cls._algorithmicRanges:
            if algorithmicRange.charInRange(code):
                return algorithmicRange.getName(code, nameChoice)

        if nameChoice""","""        owner = next((r for r in cls._algorithmicRanges if r.charInRange(code)), None)
        if owner is not None:
            return owner.getName(code, nameChoice)

        if nameChoice""")]),
dict(ID="expand-list",PROPS="C19",EDITS=[(C,"""        expandedName = ""

        nameLength = len(string)

        s = 0
        while nameLength > 0:
            c = string[s]
            s += 1
            nameLength -= 1
""","""        expandedName = ""

        nameLength = len(string)

        s = 0
        while s < nameLength:
            c = string[s]
            s += 1
"""),(C,"""                    token = cls._tokens[c << 8 | string[s]]
                    s += 1
                    nameLength -= 1
""","""                    token = cls._tokens[(c << 8) + string[s]]
                    s += 1
""")]),
dict(ID="expand-helper",PROPS="C19",EDITS=[(C,"""                    while cls._strings[token] != 0:
                        expandedName += chr(cls._strings[token])
                        token += 1

        return expandedName
""","""                    expandedName += cls._tokenString(token)

        return expandedName

    @classmethod
    def _tokenString(cls, token: int) -> str:
        text = ""
        while cls._strings[token] != 0:
            text += chr(cls._strings[token])
            token += 1

        return text
""")]),
dict(ID="lengths-append-helper",PROPS="C19",EDITS=[(C,"""            offsets.append(offset)
            lengths.append(length)
            offset += length
            i += 1

            # read odd""","""            lengths.append(length)
            offsets.append(offset)
            i += 1
            offset = offset + length

            # read odd""")]),
dict(ID="group-init",PROPS="C19",EDITS=[(C,"""        for i in range(len(offsets)):
            stringStart = dataOffset + offsets[i]
            stringLimit = stringStart + lengths[i]

            self.strings.append(icuData.getData(stringStart, stringLimit))
""","""        for (stringOffset, stringLength) in zip(offsets, lengths):
            stringStart = dataOffset + stringOffset
            self.strings.append(icuData.getData(stringStart, stringStart + stringLength))
""")]),
dict(ID="field-names",PROPS="C19",EDITS=[(C,"""            fieldIndex = 2 if nameChoice == U_ISO_COMMENT else nameChoice
            fields = string.split(b';')
            string = fields[fieldIndex] if fieldIndex < len(fields) else b''

        return""","""            fields = string.split(b';')
            if nameChoice == U_ISO_COMMENT:
                fieldIndex = 2
            else:
                fieldIndex = nameChoice

            if fieldIndex >= len(fields):
                return ""

            string = fields[fieldIndex]

        return""")]),
dict(ID="populate-rename",PROPS="C21 C19",EDITS=[(C,"""        rangeStart = nameDataHeader.algNamesOffset + baseOffset
        (algorithmicRangeCount,) = struct.unpack("I", cls._icuData.getData(rangeStart, rangeStart + 4))

        rangeStart += 4
        for _ in range(algorithmicRangeCount):
            algRange = AlgorithmicRange(cls._icuData, rangeStart)
            cls._algorithmicRanges.append(algRange)
            rangeStart += algRange.size
""","""        algNamesStart = baseOffset + nameDataHeader.algNamesOffset
        (algorithmicRangeCount,) = struct.unpack("I", cls._icuData.getData(algNamesStart, algNamesStart + 4))

        nextRange = algNamesStart + 4
        for _ in range(algorithmicRangeCount):
            algRange = AlgorithmicRange(cls._icuData, nextRange)
            cls._algorithmicRanges.append(algRange)
            nextRange += algRange.size
""")]),
dict(ID="getstring-find",PROPS="C22 C20",EDITS=[(I,"""        s = ""

        while cls._fileData[offset] != 0:
            s += chr(cls._fileData[offset])
            offset += 1

        return s
""","""        end = cls._fileData.index(0, offset)
        return cls._fileData[offset:end].decode("latin-1")
""")]),
dict(ID="toc-slice",PROPS="C22",EDITS=[(I,"""        tocEntryStart = tocOffset + 4
        tocEntryLimit = tocEntryStart + _tocEntryLength

        for _ in range(tocCount):
            te""","""        tocEntryStart = tocOffset + 4

        for _ in range(tocCount):
            tocEntryLimit = tocEntryStart + _tocEntryLength
            te"""),(I,"""            tocEntryStart = tocEntryLimit
            tocEntryLimit += _tocEntryLength
""","""            tocEntryStart = tocEntryLimit
""")]),
dict(ID="layout-helper",PROPS="C22",EDITS=[(L,"""trieOffset = indicesLimit
trieLimit = indices[ULAYOUT_IX_INPC_TRIE_TOP] + baseOffset
trieData = id.getData(trieOffset, trieLimit)
inpcTrie = CPTrie.createFromData(trieData)
""","""def _readTrie(start: int, topIndex: int) -> CPTrie:
    return CPTrie.createFromData(id.getData(start, indices[topIndex] + baseOffset))

inpcTrie = _readTrie(indicesLimit, ULAYOUT_IX_INPC_TRIE_TOP)
trieLimit = indices[ULAYOUT_IX_INPC_TRIE_TOP] + baseOffset
""")]),
dict(ID="hangul-divmod",PROPS="C16 C17",EDITS=[(N,"""        c2 = c % JAMO_T_COUNT
        c //= JAMO_T_COUNT

        decomposition +=""","""        c, c2 = divmod(c, JAMO_T_COUNT)

        decomposition +=""")]),
dict(ID="strdata-slice",PROPS="C16 C17",EDITS=[(N,"""        for i in range(length):
            ch = self.extraData[index + i]
""","""        for ch in self.extraData[index:index + length]:
""")]),
dict(ID="decomp-helper",PROPS="C17",EDITS=[(N,"""            rawMappingIndex = ix - ((firstUnit >> 7) & 1) - 1
            rm0""","""            hasCCC = (firstUnit & MAPPING_HAS_CCC_LCCC_WORD) != 0
            rawMappingIndex = ix - 2 if hasCCC else ix - 1
            rm0""")]),
dict(ID="norm-early",PROPS="C16",EDITS=[(N,"""        if c < self.minDecompNoCP or self.isMaybeOrNonZeroCC(norm16):
            # c does not decompose
            return None
""","""        if c < self.minDecompNoCP:
            return None

        if self.isMaybeOrNonZeroCC(norm16):
            # c does not decompose
            return None
""")]),
dict(ID="case-delta-helper",PROPS="C13 C14",EDITS=[(CA,"""def toLower(c: int) -> int:""","""def _applyDelta(c: int, excWord: int, exceptionIndex: int) -> int:
    delta = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)[0]
    if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) != 0:
        delta = -delta

    return c + delta

def toLower(c: int) -> int:"""),(CA,"""        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) == 0 else c - delta

        if hasSlot(excWord, UCASE_EXC_LOWER):
            (c, _)""","""        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
            return _applyDelta(c, excWord, exceptionIndex)

        if hasSlot(excWord, UCASE_EXC_LOWER):
            (c, _)""")]),
dict(ID="case-join-genexp",PROPS="C14",EDITS=[(CA,"""                chars: list[str] = []
                exceptionIndex += offset + 1
                for i in range(full):
                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))

                return "".join(chars)""","""                exceptionIndex += offset + 1
                return "".join(chr(u) for u in ucase_props_exceptions[exceptionIndex:exceptionIndex + full])""")]),
dict(ID="title-two-ifs",PROPS="C13",EDITS=[(CA,"""        for slot in [UCASE_EXC_TITLE, UCASE_EXC_UPPER]:
            if hasSlot(excWord, slot):
                return getSlotValue(excWord, slot, exceptionIndex)[0]

    return c""","""        if hasSlot(excWord, UCASE_EXC_TITLE):
            return getSlotValue(excWord, UCASE_EXC_TITLE, exceptionIndex)[0]

        if hasSlot(excWord, UCASE_EXC_UPPER):
            c = getSlotValue(excWord, UCASE_EXC_UPPER, exceptionIndex)[0]

    return c""")]),
dict(ID="slot-width",PROPS="C13",EDITS=[(CA,"""    if (excWord & UCASE_EXC_DOUBLE_SLOTS) == 0:
        exceptionIndex += slot_offset
        return (ucase_props_exceptions[exceptionIndex], slot_offset)

    exceptionIndex += 2 * slot_offset
    return ((ucase_props_exceptions[exceptionIndex]) << 16 | ucase_props_exceptions[exceptionIndex+1], (2 * slot_offset) + 1)""","""    if (excWord & UCASE_EXC_DOUBLE_SLOTS) != 0:
        last = 2 * slot_offset + 1
        high = ucase_props_exceptions[exceptionIndex + last - 1]
        low = ucase_props_exceptions[exceptionIndex + last]
        return ((high << 16) | low, last)

    return (ucase_props_exceptions[exceptionIndex + slot_offset], slot_offset)""")]),
dict(ID="mirror-bisect-helper",PROPS="C15",EDITS=[(B,"""    for m in ubidi_props_mirrors:
        c2 = getMirrorCodePointFromProps(m)

        if c == c2:
            mirrorIndex = getMirrorIndexFromProps(m)
            return getMirrorCodePointFromProps(ubidi_props_mirrors[mirrorIndex])

        if c < c2:
            break

    return c""","""    for entry in ubidi_props_mirrors:
        source = getMirrorCodePointFromProps(entry)
        if source > c:
            return c

        if source == c:
            return getMirrorCodePointFromProps(ubidi_props_mirrors[getMirrorIndexFromProps(entry)])

    return c""")]),
dict(ID="joining-loop",PROPS="C15",EDITS=[(B,"""    if c in range(start, limit):
        return ubidi_props_jgArray[c - start]
""","""    if start <= c < limit:
        return ubidi_props_jgArray[c - start]
""")]),
dict(ID="numeric-pow",PROPS="C10",EDITS=[(P,"""        # multiply by 10^exp without math.h
        while exp >= 4:
            numValue *= 10000.0
            exp -= 4

        if exp == 3:
            numValue *= 1000.0
        elif exp == 2:
            numValue *= 100.0
        elif exp == 1:
            numValue *= 10.0

        return numValue
""","""        return float(mant * 10 ** exp)
""")]),
dict(ID="props-helper",PROPS="C09 C11",EDITS=[(P,"""def getBlock(c: int) -> int:
    vecIndex = propsVectorTrie.get(c)
    return blockFromVecIndex(vecIndex)""","""def getBlock(c: int) -> int:
    return blockFromVecIndex(propsVectorTrie.get(c))"""),(P,"""def eastAsianWidthFromVecIndex(vecIndex: int) -> int:
    props = unicodePropertiesFromVecIndex(vecIndex, 0)

    return (props & UPROPS_EA_MASK) >> UPROPS_EA_SHIFT""","""def _field(props: int, mask: int, shift: int) -> int:
    return (props & mask) >> shift

def eastAsianWidthFromVecIndex(vecIndex: int) -> int:
    return _field(unicodePropertiesFromVecIndex(vecIndex, 0), UPROPS_EA_MASK, UPROPS_EA_SHIFT)""")]),
dict(ID="category-in",PROPS="C12",EDITS=[(P,"""    if c == CH_NBSP or c == CH_FIGURESP or c == CH_NNBSP:
        return False

    gc = getGeneralCategory(c)
    return (gcMask(gc) & GC_Z_MASK) != 0 or isThatASCIIControlSpace(c)""","""    if c in (CH_NBSP, CH_FIGURESP, CH_NNBSP):
        return False

    return isJavaSpaceChar(c) or isThatASCIIControlSpace(c)""")]),
dict(ID="trie-get-inline",PROPS="C05 C09 C13",EDITS=[(UT,"""    def get(self, c: int) -> int:
        return self.index[self.indexFromCodePoint(self.indexLength, c)]""","""    def get(self, c: int) -> int:
        offset = self.indexFromCodePoint(self.indexLength, c)
        return self.index[offset]"""),(UT,"""        if c < 0xD800:
            return self.indexRaw(0, c)

        if c <= 0xFFFF:
            offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
            return self.indexRaw(offset, c)
""","""        if c <= 0xFFFF:
            offset = 0
            if 0xD800 <= c < 0xDC00:
                offset = self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)

            return self.indexRaw(offset, c)
""")]),
dict(ID="enum-yield-helper",PROPS="C06",EDITS=[(UT,"""                        for j in range(jStart, jLimit):
                            value = valueFunction(self.index[block + j], **valueFunctionArgs)
                            if value != prevValue:""","""                        for j in range(block + jStart, block + jLimit):
                            value = valueFunction(self.index[j], **valueFunctionArgs)
                            if value != prevValue:""")]),
dict(ID="enum-null",PROPS="C06",EDITS=[(UT,"""        while c < limit and c < self.highStart:
            # limit""","""        end = min(limit, self.highStart)
        while c < end:
            # limit""")]),
dict(ID="cptrie-get-flat",PROPS="C07 C08",EDITS=[(T,"""        if c <= 0x007F:
            dataIndex = c
        else:
            fastMax = 0xFFFF if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_MAX
            dataIndex = self.cpIndex(fastMax, c)

        return self.data[dataIndex]""","""        if c <= 0x007F:
            return self.data[c]

        fastMax = UCPTRIE_SMALL_MAX
        if self.trieType == UCPTRIE_TYPE_FAST:
            fastMax = 0xFFFF

        return self.data[self.cpIndex(fastMax, c)]""")]),
dict(ID="cptrie-create",PROPS="C07",EDITS=[(T,"""        if valueWidth == UCPTRIE_VALUE_BITS_16:
            dataType = "H"
        elif valueWidth == UCPTRIE_VALUE_BITS_32:
            dataType = "I"
        else:
            dataType = "B"
""","""        dataType = {UCPTRIE_VALUE_BITS_16: "H", UCPTRIE_VALUE_BITS_32: "I"}.get(valueWidth, "B")
""")]),
dict(ID="highbit-loop",PROPS="C18",EDITS=[(UTL,"""    # binary search through the bits, looking for the highest one
    if value >= 1 << 32:
        value >>= 32
        bit += 32

    if value >= 1 << 16:
        value >>= 16
        bit += 16

    if value >= 1 << 8:
        value >>= 8
        bit += 8

    if value >= 1 << 4:
        value >>= 4
        bit += 4

    if value >= 1 << 2:
        value >>= 2
        bit += 2

    if value >= 1 << 1:
        value >>= 1
        bit += 1

    return bit""","""    # binary search through the bits, looking for the highest one
    for step in (32, 16, 8, 4, 2, 1):
        if value >> step:
            value >>= step
            bit += step

    return bit""")]),
dict(ID="highbit-bitlength",PROPS="C18",EDITS=[(UTL,"""    bit = 0

    if value == 0: return None  # return None if no bits are set

    # binary search through the bits, looking for the highest one
    if value >= 1 << 32:
        value >>= 32
        bit += 32

    if value >= 1 << 16:
        value >>= 16
        bit += 16

    if value >= 1 << 8:
        value >>= 8
        bit += 8

    if value >= 1 << 4:
        value >>= 4
        bit += 4

    if value >= 1 << 2:
        value >>= 2
        bit += 2

    if value >= 1 << 1:
        value >>= 1
        bit += 1

    return bit""","""    return value.bit_length() - 1 if value else None""")]),
dict(ID="surrogate-names",PROPS="C18",EDITS=[(UTL,"""    lead = (ch >> _leadShift) + _leadOffset
    trail = (ch & _trailMask) + _firstTrail
    return lead, trail""","""    offset = ch - _firstNonBMP
    return _firstLead + (offset >> _leadShift), _firstTrail + (offset & 0x3FF)""")]),
]
