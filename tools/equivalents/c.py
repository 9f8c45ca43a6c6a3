SPECS=[
dict(ID="ucd-get-first", PROPS="C23", EDITS=[("UCDProperties.py", '''        if property in self._char.attrib:
            return self._char.attrib[property]

        return self._group.get(property, default="")''','''        value = self._char.get(property)
        if value is not None:
            return value

        return self._group.get(property, default="")''')]),
dict(ID="ucd-not-in", PROPS="C23", EDITS=[("UCDProperties.py", '''        if property in self._char.attrib:
            return self._char.attrib[property]

        return self._group.get(property, default="")''','''        if property not in self._char.attrib:
            return self._group.get(property, "")

        return self._char.attrib[property]''')]),
dict(ID="ucd-helper", PROPS="C23", EDITS=[("UCDProperties.py", '''            codePoints = codePointString.split(" ")
            chars: list[str] = []

            for codePoint in codePoints:
                chars.append(chr(int(codePoint, 16)))

            return "".join(chars)

        return ""
''','''            return self.decode(codePointString)

        return ""

    def decode(self, text):
        chars: list[str] = []
        for codePoint in text.split(" "):
            value = int(codePoint, 16)
            chars.append(chr(value))
        return "".join(chars)
''')]),
dict(ID="ucd-genexpr", PROPS="C23", EDITS=[("DecompProperties.py", '''        codePoints = dm.split(" ")
        chars: list[str] = []
        for codePoint in codePoints:
            chars.append(chr(int(codePoint, 16)))

        return "".join(chars)''','''        return "".join(chr(int(codePoint, 16)) for codePoint in dm.split(" "))''')]),
dict(ID="ucd-plus", PROPS="C23", EDITS=[("DecompProperties.py", '''        chars: list[str] = []
        for codePoint in codePoints:
            chars.append(chr(int(codePoint, 16)))

        return "".join(chars)''','''        chars = ""
        for codePoint in codePoints:
            chars += chr(int(codePoint, 16))

        return chars''')]),
dict(ID="ucd-super", PROPS="C23", EDITS=[("CaseProperties.py", '''        UCDProperties.__init__(self, char, group)''','''        super().__init__(char, group)''')]),
dict(ID="ucd-ifelse", PROPS="C23", EDITS=[("BidiProperties.py", '''        self.bidiMirroredGlyph = self.codePoint if bmg == "" else int(bmg, 16)''','''        if bmg:
            self.bidiMirroredGlyph = int(bmg, 16)
        else:
            self.bidiMirroredGlyph = self.codePoint''')]),
dict(ID="ucd-extra", PROPS="C23", EDITS=[("CharacterData.py", '''        self.name = self.name.replace("#", self.cp)''','''        name = self.name
        if "#" in name:
            name = name.replace("#", self.cp)
        self.name = name
        self._named = True''')]),
dict(ID="ucd-indexloop", PROPS="C23", EDITS=[("UCDProperties.py", '''            for codePoint in codePoints:
                chars.append(chr(int(codePoint, 16)))''','''            for i in range(len(codePoints)):
                chars.append(chr(int(codePoints[i], 16)))''')]),
dict(ID="ucd-chr", PROPS="C23", EDITS=[("UCDProperties.py", '''return f"{int(self.cp, 16):c}"''','''return chr(int(self.cp, 16))''')]),
dict(ID="ucd-boolconst", PROPS="C23", EDITS=[("UCDProperties.py", '''        prop = self.getCharProperty(property)
        return prop == "Y"''','''        return self.getCharProperty(property) in ("Y",)''')]),
]
