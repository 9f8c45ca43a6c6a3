H = "module_builder/HeaderToPtyhon.py"
SPECS = [
dict(ID="he-while-true", PROPS="C25", EDITS=[(H, '''        while (line := self.sourceFile.readline()):
            line = line.strip()
''', '''        while True:
            line = self.sourceFile.readline()
            if not line:
                return None
            line = line.strip()
''')]),
dict(ID="he-for-line", PROPS="C25", EDITS=[(H, '''        while (line := self.sourceFile.readline()):
            line = line.strip()
''', '''        for line in self.sourceFile:
            line = line.strip()
''')]),
dict(ID="he-entry-helper", PROPS="C25", EDITS=[(H, '''                    if comment:
                        self.outputLines.append(f"{name} = {value}  # {comment}")
                    else:
                        self.outputLines.append(f"{name} = {value}")

                    intValue''', '''                    self.addConstant(name, value, comment)

                    intValue'''), (H, '''                if value and not "(" in name:
                    if comment:
                        self.outputLines.append(f"{name} = {value}  # {comment}")
                    else:
                        self.outputLines.append(f"{name} = {value}")
''', '''                if value and "(" not in name:
                    self.addConstant(name, value, comment)
'''), (H, '''    def translate(self):
''', '''    def addConstant(self, name: str, value: str, comment: str):
        text = f"{name} = {value}"
        if comment:
            text += f"  # {comment}"
        self.outputLines.append(text)

    def translate(self):
''')]),
dict(ID="he-comment-groups", PROPS="C25", EDITS=[(H, '''        comment = ""
        if (m := cCommentRE.search(line)) or (m := eolCommentRE.search(line)):
            comment = line[m.start(1):m.end(1)]
            line = line[:m.start()].strip()

        return line, comment
''', '''        m = cCommentRE.search(line) or eolCommentRE.search(line)
        if m is None:
            return line, ""

        return line[:m.start()].strip(), m.group(1)
''')]),
dict(ID="he-enum-method", PROPS="C25", EDITS=[(H, '''                nextValue = 0
                variables: dict[str, typing.Any] = {}
                _prevName = None
                while (elc := self.nextLine()):
                    eline, comment = elc
                    if eline.startswith("{"): continue
                    if endOfEnumRE.search(eline): break

                    name, value = enumEntryRE.findall(eline)[0]
                    if not value:
                        value = str(nextValue)

                    if comment:
                        self.outputLines.append(f"{name} = {value}  # {comment}")
                    else:
                        self.outputLines.append(f"{name} = {value}")

                    intValue = eval(value, variables)

                    variables[name] = intValue
                    nextValue = intValue + 1

                    _prevName = name
''', '''                self.translateEnum()
'''), (H, '''    def writeFile(self):
''', '''    def translateEnum(self):
        nextValue = 0
        variables: dict[str, typing.Any] = {}
        while (elc := self.nextLine()):
            eline, comment = elc
            if eline.startswith("{"):
                continue
            if endOfEnumRE.search(eline):
                break

            name, value = enumEntryRE.findall(eline)[0]
            value = value or str(nextValue)
            suffix = f"  # {comment}" if comment else ""
            self.outputLines.append(f"{name} = {value}{suffix}")

            variables[name] = eval(value, variables)
            nextValue = variables[name] + 1

    def writeFile(self):
''')]),
dict(ID="he-states", PROPS="C25", EDITS=[(H, '''            if inComment:
                if line.endswith("*/"):
                    inComment = False
                continue
''', '''            if inComment:
                inComment = not line.endswith("*/")
                continue
'''), (H, '''                if not line.endswith("\\\\"):
                    inMacro = False
                    return self.getTrailingComment(macroLine + line)
                else:
                    macroLine += line[:-1].strip()
                continue
''', '''                if line.endswith("\\\\"):
                    macroLine = macroLine + line[:-1].strip()
                    continue
                return self.getTrailingComment(macroLine + line)
'''), (H, '''            if line.startswith("/*"):
                if line.endswith("*/"):
                    continue  # skip a single line comment
                else:
                    inComment = True
                    continue
''', '''            if line.startswith("/*"):
                if not line.endswith("*/"):
                    inComment = True
                continue
''')]),
dict(ID="he-with-open", PROPS="C25", EDITS=[(H, '''        headerFile = open(self.headerPath, "w")
        headerFile.write(contents)
        headerFile.close()
''', '''        with open(self.headerPath, "w") as headerFile:
            headerFile.write(contents)
''')]),
dict(ID="he-regex", PROPS="C25", EDITS=[(H, 'firstTokenRE = re.compile(r"([^\\s]+)")', 'firstTokenRE = re.compile(r"(\\S+)")'), (H, '''        return firstTokenRE.findall(line)[0]
''', '''        return firstTokenRE.search(line).group(1)
''')]),
dict(ID="he-split-token", PROPS="C25", EDITS=[(H, '''        return firstTokenRE.findall(line)[0]
''', '''        return line.split()[0]
''')]),
]
