SPECS=[
dict(ID="mb-get-default", PROPS="C25", EDITS=[("module_builder/UCDReader.py", '''                        key = typePrefix[2].get(longName)
                        if key == "": continue
                        if not key:
                            key = longName.upper()
''', '''                        key = typePrefix[2].get(longName, longName.upper())
                        if not key: continue
''')]),
dict(ID="mb-setdefault", PROPS="C25", EDITS=[("module_builder/UCDReader.py", '''                        if type not in self.lines:
                            self.lines[type] = []
''', '''                        self.lines.setdefault(type, [])
''')]),
dict(ID="mb-early-continue", PROPS="C25", EDITS=[("module_builder/UCDReader.py", '''                    if (typePrefix := self.prefix.get(type)):
                        if type not in self.lines:
                            self.lines[type] = []

                        key = typePrefix[2].get(longName)
                        if key == "": continue
                        if not key:
                            key = longName.upper()

                        value = typePrefix[3](shortName)

                        self.lines[type].append(f"    {typePrefix[0]}_{key}: \\"{value}\\"")
''', '''                    typePrefix = self.prefix.get(type)
                    if not typePrefix:
                        continue
                    enumPrefix, _, mapping, convert = typePrefix
                    if type not in self.lines:
                        self.lines[type] = []

                    key = mapping.get(longName)
                    if key == "":
                        continue
                    key = key or longName.upper()
                    self.lines[type].append(f"    {enumPrefix}_{key}: \\"{convert(shortName)}\\"")
''')]),
dict(ID="mb-array-strip", PROPS="C25", EDITS=[("module_builder/ModuleBuilder.py", '''        final = "\\n" if "\\n" in array else ""
        if array.endswith("\\n"):
            array = array[:-1]
        if final:
            array = array.replace("\\n", "\\n    ")

        self.outputLines.append(f"{arrayName} = [{array}{final}]\\n")
''', '''        multiLine = "\\n" in array
        if array.endswith("\\n"):
            array = array[:-1]
        if multiLine:
            array = array.replace("\\n", "\\n    ") + "\\n"

        self.outputLines.append(arrayName + " = [" + array + "]\\n")
''')]),
dict(ID="mb-search", PROPS="C25", EDITS=[("module_builder/ModuleBuilder.py", '''        return re.findall(pattern, self.source)[0]
''', '''        return re.search(pattern, self.source).group(1)
''')]),
dict(ID="mb-trie-tuple", PROPS="C25", EDITS=[("module_builder/ModuleBuilder.py", '''        dict = {3: "index_length", 5: "index_2_null_offset", 6: "data_null_offset", 9: "high_start",
                10: "high_value_index"}
        _values = []
        trieSplits = trie.split(",\\n")

        for index, name in dict.items():
''', '''        fields = ((3, "index_length"), (5, "index_2_null_offset"), (6, "data_null_offset"), (9, "high_start"),
                  (10, "high_value_index"))
        trieSplits = trie.split(",\\n")

        for index, name in fields:
''')]),
dict(ID="mb-header-helper", PROPS="C25", EDITS=[("module_builder/HeaderToPtyhon.py", '''                if value and not "(" in name:
                    if comment:
                        self.outputLines.append(f"{name} = {value}  # {comment}")
                    else:
                        self.outputLines.append(f"{name} = {value}")
''', '''                if value and not "(" in name:
                    self.emit(name, value, comment)
'''), ("module_builder/HeaderToPtyhon.py", '''                    if comment:
                        self.outputLines.append(f"{name} = {value}  # {comment}")
                    else:
                        self.outputLines.append(f"{name} = {value}")

                    intValue''', '''                    self.emit(name, value, comment)

                    intValue'''), ("module_builder/HeaderToPtyhon.py", '''    def translate(self):
''', '''    def emit(self, name, value, comment):
        self.outputLines.append(f"{name} = {value}" + (f"  # {comment}" if comment else ""))

    def translate(self):
''')]),
dict(ID="mb-extract-findall", PROPS="C25", EDITS=[("module_builder/ModuleBuilder.py", '''        pattern = name + r"=\\{\\n(.+?)\\n\\};"
        return re.findall(pattern, self.source, re.DOTALL)[0]
''', '''        return self.firstMatch(name + r"=\\{\\n(.+?)\\n\\};", re.DOTALL)

    def firstMatch(self, pattern: str, flags: int = 0) -> str:
        return re.findall(pattern, self.source, flags)[0]
''')]),
dict(ID="mb-with-open", PROPS="C25", EDITS=[("module_builder/ModuleBuilder.py", '''        moduleFile = open(self.modulePath, "w")
        moduleFile.write(contents)
        moduleFile.close()
''', '''        with open(self.modulePath, "w") as moduleFile:
            moduleFile.write(contents)
''')]),
]
