H = "module_builder/HeaderToPtyhon.py"; MB = "module_builder/ModuleBuilder.py"; UR = "module_builder/UCDReader.py"
X = "UnicodeData/UCDProperties.py"; D = "UnicodeData/DecompProperties.py"; K = "UnicodeData/CaseProps.py"
SPECS = [
dict(ID="re-scalar", PROPS="C25", EDITS=[(MB, 'pattern = name + r"=(.+);"', 'pattern = name + r"=([^\\n]+);"')]),
dict(ID="re-word", PROPS="C25", EDITS=[(H, 'r"([^\\s]+)"', 'r"(\\S+)"')]),
dict(ID="re-ccomment", PROPS="C25", EDITS=[(H, 'r"/\\*\\*?(.*?)\\*/"', 'r"/[*][*]?(.*?)[*]/"')]),
dict(ID="strip-both", PROPS="C25", EDITS=[(MB, 'trieSplits[index].strip()', 'trieSplits[index].lstrip().rstrip()')]),
dict(ID="join-comp", PROPS="C25", EDITS=[(UR, 'key = longName.upper()', 'key = "".join(ch.upper() for ch in longName)')]),
]
