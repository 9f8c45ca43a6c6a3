"""Records of the UCD XML file (C23): char and group with arbitrary attributes. Which attribute belongs to which field, and how
its text is read, comes from the table refute/xmlrecords.py has after UAX #42. Texts are abstract: int(), eval(), split() and
replace() of an attribute are functions of its text, defined where the precondition says the text is a number."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from refute.xmlrecords import FIELDS

Element = None
P = "UnicodeData."
ELEM = ("obj", "xml.etree.ElementTree:Element", {"attrib": ("attrs",)})
BASE = P + "UCDProperties:UCDProperties"


@SPECS.fn
def attr(c, g, k):
    """the attribute of the char, else of its group, else nothing"""
    return c.attrib[k] if has(c.attrib, k) else g.attrib[k] if has(g.attrib, k) else ""


@SPECS.fn
def is_char(t):
    return is_number(t, 16) and 0 <= number(t, 16) and number(t, 16) < 0x110000


@SPECS.fn
def are_chars(t):
    return forall(lambda k: implies(0 <= k and k < nparts(t, " "), is_char(part(t, " ", k))), pat=part(t, " ", k))


@SPECS.fn
def chars_of(s, t):
    """s is the string of the characters whose numbers t lists"""
    return len(s) == nparts(t, " ") and forall(lambda k: implies(0 <= k and k < len(s), code(s[k]) == number(part(t, " ", k), 16)), pat=s[k])


@SPECS.fn
def itself(s, c):
    return len(s) == 1 and code(s[0]) == c


# what a field holds when its attribute is T, C being the code point and CP its text; what T has to be
HOLDS = {
    "int": ("{F} == number({T}, 10)", "is_number({T}, 10)"),
    "bool": ('{F} == ({T} == "Y")', None),
    "str": ("{F} == {T}", None),
    "name": ('{F} == atom("str.replace", {T}, "#", {CP})', None),
    "spaced": ('{F} == atom("str.replace", {T}, "_", " ")', None),
    "number": ('{T} == "NaN" if is_none({F}) else {T} != "NaN" and {F} == evaluated({T})', 'implies({T} != "NaN", is_evaluated({T}))'),
    "list": ('len({F}) == nparts({T}, " ") and forall(lambda k: implies(0 <= k and k < len({F}), {F}[k] == part({T}, " ", k)), pat={F}[k])', None),
    "mirror": ('{F} == ({C} if {T} == "" else number({T}, 16))', 'implies({T} != "", is_char({T}))'),
    "bracket": ('{F} == ({C} if {T} == "#" else number({T}, 16))', 'implies({T} != "#", is_char({T}))'),
    "chars": ('itself({F}, {C}) if {T} == "" or {T} == "#" else chars_of({F}, {T})', 'implies({T} != "" and {T} != "#", are_chars({T}))'),
    "fold2": ('implies({T} != "", itself({F}, {C}) if {T} == "#" else chars_of({F}, {T}))', 'implies({T} != "" and {T} != "#", are_chars({T}))'),
    "decomposition": ('({T} == "" or {T} == "#") if is_none({F}) else {T} != "" and {T} != "#" and chars_of({F}, {T})', 'implies({T} != "" and {T} != "#", are_chars({T}))'),
    "folded": ('{T} == "" if is_none({F}) else itself({F}, {C}) if {T} == "#" else {T} != "" and chars_of({F}, {T})', 'implies({T} != "" and {T} != "#", are_chars({T}))'),
}
TYPES = {"int": "int", "bool": "bool", "str": "str", "name": "str", "spaced": "str", "list": "strlist", "mirror": "int", "bracket": "int",
         "chars": "strseq", "fold2": "strseq"}     # the others may be None
CP = 'attr(char, group, "cp")'


def clauses(which, fields):
    out = []
    for f, (a, kind) in fields.items():
        c = HOLDS[kind][which]
        if c:
            c = c.format(F="self." + f, T=f'attr(char, group, "{a}")', C=f"number({CP}, 16)", CP=CP)
            if c not in out:
                out.append(c)
    return out


def record(mod, fields, **kw):
    top = [f for f in fields if "." not in f]
    sub = list(dict.fromkeys(f.split(".")[0] for f in fields if "." in f))
    return Contract(f"{P}{mod}:{mod}.__init__", {"self": ("obj", f"{P}{mod}:{mod}", {}), "char": ELEM, "group": ELEM}, [f"is_char({CP})"] + clauses(1, fields),
                    [f"self.cp == {CP}", f"self.codePoint == number({CP}, 16)"] + clauses(0, fields),
                    creates={"self.cp": "str", "self.codePoint": "int", **{"self." + f: TYPES.get(fields[f][1]) for f in top}, **{"self." + f: None for f in sub}},
                    props=["C23"], **kw)


def part_of(name):
    return {f.split(".")[1]: v for f, v in FIELDS.items() if f.startswith(name + ".")}


SELF = ("obj", BASE, {"_char": ELEM, "_group": ELEM})
CPSELF = ("obj", BASE, {"_char": ELEM, "_group": ELEM, "cp": "str"})
DSELF = ("obj", P + "DecompProperties:DecompProperties", {"codePoint": "int"})
T = "attr(self._char, self._group, property)"
EACH = "forall(lambda j: implies(0 <= j and j < _k, code(chars[j]) == number(codePoints[j], 16)), pat=chars[j])"
COLLECT = Loop(inv=["len(chars) == _k", EACH], types={"elem": "chr"})
CONTRACTS = [
    Contract(BASE + ".getCharProperty", {"self": SELF, "property": "str"}, [], [], value=T, props=["C23"]),
    Contract(BASE + ".getBooleanProperty", {"self": SELF, "property": "str"}, [], [], value=T + ' == "Y"', props=["C23"]),
    Contract(BASE + ".getCodePointsProperty", {"self": CPSELF, "property": "str"},
             [f'implies({T} == "" or {T} == "#", is_char(self.cp))', f'implies({T} != "" and {T} != "#", are_chars({T}))'],
             [f'itself(result, number(self.cp, 16)) if {T} == "" or {T} == "#" else chars_of(result, {T})'], result="strseq",
             loops=[COLLECT], props=["C23"]),
    Contract(P + "DecompProperties:DecompProperties.dmToString", {"self": DSELF, "dm": "str", "doPoundSign": "bool"}, [], [], result="strseq", loops=[COLLECT], props=["C23"],
             cases=[dict(name="nothing", requires=['dm == "" or dm == "#"', 'dm != "#" or not doPoundSign'], ensures=["is_none(result)"]),
                    dict(name="itself", requires=['dm == "#"', "doPoundSign", "0 <= self.codePoint", "self.codePoint < 0x110000"], ensures=["itself(result, self.codePoint)"]),
                    dict(name="characters", requires=['dm != ""', 'dm != "#"', "are_chars(dm)"], ensures=["chars_of(result, dm)"])]),
    record("BidiProperties", part_of("bidiProperties")),
    record("BinaryProperties", part_of("binaryProperties")),
    record("IndicProperties", part_of("indicProperties")),
    record("CaseProperties", part_of("caseProperties")),
    record("DecompProperties", part_of("decompProperties"), standalone=True),
    record("CharacterData", FIELDS, standalone=True),
]
