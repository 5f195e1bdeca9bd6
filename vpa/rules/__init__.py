TABLE = {
    "C12": ("observers", "c12"), "C13": ("observers", "c13"), "C14": ("observers", "c14"),
    "C15": ("observers", "c15"), "C16": ("observers", "c16"),
}
TABLE.update({"C19": ("values", "c19"), "C20": ("values", "c20"), "C17": ("chain", "c17"), "C18": ("locks", "c18"), "C07": ("lru", "c07"), "C08": ("lru", "c08")})
for _p, _m in ((range(1, 7), "heap"), (range(9, 12), "mediator")):
    for _i in _p:
        TABLE[f"C{_i:02}"] = (_m, f"c{_i:02}")
for _i in range(21, 27):
    TABLE[f"C{_i:02}"] = ("threads", f"c{_i:02}")
TABLE.update({"C27": ("interval", "c27"), "C28": ("interval", "c28")})
TABLE["C30"] = ("types", "c30")
TABLE["C31"] = ("bytes", "c31")
TABLE["C32"] = ("bytes", "c32")
TABLE["C33"] = ("pimpl", "c33")
TABLE["C34"] = ("packet", "c34")
TABLE["C35"] = ("accessor", "c35")
TABLE["C36"] = ("usable", "c36")
TABLE["C29"] = ("argv", "c29")
TABLE.update({"C37": ("history", "c37")})
