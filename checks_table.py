"""Which harness package decides which property, and what it needs."""
CHECKS = {}
def _c(ids, pkg, **kw):
    for i in ids.split():
        CHECKS[i] = dict(pkg=pkg, **kw)
_c("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12", "pfmt")
_c("C13 C14 C15 C16", "psyn")

_c("C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C44", "pbz", tools=["buildozer"])
_c("C28 C29 C30 C31", "pbf", tools=["buildifier"])
_c("C32 C33 C34 C35 C36 C37 C42 C43", "plint", tools=["buildifier"])
_c("C38", "pfmt", tools=["buildifier", "buildozer"])
_c("C39 C41", "pfmt")
_c("C40", "pud", tools=["unused_deps"])
