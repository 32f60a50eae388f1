package psyn

// snippets are statements whose shapes the grammar generator reaches rarely.
var snippets = []string{
	"x = 1,\n", "x = a, b,\n", "for x, in y:\n  pass\n", "[x for x, in y]\n", "x[a,]\n", "x[a, b]\n",
	"def f(*args, **kwargs): return\n", "def f(a, *, b = 1): return a,\n", "x = 1.\ny = .5\n", "x = lambda: 1\n",
	"x = lambda *, a: a\n", "def f():\n  return (1)\n", "x = (\n 1\n)\n", "f(*a, **b)\n", "x = not a in b\n",
	"x = a not  in b\n", "x[::]\n", "x[a::b]\n", "x[:a:]\n", "x[:]\n", "def f(x: int = 1) -> list[int]: pass\n",
	"if a: b\nelif c: d\nelse: e\n", "load(\"a\", b = \"c\", 'd')\n", "x = {**y}\n", "x = \"é\"; y = 1\n",
	"x = \\\n  1\n", "x = '''\né\n''' + y\n", "()\n", "f()()\n", "x = [] [0]\n", "x.y = 1\n", "(a, b) = c\n", "a, b = b, a\n",
	"[a, b] = c\n", "x = (1,)\n", "x = [lambda x: x]\n", "def f():\n  def g():\n    pass\n  return g\n", "x = r'a\\b'\n",
	"x = [1 for a in b if c if d for e in f]\n", "x = {a: b for a, b in c}\n", "x = {a for a in c}\n", "x = a if b else c if d else e\n",
	"return 1\n", "pass\n", "\"doc\"\n", "x |= 1\n", "x //= y // z\n", "def f(\n    a,\n    # c\n    b):\n  pass\n",
}
