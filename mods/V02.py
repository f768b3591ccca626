OPS = "head tail app after before rm rminit rmhead rmtail repl replinit mvhead mvtail rot cut cat precat cat2 precat2 moveall".split()
F = {o: ["l", "x", "y"] for o in OPS}
CFG = ["k"]
def check(c):
    exe = c.build("listd", ["listd.c"]); T = c.thorough
    k = "CONSTANTS Kinds = {0,1,2,3}\n Els = {0,1,2%s}\n" % (",3,4" if T else ",3")
    c.conform("ListF", exe, c.explore("ListF", k, 12), F, CFG, k, "transition cover")
    if c.viol: return
    k2 = "CONSTANTS Kinds = {0,1,2,3}\n Els = {0,1,2,3,4,5,6,7}\n"
    sc = c.simulate("ListF", k2, 60, 1500 if T else 150)
    sc = c.rng.sample(sc, min(len(sc), 8000 if T else 500))
    c.conform("ListF", exe, sc, F, CFG, k2, "random behaviours of the specification")
