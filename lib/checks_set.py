"""C07: the sets of pkg/dag."""


def c07(c):
    c.build("seth")
    t = c.thorough()
    pipe = ("seth", "replay", "-workers", "8")
    c.tlc("set/SetAlg.tla", "set/Gen.cfg", pipe=pipe, label="one behaviour per transition, 3 handles, 2 elements")
    if t:
        c.tlc("set/SetAlg.tla", "set/Gen3.cfg", pipe=pipe, label="one behaviour per transition, 2 handles, 4 elements", stop=c.left(400))
    def some(k):
        c.simulate("set/SetAlg.tla", "set/Sim.cfg", 2000 * k, 61, ("seth", "replay"), label="random histories, 4 handles, 6 elements")
        c.simulate("set/SetAlg.tla", "set/Big.cfg", 800 * k, 61, ("seth", "replay"), label="random histories, 3 handles, 40 elements")
    c.rounds(some)


CHECKS = {"C07": (["set", "panic", "crash"], c07)}
