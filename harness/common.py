"""shared by all harnesses; works in symbolic and in concrete (replay) mode"""
inf = float("inf")
sim = None
mod = None
Actor = None
Env = None


class H:
    """one harness: fn(S, **params); quick/thorough: parameter sets; expect: labels that must be reachable"""

    def __init__(self, fn, quick, thorough=None, expect=(), bounds=""):
        self.name = fn.__name__
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.expect = list(expect)
        self.bounds = bounds


def grid(**kw):
    """cartesian product of parameter lists"""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def drive(gen):
    """run a generator written in yield style in a yieldless (greenlet) process"""
    try:
        v = next(gen)
        while True:
            v = gen.send(v)
    except StopIteration:
        return


def bind(sim_, mod_):
    global sim, mod, Actor, Env, Data
    sim, mod = sim_, mod_

    class Env(sim.Environment):
        """calls hook() after every event that was handled"""

        def setup(self, hook=None):
            self.hook_ = hook

        def step(self):
            super().step()
            c = self.current_component()
            if c is not None and c is not self.main() and c.iscurrent():
                raise AssertionError(f"{c.name()} lost control: it is still current after its event")
            if self.hook_ is not None:
                self.hook_()

    class Actor(sim.Component):
        """runs the script (a function of the component, written as a generator)"""

        def setup(self, **kw):
            for k, v in kw.items():
                setattr(self, k, v)

    class GenActor(Actor):
        def process(self, script, args=()):
            yield from script(self, *args)

        def again(self, script, args=()):
            yield from script(self, *args)

    class GreenActor(Actor):
        def process(self, script, args=()):
            drive(script(self, *args))

        def again(self, script, args=()):
            drive(script(self, *args))

    g = globals()
    g["Env"], g["GenActor"], g["GreenActor"] = Env, GenActor, GreenActor


def fresh():
    """defaults of the library's module level settings, before every path"""
    sim.yieldless(True)
    sim.default_cap_now(False)


def make_env(yieldless=True, hook=None, **kw):
    kw.setdefault("random_seed", "")
    return Env(yieldless=yieldless, hook=hook, trace=False, **kw)


def actor(env, script, *args, name="a", **kw):
    cls = GreenActor if env.yieldless() else GenActor
    return cls(name=name, script=script, args=args, env=env, **kw)


def data(env, name="d", **kw):
    return sim.Component(name=name, env=env, **kw)
