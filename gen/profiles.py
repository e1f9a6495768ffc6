"""Which machines, faults and schedules decide which property."""


class Prop:
    def __init__(self, tags, profiles, features, extra=(), flavours=None, rand_quick=3, quick_s=16, limit=14, assumptions=()):
        self.tags, self.profiles, self.features, self.extra = tags, profiles, features, extra
        self.flavours = flavours or [{}]
        asan = [dict(f, asan=1) for f in self.flavours if not f.get("asan")]
        self.flavours_thorough = self.flavours + asan + [dict(self.flavours[0], opt="-O0")]
        self.rand_quick, self.rand_thorough = rand_quick, 24
        self.quick_s, self.thorough_s = quick_s, 480
        self.per_worker = 60000
        self.limit = limit
        self.assumptions = list(assumptions) + [
            "the reference model in sim/sim.cpp states what the property means for a transition table",
            "machines are those of gen/zoo.hm plus random ones; behaviour of other tables is extrapolated",
        ]

    def machines(self, zoo, thorough):
        if thorough:
            return list(zoo)
        first = [m for m in zoo if set(m.tags) & set(self.tags)]
        first.sort(key=lambda m: -len(set(m.tags) & set(self.tags)))
        names = {m.name for m in first[:self.limit]} | set(self.extra)
        return [m for m in zoo if m.name in names]


NET = "drop=40,dup=60,delay=150"
MIX = ("instances=3,throw=60,yield=100,post=80,cbsensor=80,cbsetdep=50,crash=20,gthrow=30,cbset=20,sensor=200,setdep=40,move=30,"
       "set=30,restart=10,probe=10,alloc=30,copy=20,defer=400," + NET)
ASAN = [{"asan": 1}]

PROPS = {
    "C01": Prop(["core"], ["sensor=300,cbsensor=80," + NET, "sensor=250,throw=30,gthrow=30,post=40,set=40,defer=200,cbsensor=80," + NET],
                ["hier", "pseudo", "anon", "defer", "internal"], limit=17, extra=["many1", "pseudo4", "wide1", "later1", "val1", "val2", "six1"]),
    "C02": Prop(["handler", "defer"], ["sensor=250,defer=300,cbsensor=60," + NET, "sensor=250,defer=300,post=120,throw=40,gthrow=40,setdep=40," + NET],
                ["defer", "regions", "internal", "handler"], extra=["intmany", "flat1", "hier2", "reg2", "anon1", "int1", "pseudo1", "flat3", "six1", "six2", "int5"]),
    "C03": Prop(["hier", "chain", "internal", "custom"], ["sensor=200,cbsensor=60,setdep=40," + NET, "sensor=200,post=80,throw=40,move=20," + NET],
                ["hier", "pseudo", "internal", "anon", "custom"], extra=["deps6", "deep6", "pseudo4", "flat1", "flat2", "pseudo1", "pseudo2", "reg2", "anon1", "big1", "val1"], limit=10),
    "C04": Prop(["hier", "pseudo", "deep"], ["sensor=200,cbsensor=60," + NET, "sensor=200,throw=40,gthrow=30,set=60,restart=20,post=40," + NET],
                ["hier", "hier", "pseudo", "shared"], rand_quick=5, limit=14, extra=["deep6", "pseudo4", "later1", "later2", "hier5", "int5"]),
    "C05": Prop(["regions"], ["sensor=250,cbsensor=100," + NET, "sensor=250,throw=80,gthrow=50,post=80,set=40,defer=300,cbsensor=60," + NET],
                ["regions", "regions", "hier", "defer"], rand_quick=4, extra=["six1", "six2", "six3", "defernest"]),
    "C06": Prop(["anon"], ["sensor=350,cbsensor=120," + NET, "sensor=350,throw=60,gthrow=60,post=80,defer=300,cbsensor=80," + NET],
                ["anon", "anon", "hier", "defer", "regions"], rand_quick=5, extra=["six2"]),
    "C07": Prop(["defer"], ["sensor=200,defer=500," + NET, "sensor=200,defer=600,long=60,post=80,throw=60,gthrow=60,cbsensor=60,move=20," + NET,
                         "sensor=150,defer=600,post=350,cbsensor=100," + NET],
                ["defer", "defer", "regions", "hier", "anon"], rand_quick=4, flavours=ASAN, extra=["many1", "six1", "defernest", "deferstart"]),
    "C08": Prop(["history"], ["sensor=250,cbsensor=60," + NET, "sensor=250,throw=80,gthrow=60,post=80,set=40,move=30,crash=20," + NET],
                ["history", "hier", "history"], rand_quick=5, extra=["pseudo4", "six3"]),
    "C09": Prop(["core", "custom"], ["sensor=250,throw=200,gthrow=120,defer=400," + NET,
                                     "sensor=250,throw=150,gthrow=100,post=120,defer=300,cbsensor=60,move=20," + NET],
                ["hier", "regions", "defer", "anon", "internal", "custom"], extra=["deps6", "cust1", "cust2", "cust3", "cust4", "hist1", "reg3", "deferreg", "six1"], limit=8, flavours=ASAN),
    "C10": Prop(["defer", "custom"], ["sensor=200,defer=600,alloc=120,copy=80,probe=60,throw=40,move=40,restart=30," + NET, MIX + ",long=40"],
                ["defer", "defer", "regions", "hier", "custom"], extra=["big1", "reg3", "hist1"], limit=10, flavours=ASAN),
    "C11": Prop(["hier", "regions", "history"], ["sensor=200,crash=200,restart=60,set=80,defer=200," + NET,
                                                 "sensor=200,crash=150,restart=40,set=60,throw=60,cbset=60,post=40,defer=300," + NET],
                ["hier", "regions", "defer", "history"], limit=14, extra=["six1", "six3"]),
    "C12": Prop(["core"], ["instances=4,mixed=400,yield=300,sensor=150,throw=30,defer=300," + NET,
                           "instances=4,mixed=500,yield=250,post=60,move=60,restart=40,setdep=40,throw=40,crash=30,probe=15,defer=300," + NET],
                ["hier", "regions", "defer", "anon", "history"], extra=["hist1", "cust1", "deferreg", "reg3"], limit=10, flavours=ASAN),
    "C13": Prop(["core"], ["sensor=200,post=400,cbsensor=60,defer=300," + NET, "sensor=200,post=300,throw=60,gthrow=40,cbsensor=60,defer=400,setdep=20," + NET],
                ["hier", "regions", "defer", "anon", "pseudo"], extra=["deps6", "defernest", "deferreg", "deferanon", "anonreg", "reg3", "hist1"], limit=10, flavours=ASAN),
    "C14": Prop(["deps", "chain", "handler"], ["sensor=200,setdep=200,cbsetdep=100,defer=300," + NET,
                                               "instances=2,sensor=200,setdep=150,cbsetdep=150,move=60,throw=40,post=60,restart=20,defer=300," + NET],
                ["hier", "regions", "defer", "internal", "deps"], extra=["deps6", "reg3", "hier3", "defer2", "int3", "pseudo2", "hist1", "big1", "deferreg", "anon1"], limit=5),
    "C15": Prop(["custom", "core"], ["sensor=200,throw=40," + NET, "instances=2,sensor=200,throw=100,move=100,post=40,crash=20,set=20," + NET],
                ["hier", "pseudo", "anon", "custom", "custom", "regions"], extra=["shared", "pseudo2"], limit=12, flavours=ASAN),
    "C16": Prop(["core", "history", "defer"], ["sensor=200,move=300,defer=400," + NET,
                                               "instances=2,sensor=200,move=200,throw=50,set=40,setdep=60,post=40,defer=500," + NET],
                ["hier", "regions", "defer", "history", "custom"], extra=["cust1", "cust2", "reg3"], limit=11, flavours=ASAN),
    "C17": Prop(["core"], [MIX], ["hier", "regions", "defer", "anon", "internal", "pseudo"], rand_quick=1, limit=5,
                extra=["hist1", "cust1", "int1", "pseudo1", "reg3", "defer2", "chains", "val1", "regh", "regc1", "cust2", "cust4", "log1", "later2", "intmany", "pseudo4", "six1"], flavours=[{"header": "tree"}, {"header": "single"}]),
    "C18": Prop(["internal"], ["sensor=250,cbsensor=80,defer=200," + NET, "sensor=250,post=80,throw=60,gthrow=50,set=50,setdep=30,defer=300," + NET],
                ["internal", "internal", "hier", "defer", "anon", "regions"], rand_quick=5, extra=["intmany", "chains", "deps3", "big1", "val1", "val2"]),
    "C21": Prop(["core", "defer"], ["soak=300,sensor=150,throw=30,gthrow=20,defer=300,setdep=60,move=20,set=20," + NET,
                                    "soak=500,sensor=100,defer=150,post=20," + NET],
                ["hier", "regions", "defer", "anon", "internal", "history"], extra=["hist1", "cust1", "deferreg", "reg3", "int1"], limit=10),
    "C22": Prop(["logging"], ["sensor=250,logfail=60,defer=200,cbsensor=60," + NET,
                              "instances=2,sensor=250,logfail=150,throw=50,gthrow=30,post=80,yield=60,set=30,crash=20,cbsensor=60,defer=300," + NET],
                ["log", "hier", "pseudo", "anon", "defer", "internal", "regions"], rand_quick=8),
    "C20": Prop(["notation"], ["sensor=250,cbsensor=60,defer=200,throw=20,set=30," + NET], ["hier", "pseudo", "anon", "internal", "history", "regions"],
                rand_quick=2, extra=["chains", "int4", "val1"],
                flavours=[{"notation": "post"}, {"notation": "prefix"}, {"notation": "tuple"}]),
}
