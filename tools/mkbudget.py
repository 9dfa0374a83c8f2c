import json
R={}
def p(i,q,t,rule,lvl="exploration",ass=()):
    R[i]={"quick":{"runs":q,"wall":240},"thorough":{"runs":t,"wall":780},"rule":rule,"level":lvl,"assumptions":list(ass)}
HIST="a run counts when it checked at least one result and executed at least two operations; two runs are distinct when their sequence of operations, model kinds, fired faults (kind and code location) and outcomes differs"
CONC="a run counts when at least one caller thread was preempted inside the library and at least one result was compared; two runs are distinct when the operations or the digest of (preempted thread, resumed thread, code location) over all preemptions differ"
OPT="a run counts when at least one value was compared with the independent model; two runs are distinct when model kind, optimiser behaviour, method, ridge or number of constraints differ"
p("C01",200,2400,HIST+" (and it contains an operation with an explicit seed); for concurrent runs: "+CONC)
p("C02",300,3600,HIST)
p("C03",280,3600,HIST+"; and a fault fired","exploration")
p("C04",110,1400,HIST+"; and a fault fired")
p("C05",150,1900,HIST)
p("C06",160,2000,CONC)
p("C07",190,2400,CONC)
p("C08",600,9000,"a run counts when a fault fired or two saves ran concurrently; two runs are distinct when model kinds, disk buffer size, or the sequence of (fault, point, outcome) differs","exploration")
p("C09",240,3000,HIST+"; and at least one save-restart-load took place")
p("C10",140,1800,HIST)
p("C11",420,5500,"a run counts when at least one replicate was recomputed; two runs are distinct when model kind, data seed, or the resampling calls differ")
p("C12",90,1200,HIST+"; and a fault fired","exploration")
p("C13",900,12000,OPT)
p("C14",900,12000,OPT+"; and at least one parameter is constrained")
p("C15",280,3600,HIST)
p("C16",900,12000,OPT)
p("C17",170,2200,HIST+" (and it contains a prediction); for concurrent runs: "+CONC)
p("C18",110,1100,HIST+" (and it contains a bootstrap statistic)")
json.dump(R,open('/verif/budget.json','w'),indent=1,sort_keys=True)
