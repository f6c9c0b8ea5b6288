// Command lines, built token by token together with the computation they
// request; sometimes spoilt.  The grammar must understand every one of them.
module model_cli {
  import prelude.* from "./prelude"
  import cli.* from "./cli"

  var line: List[Tok]
  var want: Req
  var todo: List[RunReq] // the runs of a finished request
  var phase: str // start, options, solvers, done
  var used: Set[str] // options given so far (of the command, then of the last solver)

  pure def word(s: str): Tok = { s: s, lead: "", kind: "word", i: 0, x: 0 }
  pure def opt(s: str): Tok = { s: s, lead: "-", kind: "word", i: 0, x: 0 }
  pure def plus(s: str): Tok = { s: s, lead: "+", kind: "word", i: 0, x: 0 }
  pure def whole(s: str, i: int): Tok = { s: s, lead: "", kind: "int", i: i, x: i * ONE }
  pure def decimal(s: str, n: int, d: int): Tok = { s: s, lead: "", kind: "float", i: 0, x: fdiv(n * ONE, d) }

  pure val TIMES = Set(decimal("0.02", 2, 100), decimal("0.005", 5, 1000), decimal("0.4", 4, 10), decimal("1e-3", 1, 1000))
  pure val SWE_TIMES = Set(decimal("0.3", 3, 10), decimal("0.05", 5, 100), whole("2", 2), decimal("1.5", 3, 2), whole("45", 45))
  // beyond the end the problems have by themselves
  pure val LONG_TIMES = TIMES.union(Set(decimal("1.25", 5, 4), whole("3", 3)))
  pure val SIZES = Set(whole("4", 4), whole("8", 8), whole("12", 12), whole("16", 16), whole("6", 6))
  pure val SMALL = Set(whole("1", 1), whole("2", 2), whole("3", 3))
  pure val DEGREES = Set(whole("1", 1), whole("2", 2), whole("4", 4))
  pure val SEEDS = Set(whole("1", 1), whole("7", 7), whole("42", 42))
  pure val BAD_INTS = Set(whole("0", 0), whole("-3", -3), decimal("1.5", 3, 2), word("x"))
  pure val BAD_REALS = Set(whole("0", 0), decimal("-0.5", -1, 2), word("x"))

  pure def names(a: str, b: str): Set[Tok] = Set(opt(a), opt(b))

  action init = all {
    todo' = [], line' = [], want' = NONE, phase' = "start", used' = Set(),
  }

  action doStart = all {
    phase == "start" or phase == "done",
    nondet lucky = 0.to(4).oneOf()
    nondet c = (if (lucky == 0) COMMANDS else COMMANDS.exclude(Set("help", "print-network"))).oneOf()
    nondet p = (if (problemsOf(c) == Set()) Set("") else problemsOf(c)).oneOf()
    nondet page = (if (c == "print-network") Set("llf", "llf2") else Set("llf", "cg", "coarse", "mcl-fem")).oneOf()
    val arg = if (positional(c) == "") [] else List(if (c == "parameter-variation-test") word("tests/") else word(page))
    val r = { ...NONE, command: c, problem: if (SWE_COMMANDS.contains(c)) "swe" else p,
      benchmark: if (SWE_COMMANDS.contains(c)) "oscillation" else if (p == "") "" else defaultBenchmark(c, p),
      ints: defaultInts(c), words: if (arg == []) Map() else Map(positional(c) -> arg[0].s) }
    all {
      todo' = [], line' = [word(c)].concat(if (p == "") [] else [word(p)]).concat(arg),
      want' = r, phase' = "options", used' = Set(),
    }
  }
  // spoilt from the start
  action misspelt = all {
    phase == "start" or phase == "done",
    nondet l = Set([], [word("frobnicate")], [word("calculate")], [word("calculate"), word("heat")], [word("eoc"), word("swe")],
      List(word("help"), word("heun")), [word("help")], [word("print-network"), word("mcl")], [opt("-s"), word("llf")],
      List(word("parameter-variation-test")), [word("calculate"), opt("-T"), whole("1", 1), word("swe")]).oneOf()
    all { todo' = [], line' = l, want' = { ...NONE, ok: false }, phase' = "done", used' = Set() }
  }

  // one more option of the command
  action give(o: str, t: List[Tok], r: Req): bool = all {
    phase == "options" or phase == "solvers", not(used.contains(o)) or phase == "solvers",
    todo' = [], line' = line.concat(t), want' = r, phase' = "options", used' = if (phase == "solvers") Set("solver", o) else used.union(Set(o)),
  }
  pure def offered(c: str, p: str, s: str): bool = option(c, p, s) != ""
  def known(s: str): bool = offered(want.command, want.problem, s)

  action doEndTime = {
    nondet s = names("-T", "--end-time").oneOf()
    nondet t = (if (want.problem == "swe") SWE_TIMES else if (want.problem == "advection") LONG_TIMES else TIMES).oneOf()
    all { known("-T"), give("stop", [s, t], { ...want, stop: t.x }) }
  }
  action doBenchmark = {
    nondet s = names("-b", "--benchmark").oneOf()
    nondet b = benchmarksOf(want.problem).exclude(Set("random")).oneOf()
    all { known("-b"), want.seed < 0,
      give("benchmark", [s, word(b)], { ...want, benchmark: b }) }
  }
  action doRandom = {
    nondet s = names("-r", "--random-benchmark").oneOf()
    nondet i = SEEDS.oneOf()
    all { known("--random-benchmark"), not(used.contains("benchmark")), not(phase == "solvers" and want.benchmark != "oscillation"),
      phase == "options", not(used.contains("solver")),
      give("random", [s, i], { ...want, benchmark: "random", seed: i.i }) }
  }
  action doInteger = {
    nondet o = Set((opt("-m"), SIZES), (opt("--mesh-size"), SIZES), (opt("--refine"), SMALL), (opt("-r"), SMALL), (opt("--time_steps"), SIZES),
      (opt("-c"), DEGREES), (opt("--coarsening-degree"), DEGREES), (opt("-n"), Set(whole("1", 1), whole("2", 2))), (opt("--seed"), SEEDS), (opt("-i"), Set(whole("1", 1), whole("2", 2)))).oneOf()
    nondet t = o._2.oneOf()
    val name = option(want.command, want.problem, o._1.s)
    all { INTS.contains(name), give(name, [o._1, t], { ...want, ints: want.ints.put(name, t.i) }) }
  }
  action doNumber = {
    nondet s = Set(opt("-n"), if (want.command == "generate-data") opt("--solution-number") else opt("--initial-data-number")).oneOf()
    nondet t = Set(whole("1", 1), whole("2", 2)).oneOf()
    all { known("-n"), give("number", [s, t], { ...want, ints: want.ints.put("number", t.i) }) }
  }
  action doDuration = {
    nondet t = Set(whole("3", 3), decimal("0.5", 1, 2)).oneOf()
    all { known("--duration"), give("duration", [opt("--duration"), t], { ...want, reals: want.reals.put("duration", t.x) }) }
  }
  action doFlag = {
    nondet s = Set("--args", "--initial", "--hide", "--append", "--references", "--save-plot").oneOf()
    all { known(s), give(option(want.command, want.problem, s), [opt(s)],
      { ...want, flags: want.flags.union(Set(option(want.command, want.problem, s))) }) }
  }
  action doFile = {
    nondet s = Set((opt("--save"), word("figure.png")), (opt("--save-data"), word("lines.pkl")), (opt("-d"), word("data")),
      (opt("--directory"), word("out"))).oneOf()
    val name = option(want.command, want.problem, s._1.s)
    all { name != "", give(name, [s._1, s._2], { ...want, words: want.words.put(name, s._2.s) }) }
  }
  // an option whose argument is left out: another option has to follow
  action doBare = {
    nondet s = Set("--save", "--references", "--profile").oneOf()
    val name = option(want.command, want.problem, s)
    all { name != "", give(name, [opt(s), opt("--args")], { ...want, flags: want.flags.union(Set(name, "args")) }) }
  }
  action doProfile = {
    nondet l = Set([opt("--profile"), whole("3", 3)], [opt("--profile")]).oneOf()
    all { known("--profile"), give("profile", l, { ...want, flags: want.flags.union(Set("profile")) }) }
  }

  action doVariations = {
    nondet s = names("-v", "--variations").oneOf()
    nondet l = Set(["amplitude"], ["height-average"], ["wave-number"], []).oneOf()
    all { known("-v"), give("variations", [s].concat(l.foldl([], (a, w) => a.append(word(w)))), { ...want, variations: l }) }
  }

  // solvers
  pure def many(r: Req): bool = r.solvers.length() >= imin(most(r.command), 3)
  action firstSolver = {
    nondet s = names("-s", "--solver").oneOf()
    nondet k = solversOf(want.problem).oneOf()
    all {
      phase == "options", known("-s"), not(used.contains("solver")),
      todo' = [], line' = line.concat([s, word(k)]), want' = { ...want, solvers: [defaultsOf(want.problem, k)] }, phase' = "solvers", used' = Set(),
    }
  }
  action nextSolver = {
    nondet k = solversOf(want.problem).oneOf()
    all {
      phase == "solvers", not(many(want)),
      todo' = [], line' = line.append(word(k)), want' = { ...want, solvers: want.solvers.append(defaultsOf(want.problem, k)) },
      phase' = phase, used' = Set(),
    }
  }
  // two solvers with the same number of cells
  action twoSolvers = {
    nondet s = names("-s", "--solver").oneOf()
    nondet a = SWE_SOLVERS.exclude(Set("coarse")).oneOf()
    nondet b = SWE_SOLVERS.oneOf()
    val n = if (b == "coarse") whole("128", 128) else whole("16", 16)
    all {
      phase == "options", known("-s"), not(used.contains("solver")), fewest(want.command) == 2,
      todo' = [], line' = line.concat(List(s, word(a), plus("+m"), whole("16", 16), word(b), plus("+m"), n)),
      want' = { ...want, solvers: List({ ...defaultsOf("swe", a), n: 16 }, { ...defaultsOf("swe", b), n: n.i }) },
      phase' = "solvers", used' = Set("n"),
    }
  }
  pure def lastOf(r: Req): SolverReq = r.solvers[r.solvers.length() - 1]
  pure def withLast(r: Req, s: SolverReq): Req = { ...r, solvers: r.solvers.replaceAt(r.solvers.length() - 1, s) }
  action solverGiven(o: str, t: List[Tok], s: SolverReq): bool = all {
    phase == "solvers", not(used.contains(o)),
    todo' = [], line' = line.concat(t), want' = withLast(want, s), phase' = phase, used' = used.union(Set(o)),
  }
  def may(o: str): bool = phase == "solvers" and want.solvers.length() > 0
    and solverOptions(want.problem, lastOf(want).key).contains(o)
  action doMeshSize = {
    nondet s = Set(plus("+m"), plus("++mesh-size")).oneOf()
    nondet t = (if (fewest(want.command) == 2) Set(whole("16", 16)) else Set(whole("8", 8), whole("16", 16), whole("24", 24), whole("48", 48))).oneOf()
    all { may("n"), solverGiven("n", [s, t], { ...lastOf(want), n: t.i }) }
  }
  action doCfl = {
    nondet t = Set(decimal("0.05", 5, 100), decimal("0.2", 2, 10), decimal("0.125", 1, 8)).oneOf()
    all { may("cfl"), solverGiven("cfl", [plus("++cfl"), t], { ...lastOf(want), cfl: t.x }) }
  }
  action doLabel = {
    nondet s = Set((plus("+s"), "short"), (plus("++short"), "short"), (plus("+n"), "name"), (plus("++name"), "name")).oneOf()
    nondet t = Set(word("A"), word("run-1"), whole("5", 5), word("heun")).oneOf()
    all { may("short"), solverGiven(s._2, [s._1, t], if (s._2 == "short") { ...lastOf(want), short: t.s } else { ...lastOf(want), name: t.s }) }
  }
  action doMethod = {
    nondet s = Set(plus("+o"), plus("++ode-solver")).oneOf()
    nondet m = METHODS.oneOf()
    all { may("method"), solverGiven("method", [s, word(m)], { ...lastOf(want), method: m }) }
  }
  action doFlux = {
    nondet s = Set(plus("+f"), plus("++flux")).oneOf()
    nondet f = FLUXES.oneOf()
    all { may("flux"), solverGiven("flux", [s, word(f)], { ...lastOf(want), flux: f }) }
  }
  action doGamma = {
    nondet s = Set(plus("+g"), plus("++gamma")).oneOf()
    nondet t = Set(whole("0", 0), decimal("-0.5", -1, 2), decimal("0.7", 7, 10)).oneOf()
    all { may("gamma"), solverGiven("gamma", [s, t], { ...lastOf(want), gamma: t.x }) }
  }
  action doDegree = {
    nondet s = Set((plus("+c"), "deg"), (plus("++coarsening-degree"), "deg"), (plus("+p"), "p"), (plus("++polynomial-degree"), "p")).oneOf()
    nondet t = Set(whole("1", 1), whole("2", 2), whole("4", 4)).oneOf()
    all { may(s._2), s._2 == "p" implies t.i <= 2, solverGiven(s._2, [s._1, t], if (s._2 == "deg") { ...lastOf(want), deg: t.i } else { ...lastOf(want), p: t.i }) }
  }
  action doSwitch = {
    nondet s = Set((plus("++exact-flux"), "exact"), (plus("++adaptive"), "adaptive")).oneOf()
    all { may(s._2), solverGiven(s._2, [s._1], if (s._2 == "exact") { ...lastOf(want), exact: true } else { ...lastOf(want), adaptive: true }) }
  }

  // something wrong, and the line is finished
  action spoilt(t: List[Tok]): bool = all {
    todo' = [], line' = line.concat(t), want' = { ...want, ok: false }, phase' = "done", used' = used,
  }
  action badOption = {
    nondet o = Set(opt("-m"), opt("--refine"), opt("-n"), opt("--seed"), opt("-c"), opt("-i"), opt("--node-index"), opt("--time_steps")).oneOf()
    nondet b = BAD_INTS.oneOf()
    nondet c = BAD_REALS.oneOf()
    any {
      all { phase == "options" or phase == "solvers", known(o.s), spoilt([o, b]) },
      all { phase == "options" or phase == "solvers", known("-T"), spoilt([opt("-T"), c]) },
    }
  }
  action badWord = {
    nondet l = Set([opt("-b"), word("nope")], [opt("--bogus")], [opt("-T")], [opt("-s")], [opt("-s"), word("nope")], [opt("-s"), word("heun"), word("llf")],
      List(opt("-s"), plus("+m"), whole("4", 4)), [opt("-b"), opt("--args")], [opt("-v"), word("nope")], [opt("--seed")]).oneOf()
    all { phase == "options" or phase == "solvers", spoilt(l) }
  }
  action bothBenchmarks = all {
    phase == "options", known("--random-benchmark"), not(used.contains("benchmark")), not(used.contains("random")), not(used.contains("solver")),
    spoilt([opt("-r"), whole("5", 5), opt("-b"), word("b1")]),
  }
  action badSolverOption = {
    nondet o = Set((plus("+m"), "n"), (plus("++coarsening-degree"), "deg"), (plus("+p"), "p")).oneOf()
    nondet b = BAD_INTS.oneOf()
    nondet l = Set(([plus("++cfl"), whole("0", 0)], "cfl"), ([plus("++cfl"), decimal("-0.5", -1, 2)], "cfl"), ([plus("++cfl"), word("x")], "cfl"),
      ([plus("+o"), word("rk8")], "method"), ([plus("+o"), word("llf")], "method"), ([plus("+f"), word("mcl")], "flux"), ([plus("+f"), word("nope")], "flux"),
      ([plus("+g"), word("x")], "gamma"), ([plus("+m")], "n"), ([plus("+f")], "flux"), ([word("stray")], "n"), ([plus("+z"), whole("3", 3)], "n")).oneOf()
    nondet w = Set(([plus("+g"), whole("1", 1)], "gamma"), ([plus("+f"), word("central")], "flux"), ([plus("+o"), word("euler")], "method"),
      ([plus("+p"), whole("2", 2)], "p"), ([plus("++adaptive")], "adaptive"), ([plus("++exact-flux")], "exact"), ([plus("+c"), whole("2", 2)], "deg")).oneOf()
    any {
      all { may(o._2), spoilt([o._1, b]) },
      all { may(l._2), spoilt(l._1) },
      all { phase == "solvers", not(solverOptions(want.problem, lastOf(want).key).contains(w._2)), spoilt(w._1) },
    }
  }
  // more solvers than the command takes
  action crowd = {
    nondet k = SWE_SOLVERS.exclude(Set("coarse")).oneOf()
    all { phase == "solvers", want.solvers.length() == most(want.command), spoilt([word(k), plus("+m"), whole("16", 16)]) }
  }
  action doCrowd = {
    nondet unlucky = 0.to(2).oneOf()
    all { unlucky == 0, crowd }
  }
  action doSpoil = {
    nondet unlucky = 0.to(3).oneOf()
    all { unlucky == 0, any { badOption, badWord, bothBenchmarks, badSolverOption, badSolverOption } }
  }
  // without solvers only plots are covered; other commands need at least one
  action doFinish = all {
    phase == "options" or phase == "solvers",
    want.solvers.length() > 0 or Set("plot", "help", "print-network").contains(want.command) or fewest(want.command) > 0,
    feasible(want),
    Set("generate-data", "parameter-variation-test").contains(want.command) implies want.ints.get("number") <= 2,
    val fine = want.solvers.length() >= fewest(want.command) and want.solvers.length() <= most(want.command) and placed(want)
    all {
      todo' = if (fine) runsOf(want) else [], line' = line, phase' = "done", used' = used,
      want' = { ...want, ok: fine },
    }
  }
  action commandOption = any { doEndTime, doEndTime, doBenchmark, doRandom, doInteger, doInteger, doDuration, doFlag, doFile, doProfile, doBare, doVariations }
  action solverPart = any { nextSolver, nextSolver, doMeshSize, doMeshSize, doMeshSize, doCfl, doLabel, doMethod, doFlux, doGamma, doDegree, doSwitch }
  action step = any {
    doStart, doStart, doStart, doStart, doStart, doStart, doStart, misspelt,
    all { phase == "options", any { commandOption, firstSolver, firstSolver, doSpoil } },
    all { phase == "options", not(used.contains("solver")) implies want.command == "plot" or Set("help", "print-network").contains(want.command), doFinish },
    all { phase == "solvers", any { solverPart, solverPart, solverPart, commandOption, doFinish, doSpoil } },
    all { phase == "solvers", solverPart },
    all { phase == "solvers", solverPart },
    firstSolver,
    twoSolvers, twoSolvers, twoSolvers, twoSolvers,
    all { SWE_COMMANDS.contains(want.command), any { doNumber, doFinish, doVariations, doFile } },
    all { SWE_COMMANDS.contains(want.command), any { doNumber, doFinish, doVariations, doFile } },
    all { SWE_COMMANDS.contains(want.command), any { doNumber, doFinish, doVariations, doFile } },
    doCrowd,
  }

  val understood = phase == "done" implies (if (want.ok) parse(line) == want else not(parse(line).ok))
  val covered = phase != "done"
}
