// The command line: which computation a list of tokens requests.
module cli {
  import prelude.* from "./prelude"

  // a token with its leading "-" or "+" ("" otherwise, also for negative numbers)
  // and its reading as a number: kind "int", "float" or "word"
  type Tok = { s: str, lead: str, kind: str, i: int, x: int }
  type SolverReq = { key: str, name: str, short: str, n: int, cfl: int, method: str, flux: str, gamma: int, deg: int, p: int,
    exact: bool, adaptive: bool }
  type Req = { ok: bool, command: str, problem: str, benchmark: str, seed: int, stop: int,
    solvers: List[SolverReq], ints: str -> int, reals: str -> int, words: str -> str, flags: Set[str], variations: List[str] }

  pure val NONE: Req = { ok: true, command: "", problem: "", benchmark: "", seed: -1, stop: 0, solvers: [],
    ints: Map(), reals: Map(), words: Map(), flags: Set(), variations: [] }
  pure val NO_TOK: Tok = { s: "", lead: "", kind: "word", i: 0, x: 0 }

  // ------------------------------------------------------------------ tables
  // commands with a problem; commands for shallow water only; others
  pure def problemsOf(c: str): Set[str] =
    if (Set("calculate", "plot", "animate").contains(c)) Set("advection", "burgers", "swe")
    else if (c == "eoc") Set("advection", "burgers") else Set()
  pure val SWE_COMMANDS: Set[str] = Set("plot-error-evolution", "generate-data", "parameter-variation-test")
  pure val COMMANDS: Set[str] = Set("calculate", "plot", "animate", "eoc", "help", "print-network").union(SWE_COMMANDS)
  // commands which begin with an argument that is no option
  pure def positional(c: str): str =
    if (c == "help") "page" else if (c == "print-network") "network" else if (c == "parameter-variation-test") "directory" else ""

  pure def benchmarksOf(problem: str): Set[str] =
    if (problem == "advection") Set("three-hills", "two-hills", "one-hill", "cos", "gauss")
    else if (problem == "burgers") Set("shock", "smooth")
    else Set("lake-at-rest-no-bathymetry", "lake-at-rest", "lake-at-rest-perturbation", "moving-water-no-bathymetry",
      "moving-water-bump-bathymetry", "oscillation", "random", "damm-break", "cylindrical-damm-break",
      "cylindrical-damm-break-with-wall", "sinus-inflow", "b1", "b2", "b3", "b4", "b5")
  pure def defaultBenchmark(command: str, problem: str): str =
    if (problem == "advection") (if (command == "eoc") "cos" else "two-hills")
    else if (problem == "burgers") (if (command == "eoc") "smooth" else "shock")
    else "oscillation"

  pure val SCALAR_SOLVERS: Set[str] = Set("central", "llf", "mcl-fv", "cg", "cg-low", "mcl-fem")
  pure val SWE_SOLVERS: Set[str] = Set("llf", "lw", "low-order", "central", "es", "es1", "mcl", "reduced-llf", "reduced-llf-2",
    "antidiffusion", "coarse")
  pure def solversOf(problem: str): Set[str] = if (problem == "swe") SWE_SOLVERS else SCALAR_SOLVERS
  pure val FLUXES: Set[str] = Set("central", "es", "es1", "llf", "low-order", "reduced-llf", "reduced-llf-2")
  pure val METHODS: Set[str] = Set("euler", "heun", "ssp3")

  // what a solver can be asked for beyond its name, its mesh and its CFL number
  pure def ownOptions(problem: str, key: str): Set[str] =
    if (problem == "swe") {
      if (Set("lw", "central").contains(key)) Set()
      else if (key == "mcl") Set("flux", "method")
      else if (key == "antidiffusion") Set("flux", "method", "gamma")
      else if (key == "coarse") Set("flux", "method", "deg")
      else Set("method")
    }
    else if (key == "cg") Set("p", "exact")
    else if (Set("cg-low", "mcl-fem").contains(key)) Set("p", "adaptive", "method")
    else if (key == "mcl-fv") Set("method")
    else Set()
  pure def solverOptions(problem: str, key: str): Set[str] = Set("name", "short", "n", "cfl").union(ownOptions(problem, key))
  pure def solverOption(s: str): str =
    if (s == "+n" or s == "++name") "name" else if (s == "+s" or s == "++short") "short"
    else if (s == "+m" or s == "++mesh-size") "n" else if (s == "++cfl") "cfl"
    else if (s == "+o" or s == "++ode-solver") "method" else if (s == "+f" or s == "++flux") "flux"
    else if (s == "+g" or s == "++gamma") "gamma" else if (s == "+c" or s == "++coarsening-degree") "deg"
    else if (s == "+p" or s == "++polynomial-degree") "p"
    else if (s == "++exact-flux") "exact" else if (s == "++adaptive") "adaptive" else ""
  pure def tenth(d: int): int = fdiv(ONE, 10 * d)
  pure def defaultsOf(problem: str, key: str): SolverReq = {
    key: key, name: "", short: key,
    n: if (Set("reduced-llf", "reduced-llf-2").contains(key)) 50 else 400,
    cfl: if (key == "cg-low" or key == "mcl-fem") ONE else if (key == "reduced-llf") tenth(8)
      else if (key == "reduced-llf-2") tenth(40) else tenth(1),
    method: if (key == "lw") "euler" else if (key == "cg") "" else "heun",
    flux: "", gamma: tenth(1), deg: 8, p: 1, exact: false, adaptive: false }

  // options of commands: number of arguments "0", "1", "?", "+"
  pure def plots(c: str): bool = c == "plot" or c == "animate"
  pure def option(c: str, problem: str, s: str): str =
    if (s == "--args") "args" else if (s == "--profile") "profile"
    else if (c == "help" or c == "print-network") ""
    else if (s == "-s" or s == "--solver") "solver"
    else if (s == "-T" or s == "--end-time") "stop"
    else if ((s == "-b" or s == "--benchmark") and (problemsOf(c) != Set() or c == "plot-error-evolution")) "benchmark"
    else if ((s == "-r" or s == "--random-benchmark") and c != "eoc" and problem == "swe"
      and (problemsOf(c) != Set() or c == "plot-error-evolution")) "random"
    else if ((s == "-m" or s == "--mesh-size") and (c == "eoc" or plots(c))) "mesh"
    else if ((s == "-r" or s == "--refine") and c == "eoc") "refine"
    else if (s == "--initial" and plots(c)) "initial"
    else if (s == "--hide" and (plots(c) or c == "plot-error-evolution")) "hide"
    else if (s == "--save" and (c == "plot" or c == "plot-error-evolution")) "save"
    else if (s == "--save-data" and c == "plot") "savedata"
    else if (s == "--time_steps" and c == "animate") "timesteps"
    else if ((s == "-t" or s == "--start-time") and c == "animate") "start"
    else if (s == "--duration" and c == "animate") "duration"
    else if ((s == "-d" or s == "--directory") and c == "generate-data") "directory"
    else if ((s == "-c" or s == "--coarsening-degree") and c == "generate-data") "degree"
    else if ((s == "-n" or s == "--solution-number") and c == "generate-data") "number"
    else if ((s == "-n" or s == "--initial-data-number") and c == "parameter-variation-test") "number"
    else if (s == "--seed" and (c == "generate-data" or c == "parameter-variation-test")) "seed"
    else if ((s == "-i" or s == "--input-radius") and c == "generate-data") "radius"
    else if (s == "--node-index" and c == "generate-data") "node"
    else if (s == "--append" and c == "generate-data") "append"
    else if (s == "--references" and c == "parameter-variation-test") "references"
    else if ((s == "-v" or s == "--variations") and c == "parameter-variation-test") "variations"
    else if (s == "--save-plot" and c == "parameter-variation-test") "saveplot"
    else ""
  pure def takes(o: str): str =
    if (o == "solver") "+" else if (o == "variations") "*"
    else if (Set("profile", "random", "save", "savedata", "references").contains(o)) "?"
    else if (Set("args", "initial", "hide", "append", "saveplot").contains(o)) "0" else "1"
  pure val INTS: Set[str] = Set("mesh", "refine", "timesteps", "degree", "number", "seed", "radius", "node")
  pure val REALS: Set[str] = Set("stop", "start", "duration")
  pure def defaultInts(c: str): str -> int =
    if (c == "eoc") Map("mesh" -> 8, "refine" -> 4)
    else if (c == "plot") Map("mesh" -> 200)
    else if (c == "animate") Map("mesh" -> 200, "timesteps" -> 100)
    else if (c == "generate-data") Map("degree" -> 8, "number" -> 100, "seed" -> 1, "radius" -> 2, "node" -> 2)
    else if (c == "parameter-variation-test") Map("number" -> 20, "seed" -> 1)
    else Map()
  pure val VARIATIONS: Set[str] = Set("all", "height-average", "wave-number", "amplitude")
  // solvers a command asks for: fewest and most
  pure def fewest(c: str): int =
    if (c == "generate-data") 1 else if (c == "plot-error-evolution" or c == "parameter-variation-test") 2 else 0
  pure def most(c: str): int =
    if (c == "generate-data") 1 else if (c == "plot-error-evolution" or c == "parameter-variation-test") 2 else 1000

  // ----------------------------------------------------------------- solvers
  pure def positiveInt(t: Tok): bool = t.kind == "int" and t.i > 0
  pure def positiveReal(t: Tok): bool = t.kind != "word" and t.x > 0

  type SolverParse = { ok: bool, r: SolverReq, pending: str }
  pure def setSolver(a: SolverParse, o: str, t: Tok): SolverParse =
    if (o == "name") { ...a, pending: "", r: { ...a.r, name: t.s } }
    else if (o == "short") { ...a, pending: "", r: { ...a.r, short: t.s } }
    else if (o == "n") { ok: a.ok and positiveInt(t), pending: "", r: { ...a.r, n: t.i } }
    else if (o == "deg") { ok: a.ok and positiveInt(t), pending: "", r: { ...a.r, deg: t.i } }
    else if (o == "p") { ok: a.ok and positiveInt(t), pending: "", r: { ...a.r, p: t.i } }
    else if (o == "cfl") { ok: a.ok and positiveReal(t), pending: "", r: { ...a.r, cfl: t.x } }
    else if (o == "gamma") { ok: a.ok and t.kind != "word", pending: "", r: { ...a.r, gamma: t.x } }
    else if (o == "method") { ok: a.ok and METHODS.contains(t.s), pending: "", r: { ...a.r, method: t.s } }
    else if (o == "flux") { ok: a.ok and FLUXES.contains(t.s), pending: "", r: { ...a.r, flux: t.s } }
    else { ...a, ok: false }
  pure def oneSolver(problem: str, toks: List[Tok]): SolverParse =
    if (not(solversOf(problem).contains(toks[0].s))) { ok: false, r: defaultsOf(problem, toks[0].s), pending: "" }
    else {
      val e = toks.slice(1, toks.length()).foldl({ ok: true, r: defaultsOf(problem, toks[0].s), pending: "" }, (a, t) =>
        if (not(a.ok)) a
        else if (t.lead == "+") {
          val o = solverOption(t.s)
          if (a.pending != "" or not(solverOptions(problem, toks[0].s).contains(o))) { ...a, ok: false }
          else if (o == "exact") { ...a, r: { ...a.r, exact: true } }
          else if (o == "adaptive") { ...a, r: { ...a.r, adaptive: true } }
          else { ...a, pending: o }
        }
        else if (a.pending == "") { ...a, ok: false }
        else setSolver(a, a.pending, t))
      { ...e, ok: e.ok and e.pending == "" }
    }
  // a solver's name starts a new solver unless it names a flux
  pure def groups(problem: str, toks: List[Tok]): List[List[Tok]] =
    range(0, toks.length()).foldl([], (gs, i) =>
      if (i == 0) [[toks[0]]]
      else if (solversOf(problem).contains(toks[i].s) and solverOption(toks[i - 1].s) != "flux") gs.append([toks[i]])
      else gs.slice(0, gs.length() - 1).append(gs[gs.length() - 1].append(toks[i])))
  pure def withSolvers(r: Req, toks: List[Tok]): Req = {
    val l = groups(r.problem, toks).foldl([], (a, g) => a.append(oneSolver(r.problem, g)))
    { ...r, ok: r.ok and toks.length() > 0 and l.foldl(true, (a, p) => a and p.ok),
      solvers: l.foldl([], (a, p) => a.append(p.r)) }
  }

  // ------------------------------------------------------------------- lines
  // mode: command, problem, argument, free, value, maybe, solvers
  type Parse = { r: Req, mode: str, pending: str, toks: List[Tok], chosen: bool, random: bool }
  pure def refuse(a: Parse): Parse = { ...a, r: { ...a.r, ok: false } }
  pure def setOption(a: Parse, o: str, t: Tok): Parse = {
    val b = { ...a, mode: "free", pending: "" }
    if (o == "stop") (if (positiveReal(t)) { ...b, r: { ...b.r, stop: t.x } } else refuse(b))
    else if (o == "benchmark") (if (benchmarksOf(a.r.problem).contains(t.s) and not(a.random))
      { ...b, chosen: true, r: { ...b.r, benchmark: t.s } } else refuse(b))
    else if (o == "random") (if (t.kind == "int" and t.i >= 0 and not(a.chosen))
      { ...b, random: true, r: { ...b.r, seed: t.i, benchmark: "random" } } else refuse(b))
    else if (o == "profile") (if (t.kind != "int") refuse(b) else if (t.i > 0) { ...b, r: { ...b.r, flags: b.r.flags.union(Set("profile")) } } else b)
    else if (INTS.contains(o)) (if (positiveInt(t)) { ...b, r: { ...b.r, ints: b.r.ints.put(o, t.i) } } else refuse(b))
    else if (REALS.contains(o)) (if (positiveReal(t)) { ...b, r: { ...b.r, reals: b.r.reals.put(o, t.x) } } else refuse(b))
    else { ...b, r: { ...b.r, words: b.r.words.put(o, t.s) } }
  }
  // an option given without its optional argument
  pure def bare(a: Parse): Parse =
    if (a.pending == "random") refuse(a) // an unknown random problem: not covered
    else { ...a, mode: "free", pending: "", r: { ...a.r, flags: a.r.flags.union(Set(a.pending)) } }
  pure def free(a: Parse, t: Tok): Parse = {
    val o = if (t.lead == "-") option(a.r.command, a.r.problem, t.s) else ""
    if (o == "") refuse(a)
    else if (takes(o) == "0") { ...a, r: { ...a.r, flags: a.r.flags.union(Set(o)) } }
    else if (takes(o) == "1") { ...a, mode: "value", pending: o }
    else if (takes(o) == "?") { ...a, mode: "maybe", pending: o }
    else if (takes(o) == "*") { ...a, mode: "variations", r: { ...a.r, variations: [] } }
    else { ...a, mode: "solvers", toks: [] }
  }
  pure def first(a: Parse, c: str): Parse = {
    val r = { ...a.r, command: c, ints: defaultInts(c), problem: if (SWE_COMMANDS.contains(c)) "swe" else "",
      benchmark: if (SWE_COMMANDS.contains(c)) "oscillation" else "" }
    if (not(COMMANDS.contains(c))) refuse(a)
    else { ...a, r: r, mode: if (problemsOf(c) != Set()) "problem" else if (positional(c) != "") "argument" else "free" }
  }
  pure def argument(a: Parse, t: Tok): Parse = {
    val p = positional(a.r.command)
    val fine = if (p == "page") SCALAR_SOLVERS.union(SWE_SOLVERS).contains(t.s)
      else if (p == "network") Set("llf", "llf2").contains(t.s) else true
    if (t.lead != "" or not(fine)) refuse(a) else { ...a, mode: "free", r: { ...a.r, words: a.r.words.put(p, t.s) } }
  }
  pure def consume(a: Parse, t: Tok): Parse =
    if (not(a.r.ok)) a
    else if (a.mode == "command") first(a, t.s)
    else if (a.mode == "problem") {
      if (problemsOf(a.r.command).contains(t.s))
        { ...a, mode: "free", r: { ...a.r, problem: t.s, benchmark: defaultBenchmark(a.r.command, t.s) } }
      else refuse(a) }
    else if (a.mode == "argument") argument(a, t)
    else if (a.mode == "value") (if (t.lead == "-") refuse(a) else setOption(a, a.pending, t))
    else if (a.mode == "maybe") (if (t.lead == "-") free(bare(a), t) else setOption(a, a.pending, t))
    else if (a.mode == "variations") {
      if (t.lead == "-") free({ ...a, mode: "free" }, t)
      else if (VARIATIONS.contains(t.s)) { ...a, r: { ...a.r, variations: a.r.variations.append(t.s) } }
      else refuse(a) }
    else if (a.mode == "solvers") {
      if (t.lead == "-") free({ ...a, mode: "free", r: withSolvers(a.r, a.toks) }, t)
      else { ...a, toks: a.toks.append(t) } }
    else free(a, t)
  // generated data needs a place
  pure def placed(r: Req): bool = r.command == "generate-data" and r.solvers.length() == 1 implies
    r.words.keys().contains("directory") or Set("llf", "llf2", "llf3", "es1").contains(r.solvers[0].short)
  pure def ended(a: Parse): Req =
    if (not(a.r.ok) or a.mode == "command" or a.mode == "problem" or a.mode == "argument" or a.mode == "value") { ...a.r, ok: false }
    else {
      val r = if (a.mode == "maybe") bare(a).r else if (a.mode == "solvers") withSolvers(a.r, a.toks) else a.r
      { ...r, ok: r.ok and r.solvers.length() >= fewest(r.command) and r.solvers.length() <= most(r.command) and placed(r) }
    }
  pure def parse(line: List[Tok]): Req =
    ended(line.foldl({ r: NONE, mode: "command", pending: "", toks: [], chosen: false, random: false }, (a, t) => consume(a, t)))

  // --------------------------------------------------------------- execution
  // one run: which solver on which mesh; draw: index in the sequence of random
  // problems (-1: the chosen benchmark) and their prescribed parameters (0: none)
  type RunReq = { solver: int, n: int, draw: int, average: int, waves: int, amplitude: int }
  type Drawn = { average: int, waves: int, amplitude: int }
  pure val FREE: Drawn = { average: 0, waves: 0, amplitude: 0 }
  pure def cellsShown(s: SolverReq): int = if (s.key == "coarse") s.n / s.deg else s.n
  // cells on either side which the flux of a solver looks at
  pure def reach(s: SolverReq): int =
    if (s.key == "reduced-llf" or s.key == "reduced-llf-2" or s.flux == "reduced-llf" or s.flux == "reduced-llf-2") 2 else 1
  // requests which fit together
  pure def feasible(r: Req): bool =
    r.solvers.foldl(true, (a, s) => a and (s.key == "coarse" implies s.n % s.deg == 0)) and
    (if (r.command == "generate-data" and r.solvers.length() == 1) {
      val n = cellsShown(r.solvers[0])
      n % r.ints.get("degree") == 0 and (r.ints.get("node") + r.ints.get("radius")) * r.ints.get("degree") <= n
        and r.ints.get("node") >= r.ints.get("radius") and r.ints.get("radius") >= reach(r.solvers[0]) and r.solvers[0].key != "coarse" and r.solvers[0].key != "lw"
    }
    else if ((r.command == "plot-error-evolution" or r.command == "parameter-variation-test") and r.solvers.length() == 2)
      cellsShown(r.solvers[0]) == cellsShown(r.solvers[1])
    else true)
  pure def valuesOf(v: str): List[Drawn] =
    if (v == "height-average") List({ average: fdiv(16 * ONE, 10), waves: 2, amplitude: 0 }, { average: fdiv(24 * ONE, 10), waves: 2, amplitude: 0 })
    else if (v == "wave-number") List({ average: 0, waves: 10, amplitude: 0 }, { average: 0, waves: 15, amplitude: 0 })
    else List({ average: 0, waves: 0, amplitude: fdiv(8 * ONE, 10) }, { average: 0, waves: 0, amplitude: ONE }, { average: 0, waves: 0, amplitude: fdiv(15 * ONE, 10) })
  pure def variationsOf(r: Req): List[Drawn] = {
    val every3 = r.variations.foldl(false, (a, v) => a or v == "all")
    val l = if (every3) ["height-average", "wave-number", "amplitude"] else r.variations
    l.foldl(if (r.flags.contains("references") or r.words.keys().contains("references")) [FREE] else [], (a, v) => a.concat(valuesOf(v)))
  }
  pure def drawn(solver: int, n: int, k: int, d: Drawn): RunReq =
    { solver: solver, n: n, draw: k, average: d.average, waves: d.waves, amplitude: d.amplitude }
  // the runs of a request, in their order
  pure def runsOf(r: Req): List[RunReq] =
    if (r.command == "eoc") range(0, r.solvers.length()).foldl([], (l, i) =>
      range(0, r.ints.get("refine")).foldl(l, (m, j) => m.append(drawn(i, 2^j * r.ints.get("mesh"), -1, FREE))))
    else if (r.command == "generate-data") range(0, r.ints.get("number")).foldl([], (l, k) =>
      // the first two problems of the sequence serve to set up the fluxes
      l.append(drawn(0, r.solvers[0].n, k + 2, FREE)))
    else if (r.command == "parameter-variation-test") variationsOf(r).foldl([], (l, d) =>
      range(0, r.ints.get("number")).foldl(l, (m, k) => m.append(drawn(1, r.solvers[1].n, k, d)).append(drawn(0, r.solvers[0].n, k, d))))
    else range(0, r.solvers.length()).foldl([], (l, i) => l.append(drawn(i, r.solvers[i].n, -1, FREE)))
  // the run after run k of the list (-1: none)
  pure def following(r: Req, l: List[RunReq], k: int, failed: bool): int = {
    val j = if (not(failed)) k + 1
      else if (Set("plot", "animate").contains(r.command)) k + 1
      else if (r.command == "parameter-variation-test") (if (l[k].solver == 1) k + 2 else k + 1)
      else l.length()
    if (j < l.length()) j else -1
  }
  // commands which need the whole history of a run
  pure def remembers(r: Req): bool = Set("animate", "plot-error-evolution", "parameter-variation-test").contains(r.command)
  // files a request leaves behind (no two solvers failed)
  pure def shallow(name: str): Set[str] =
    if (name == "figure.png") Set("figure_h.png", "figure_q.png", "figure_v.png")
    else if (name == "figure.pkl") Set("figure_h.pkl", "figure_q.pkl", "figure_v.pkl")
    else if (name == "lines.pkl") Set("lines_h.pkl", "lines_q.pkl", "lines_v.pkl")
    else if (name == "data/plot.png") Set("data/plot_h.png", "data/plot_q.png", "data/plot_v.png")
    else Set("data/plot_h.pkl", "data/plot_q.pkl", "data/plot_v.pkl")
  pure def filesOf(r: Req): Set[str] =
    if (r.command == "plot") {
      val figure = if (r.words.keys().contains("save")) r.words.get("save") else if (r.flags.contains("save")) "data/plot.png" else ""
      val data = if (r.words.keys().contains("savedata")) r.words.get("savedata") else if (figure == "figure.png") "figure.pkl" else "data/plot.pkl"
      val l = if (figure == "") Set(data) else Set(figure, data)
      if (r.problem == "swe") l.map(f => shallow(f)).flatten() else l
    }
    else if (r.command == "plot-error-evolution")
      (if (r.words.keys().contains("save")) Set(r.words.get("save")) else if (r.flags.contains("save")) Set("data/error.png") else Set())
    else if (r.command == "generate-data" and r.solvers.length() > 0) {
      val d = if (r.words.keys().contains("directory")) r.words.get("directory") else r.solvers[0].short
      if (d == "data") Set("data/data.csv", "data/benchmark.csv") else if (d == "out") Set("out/data.csv", "out/benchmark.csv")
      else if (d == "llf") Set("data/reduced-llf/data.csv", "data/reduced-llf/benchmark.csv")
      else Set("data/reduced-es1/data.csv", "data/reduced-es1/benchmark.csv")
    }
    else Set()
  // pictures of a series of error evolutions: one per problem and two averages
  pure def picturesOf(r: Req): int =
    if (r.command != "parameter-variation-test" or not(r.ok)) 0
    else variationsOf(r).length() * ((if (r.flags.contains("saveplot")) 4 else 1) * r.ints.get("number") + 2)
}
