// C14: the command line builds exactly the requested computation.
module C14 {
  import prelude.* from "./prelude"
  import cli.* from "./cli"

  // k: the run expected next (-1: none), wild: some run failed or left the range
  // of numbers, ran: how many runs there were
  type St = { req: Req, todo: List[RunReq], k: int, ran: int, wild: bool }
  pure val ST0: St = { req: NONE, todo: [], k: -1, ran: 0, wild: false }

  pure def tokens(e: Ev, v: List[Vec]): List[Tok] = range(0, e.s.length()).foldl([], (l, i) =>
    l.append({ s: e.s[i], lead: if (v[0][i] == 1) "-" else if (v[0][i] == 2) "+" else "",
      kind: if (v[1][i] == 1) "int" else if (v[1][i] == 2) "float" else "word", i: v[2][i], x: v[3][i] }))

  // the configuration a run was compared with, as integers
  pure def flagged(b: bool): int = if (b) 1 else 0
  pure def asked(s: SolverReq, r: RunReq, q: Req): Vec =
    List(r.n, s.deg, s.p, flagged(s.exact), flagged(s.adaptive), s.cfl, s.gamma, q.stop, q.seed, r.draw, r.average, r.waves, r.amplitude,
      if (r.draw >= 0) q.ints.get("seed") else 0)
  pure def shownOf(s: SolverReq, n: int): int =
    if (s.key == "coarse") n / s.deg else if (Set("cg", "cg-low", "mcl-fem").contains(s.key)) n * s.p else n
  pure def rough(s: SolverReq): bool = Set("reduced-llf", "reduced-llf-2").contains(s.key)
    or Set("reduced-llf", "reduced-llf-2").contains(s.flux)

  // a run: [key, method, flux, problem, benchmark, name, short, outcome, expected outcome]
  pure def ranOne(st: St, e: Ev, v: List[Vec]): { st: St, vs: List[Verdict] } = {
    val expected = st.req.ok and st.k >= 0
    val r = if (expected) st.todo[st.k] else drawn(0, 0, -1, FREE)
    val s = if (expected) st.req.solvers[r.solver] else defaultsOf("swe", "llf")
    val failed = e.s[8] != "complete"
    val fits = expected and e.s[0] == s.key and e.s[1] == s.method and e.s[2] == s.flux and e.s[3] == st.req.problem
      and e.s[4] == (if (r.draw >= 0) "" else st.req.benchmark) and v[0] == asked(s, r, st.req)
    val finite = allFin(v[6])
    {
      st: { ...st, ran: st.ran + 1, wild: st.wild or failed or not(finite) or not(allFin(v[4])),
        k: if (expected) following(st.req, st.todo, st.k, failed) else -1 },
      vs: List(chk("every run is a requested one", expected))
        .concat(chkIf(expected, "runs come in the requested order", fits))
        .concat(chkIf(fits, "a run has the requested label", e.s[6] == s.short and (s.name != "" implies e.s[5] == s.name)))
        .concat(chkIf(fits, "a run has the requested number of unknowns", v[1][0] == shownOf(s, r.n)))
        .concat(chkIf(fits and remembers(st.req), "a run remembers its history", v[1][1] == 1))
        .concat(chkIf(fits, "a run ends like the requested one", e.s[7] == e.s[8]))
        .concat(chkIf(fits, "a run takes the time steps of the requested one", sameLen(v[2], v[3]) and
          (not(failed) implies agree(v[2], v[3]))))
        .concat(chkIf(fits and not(failed) and finite, "a run starts with the requested data", agreeK(v[5], v[7], 24)))
        .concat(chkIf(fits and not(failed) and finite, "a run computes the requested solution",
          agreeK(v[4], v[6], if (rough(s)) 14 else 20)))
    }
  }

  // the end: [returned, exit or raised], [runs, figures shown, words printed, arguments printed, profile printed, pictures], files
  pure def over(st: St, e: Ev, v: List[Vec]): List[Verdict] = {
    val r = st.req
    val files = range(1, e.s.length()).foldl(Set(), (f, i) => f.union(Set(e.s[i])))
    val fine = r.ok and not(st.wild)
    val draws = Set("plot", "animate", "plot-error-evolution").contains(r.command)
    List(chk("the number of runs is the requested one", st.k == -1 or st.wild))
      .concat(chkIf(fine, "a requested command comes to its end", e.s[0] == "returned"))
      .concat(chkIf(not(r.ok), "a malformed command line is refused", e.s[0] != "returned"))
      .concat(chkIf(not(r.ok), "a malformed command line computes nothing", st.ran == 0 and v[0][1] == 0 and files == Set()))
      .concat(chkIf(r.ok and r.flags.contains("hide"), "hidden figures are not shown", v[0][1] == 0))
      .concat(chkIf(fine and draws and st.ran > 0 and not(r.flags.contains("hide")), "figures are shown", v[0][1] > 0))
      .concat(chkIf(r.ok and r.command == "parameter-variation-test", "tests show no figures", v[0][1] == 0))
      .concat(chkIf(fine and (r.command == "help" or r.command == "print-network" or r.command == "eoc"), "the answer is printed", v[0][2] > 0))
      .concat(chkIf(fine, "arguments are printed on request only", (v[0][3] == 1) == r.flags.contains("args")))
      .concat(chkIf(fine, "a profile is printed on request only", (v[0][4] == 1) == r.flags.contains("profile")))
      .concat(chkIf(fine and (r.command != "plot" or st.ran > 0), "requested files are written", filesOf(r).subseteq(files)))
      .concat(chkIf(fine and r.command == "parameter-variation-test", "each problem has its picture", v[0][5] == picturesOf(r)))
      .concat(chkIf(fine and (r.command == "calculate" or r.command == "eoc" or r.command == "help" or r.command == "print-network"),
        "nothing else is written", files == Set()))
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } =
    if (e.k == "raised") { st: st, vs: [chk(e.s[0], false)] }
    else {
      val v = dec(e.d)
      if (e.k == "line") {
        val r = parse(tokens(e, v))
        val l = if (r.ok) runsOf(r) else []
        { st: { req: r, todo: l, k: if (l.length() > 0) 0 else -1, ran: 0, wild: false },
          vs: [chk("the grammar and the model agree on the line", r.ok == (v[4][0] == 1))] }
      }
      else if (e.k == "run") ranOne(st, e, v)
      else { st: st, vs: over(st, e, v) }
    }
}
