// Commands which draw, one after the other in one process: figures are
// registered, the current one is drawn on, named ones are found again.
module model_pictures {
  import prelude.* from "./prelude"

  // marks: ten times the number of the command plus the number of the curve
  type Figure = { name: str, marks: Vec }
  var open: List[Figure]
  var saved: List[Figure] // of the last command
  var last: { kind: str, curves: int, wanted: bool }
  var count: int

  pure def marksOf(command: int, curves: int): Vec = mapi(curves, i => 10 * command + i)
  // draw on the figure of that name, or on a new one
  pure def draw(figures: List[Figure], name: str, marks: Vec): List[Figure] =
    if (figures.foldl(false, (ok, f) => ok or f.name == name))
      figures.foldl([], (o, f) => o.append(if (f.name == name) { ...f, marks: f.marks.concat(marks) } else f))
    else figures.append({ name: name, marks: marks })
  // draw on the current figure, i.e. the one used last
  pure def drawHere(figures: List[Figure], marks: Vec): List[Figure] =
    if (figures.length() == 0) [{ name: "", marks: marks }]
    else figures.replaceAt(figures.length() - 1, { ...figures[figures.length() - 1],
      marks: figures[figures.length() - 1].marks.concat(marks) })
  pure def fresh(figures: List[Figure], marks: Vec): List[Figure] = figures.append({ name: "", marks: marks })

  pure def drawn(kind: str, figures: List[Figure], marks: Vec): List[Figure] =
    if (kind == "scalar plot" or kind == "scalar animation" or kind == "swe animation") fresh(figures, marks)
    else if (kind == "swe plot")
      List("Height Plot", "Discharge Plot", "Velocity Plot").foldl(figures, (f, name) => draw(f, name, marks))
    else if (kind == "average error")
      List("Height L2-Error", "Discharge L2-Error").foldl(figures, (f, name) => draw(f, name, marks))
    else drawHere(figures, marks)

  action init = all { open' = [], saved' = [], last' = { kind: "none", curves: 0, wanted: false }, count' = 0 }
  action step = {
    nondet kind = Set("scalar plot", "swe plot", "scalar animation", "swe animation", "error evolution", "average error").oneOf()
    nondet curves = 1.to(3).oneOf()
    nondet wanted = Set(true, false).oneOf()
    val n = if (kind == "error evolution") 2 else if (kind == "average error") 1 else curves
    val d = drawn(kind, open, marksOf(count, n))
    all {
      saved' = d, // every figure which is drawn on gets saved
      open' = [], // shown pictures are closed by the user, hidden ones by the command
      last' = { kind: kind, curves: n, wanted: wanted },
      count' = count + 1,
    }
  }

  val pure_pictures = saved.foldl(true, (ok, f) => ok and vevery(f.marks, m => m / 10 == count - 1))
  val complete = saved.foldl(true, (ok, f) => ok and f.marks.length() == last.curves)
  val closed = open.length() == 0
  val inv = pure_pictures and complete and closed
}
