// C15: generated training data.
module C15 {
  import prelude.* from "./prelude"
  import swe.* from "./swe"
  import solution.* from "./solution"
  import training.* from "./training"

  // the files as far as they are known, the contents met so far, a recorded window
  type Content = { data: int, params: int }
  type St = { file: List[Piece], known: Piece -> Content, dataRows: Vec, paramRows: Vec, sol: Sol, look: Look }
  pure val NOLOOK: Look = { node: 1, radius: 1, deg: 1, reach: 1 }
  pure val ST0: St = { file: [], known: Map(), dataRows: [], paramRows: [],
    sol: { kept: true, deg: 1, cols: 2, time: 0, fine: [], times: [], shown: [] }, look: NOLOOK }

  pure def prefixOf(a: Vec, b: Vec): bool = a.length() <= b.length() and a == b.slice(0, a.length())
  pure def lookOf(v: Vec): Look = { node: v[0], radius: v[1], deg: v[2], reach: v[3] }
  pure def remembered(known: Piece -> Content, pieces: List[Piece], data: Vec, params: Vec): Piece -> Content =
    range(0, pieces.length()).foldl(known, (m, i) =>
      if (m.keys().contains(pieces[i])) m else m.put(pieces[i], { data: data[i], params: params[i] }))
  pure def consistent(known: Piece -> Content, pieces: List[Piece], data: Vec, params: Vec): bool = {
    val all_ = remembered(known, pieces, data, params)
    range(0, pieces.length()).foldl(true, (ok, i) => ok and all_.get(pieces[i]) == { data: data[i], params: params[i] })
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "order") {
      // [seed, number, overwrite], positions of header lines of both files,
      // rows of data, rows of parameters, solutions in data, rows of parameters (all as fingerprints)
      val o = { how: e.s[0], seed: v[0][0], number: v[0][1], overwrite: v[0][2] == 1 }
      val file = afterOrder(st.file, o)
      val whole = v[5].length() == file.length() and v[6].length() == file.length()
      { st: { ...st, file: file, dataRows: v[3], paramRows: v[4],
          known: if (whole) remembered(st.known, file, v[5], v[6]) else st.known },
        vs: List(
          chk("the data file holds one block per requested problem", v[5].length() == file.length()),
          chk("the parameter file holds one row per requested problem", v[6].length() == file.length()),
          chk("headers stand at the top of the files only", v[1] == List(0, 1) and v[2] == List(0, 1)),
          chk("the same seed, settings and solver give the same rows, few or many", not(whole) or consistent(st.known, file, v[5], v[6])))
          .concat(chkIf(not(o.overwrite), "appending keeps the existing rows", prefixOf(st.dataRows, v[3]) and prefixOf(st.paramRows, v[4]))) }
    }
    else if (e.k == "columns") // expected and found
      { st: st, vs: List(chk("the columns are the cells around the node and the flux at it", e.s[0] == e.s[1])) }
    else if (e.k == "solution") {
      // node radius deg reach, [g, fine dx, coarse dx, gamma, start, end], times, first fine cell, rows of the file; states around the node
      val k = lookOf(v[0])
      val m = v[2].length()
      val width = 4 * k.radius + 3
      val s = { name: e.s[0], sub: e.s[1], g: v[1][0], dx: v[1][1], dt: 0, gamma: v[1][3] }
      val c = { ...s, dx: v[1][2] }
      val rows = v.slice(4 + m, v.length())
      val shape = rows.length() == m and rows.foldl(true, (ok, r) => ok and r.length() == width)
      // the states start at fine cell v[3][0]
      val n = { ...k, node: k.node }
      def window(i: int): Vec = fill(2 * v[3][0], 0).concat(v[4 + i])
      { st: st, vs: List(
        chk("one row per time level", shape),
        chk("the rows are the time levels from start to end", v[2][0] == v[1][4] and near(v[2][m - 1], v[1][5], tolAt(v[1][5], 40))
          and (not(shape) or mapi(m, i => rows[i][0]) == v[2])),
        chk("the rows show the coarsened states around the node", not(shape) or each(m, i =>
          agreeK(coarseWindow(n, window(i)), rows[i].slice(1, width - 2), 44))),
        chk("the rows show the difference of the fine and the coarse flux", not(shape) or each(m, i => {
          val f = subgridFlux(s, c, n, window(i))
          val t = tolAt(maxabs(v[4 + i]) * 16, 30)
          near(f.h, rows[i][width - 2], t) and near(f.q, rows[i][width - 1], t) }))) }
    }
    else if (e.k == "whole") {
      // the same for a scheme that looks beyond the cells of the node: [node, radius, deg], [g, fine dx, coarse dx], [time levels];
      // whole states (periodic, flat bottom), rows of the file
      val s = { name: e.s[0], sub: e.s[1], g: v[1][0], dx: v[1][1], dt: 0, gamma: 0 }
      val m = v[2][0]
      val rows = v.slice(3 + m, v.length())
      val shape = rows.length() == m
      { st: st, vs: List(
        chk("one row per time level", shape),
        chk("the rows show the difference of the fine and the coarse flux", not(shape) or each(m, i => {
          val f = csub(fluxWithin(s, v[3 + i], v[0][0] * v[0][2]), fluxWithin({ ...s, dx: v[1][2] }, coarsen(v[3 + i], v[0][2], 2), v[0][0]))
          val t = tolAt(maxabs(v[3 + i]) * 16, 28)
          near(f.h, rows[i][rows[i].length() - 2], t) and near(f.q, rows[i][rows[i].length() - 1], t) }))) }
    }
    else if (e.k == "lesson") {
      // [skip, epochs, inputs], [lessons, times saved, epochs], [rows of the file]; these rows, inputs and targets learned
      val skip = v[0][0]
      val m = v[2][0]
      val kept = (m + skip - 1) / skip
      val ok = v.length() == 3 + m + 2 * kept
      // (single precision)
      def learned(row: Vec, x: Vec): bool = row.length() == x.length()
        and each(x.length(), j => near(row[j], x[j], tolAt(row[j], 22)))
      { st: st, vs: List(
        chk("training happens once, for the requested epochs, and is saved", v[1] == List(1, 1, v[0][1])),
        chk("every skip-th row is learned", ok),
        chk("the network learns the fluxes from the states of the rows", not(ok) or every(kept, i =>
          learned(v[3 + i * skip].slice(1, 1 + v[0][2]), v[3 + m + i])
            and learned(v[3 + i * skip].slice(1 + v[0][2], 3 + v[0][2]), v[3 + m + kept + i])))) }
    }
    else if (e.k == "parameters") // the problem's, the file's
      { st: st, vs: List(chk("the parameter rows describe the problems", v[0] == v[1])) }
    else if (e.k == "same")
      { st: st, vs: List(chk(e.s[0], v[0] == v[1])) }
    else if (e.k == "new") {
      // node radius deg reach, [time], values
      val sol = newSolution(true, 1, 2, v[2], v[1][0])
      { st: { ...st, sol: sol, look: lookOf(v[0]) }, vs: [] }
    }
    else if (e.k == "update" or e.k == "set")
      { st: { ...st, sol: if (e.k == "update") update(st.sol, v[1], v[0][0]) else setValue(st.sol, v[1], v[0][0]) }, vs: [] }
    else if (e.k == "windows") {
      // times, value, coarse windows, fine windows (all in one row), steps
      val t = st.sol.times
      { st: st, vs: List(
        chk("times of the recorded windows", agreeTol(t, v[0], tolAt(maxabs(t), 44))),
        chk("value of the recorded solution", v[1] == st.sol.fine),
        chk("recorded coarse windows", agreeK(st.sol.shown.foldl([], (a, u) => a.concat(coarseWindow(st.look, u))), v[2], 44)),
        chk("recorded fine windows", st.sol.shown.foldl([], (a, u) => a.concat(fineWindow(st.look, u))) == v[3]),
        chk("recorded time steps", agreeTol(stepsOf(v[0]), v[4], tolAt(maxabs(t), 44)))) }
    }
    else { st: st, vs: List(chk(e.s[0], false)) }
  }
}
