// Sequences of data generating runs into one directory.
module model_data {
  import prelude.* from "./prelude"
  import training.* from "./training"

  var file: List[Piece]
  var orders: List[Order]

  action init = {
    nondet seed = 1.to(3).oneOf()
    nondet number = 1.to(3).oneOf()
    nondet how = Set("a", "b").oneOf()
    val o = { how: how, seed: seed, number: number, overwrite: true }
    all { file' = afterOrder([], o), orders' = [o] }
  }
  action step = {
    nondet seed = 1.to(3).oneOf()
    nondet number = 1.to(3).oneOf()
    nondet how = Set("a", "b").oneOf()
    nondet overwrite = Set(true, false, false).oneOf()
    val o = { how: how, seed: seed, number: number, overwrite: overwrite }
    all { file' = afterOrder(file, o), orders' = orders.append(o) }
  }

  val last = orders[orders.length() - 1]
  // the orders since the last overwriting one account for everything in the file
  val since = range(0, orders.length()).foldl(0, (a, i) => if (orders[i].overwrite) i else a)
  val complete = file.length() == range(since, orders.length()).foldl(0, (a, i) => a + orders[i].number)
  val ends = range(0, last.number).foldl(true, (ok, j) =>
    ok and file[file.length() - last.number + j] == { how: last.how, seed: last.seed, k: j })
  val inv = complete and ends and (last.overwrite implies file.length() == last.number)
}
