// drawing in an area: rows of cells, each one after a move to the start of the row
verus! {
// from a to b, for each row of rows: a move to (left, top + its index) and these cells
pub open spec fn drew(a: Seq<Out>, b: Seq<Out>, left: int, top: int, rows: Seq<Seq<Cell>>) -> bool decreases rows.len() {
    if rows.len() == 0 { b == a } else {
        exists|m: Seq<Out>| drew(a, m, left, top, rows.drop_last()) && #[trigger] wrote(m.push(Out::Move(left, top + rows.len() - 1)), b, rows.last())
    }
}
pub proof fn drew_row(a: Seq<Out>, m: Seq<Out>, b: Seq<Out>, left: int, top: int, rows: Seq<Seq<Cell>>, row: Seq<Cell>)
    requires drew(a, m, left, top, rows), wrote(m.push(Out::Move(left, top + rows.len())), b, row),
    ensures drew(a, b, left, top, rows.push(row)),
{
    assert(rows.push(row).drop_last() =~= rows);
    assert(drew(a, m, left, top, rows.push(row).drop_last()) && wrote(m.push(Out::Move(left, top + rows.push(row).len() - 1)), b, rows.push(row).last()));
}
}
