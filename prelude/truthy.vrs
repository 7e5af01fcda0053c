// -------------------------------------------------- meaning of the truthiness test
/// JavaScript values, as far as the test looks at them
pub enum V { B(bool), Obj(int) }
pub uninterp spec fn o_truthy(v: int) -> bool;
pub uninterp spec fn o_is_array(v: int) -> bool;
pub uninterp spec fn o_get(v: V, name: Seq<char>) -> V;
pub uninterp spec fn o_proto(v: V) -> V;
pub uninterp spec fn o_values(v: V) -> V;
pub uninterp spec fn o_global(name: Seq<char>) -> V;
pub open spec fn truthy(v: V) -> bool { match v { V::B(b) => b, V::Obj(i) => o_truthy(i) } }
pub open spec fn is_array(v: V) -> bool { match v { V::B(_) => false, V::Obj(i) => o_is_array(i) } }
/// the value of a test expression when `place` holds `v`; None: outside the fragment (or may have an effect)
pub open spec fn ev(j: J, place: J, v: V) -> Option<V> decreases j {
  if j == place { Some(v) } else {
    match j {
      J::L(K::Id(n, _)) => Some(o_global(n)),
      J::L(K::Bool(b)) => Some(V::B(b)),
      J::N(K::Mem(n), c) => if c.len() == 1 { match ev(c[0], place, v) { Some(o) => Some(o_get(o, n)), None => None } } else { None },
      J::N(K::Un(op), c) => if c.len() == 1 && op == UnaryOp::Bang { match ev(c[0], place, v) { Some(x) => Some(V::B(!truthy(x))), None => None } } else { None },
      J::N(K::Bin(op), c) => if c.len() == 2 {
        match op {
          BinaryOp::LogicalAnd => match ev(c[0], place, v) { Some(x) => if truthy(x) { ev(c[1], place, v) } else { Some(x) }, None => None },
          BinaryOp::LogicalOr => match ev(c[0], place, v) { Some(x) => if truthy(x) { Some(x) } else { ev(c[1], place, v) }, None => None },
          BinaryOp::NotEqEq => match (ev(c[0], place, v), ev(c[1], place, v)) { (Some(x), Some(y)) => Some(V::B(x != y)), _ => None },
          BinaryOp::EqEqEq => match (ev(c[0], place, v), ev(c[1], place, v)) { (Some(x), Some(y)) => Some(V::B(x == y)), _ => None },
          _ => None,
        }
      } else { None },
      J::N(K::Call, c) => if c.len() == 2 {
        match ev(c[1], place, v) {
          Some(x) => if c[0] == gfn("Array"@, "isArray"@) { Some(V::B(is_array(x))) } else if c[0] == gfn("Object"@, "getPrototypeOf"@) { Some(o_proto(x)) } else if c[0] == gfn("Object"@, "values"@) { Some(o_values(x)) } else { None },
          None => None,
        }
      } else { None },
      _ => None,
    }
  }
}
/// `Array.isArray`, ...
pub open spec fn gfn(o: Seq<char>, f: Seq<char>) -> J { mem(J::L(K::Id(o, no_ctxt())), f) }
/// what istanbul counts as a truthy value: truthy, and neither an empty array nor an empty plain object
pub open spec fn counts_as_truthy(v: V) -> bool {
  truthy(v) && (is_array(v) ==> truthy(o_get(v, "length"@))) && (o_proto(v) == o_get(o_global("Object"@), "prototype"@) ==> truthy(o_get(o_values(v), "length"@)))
}
pub open spec fn tests_truthy(t: J, place: J) -> bool { forall|v: V| (#[trigger] ev(t, place, v)) is Some && truthy(ev(t, place, v)->0) == counts_as_truthy(v) }
/// evaluate `e` once into `place`, count if the value counts as truthy, yield the value
pub open spec fn is_truthy_count(j: J, place: J, cnt: J, e: J) -> bool {
  match j {
    J::N(K::Seq, c) => c.len() == 3 && c[0] == J::N(K::Assign, seq![place, e]) && c[2] == place && match c[1] {
      J::N(K::Cond, d) => d.len() == 3 && tests_truthy(d[0], place) && is_inc(d[1], cnt) && d[2] == J::L(K::Null),
      J::N(K::Bin(op), d) => op == BinaryOp::LogicalAnd && d.len() == 2 && tests_truthy(d[0], place) && is_inc(d[1], cnt),
      _ => false,
    },
    _ => false,
  }
}

pub open spec fn ev1(k: K, c: Seq<J>, place: J, v: V) -> Option<V> {
  match k {
    K::Mem(n) => if c.len() == 1 { match ev(c[0], place, v) { Some(o) => Some(o_get(o, n)), None => None } } else { None },
    K::Un(op) => if c.len() == 1 && op == UnaryOp::Bang { match ev(c[0], place, v) { Some(x) => Some(V::B(!truthy(x))), None => None } } else { None },
    K::Bin(op) => if c.len() == 2 {
      match op {
        BinaryOp::LogicalAnd => match ev(c[0], place, v) { Some(x) => if truthy(x) { ev(c[1], place, v) } else { Some(x) }, None => None },
        BinaryOp::LogicalOr => match ev(c[0], place, v) { Some(x) => if truthy(x) { Some(x) } else { ev(c[1], place, v) }, None => None },
        BinaryOp::NotEqEq => match (ev(c[0], place, v), ev(c[1], place, v)) { (Some(x), Some(y)) => Some(V::B(x != y)), _ => None },
        BinaryOp::EqEqEq => match (ev(c[0], place, v), ev(c[1], place, v)) { (Some(x), Some(y)) => Some(V::B(x == y)), _ => None },
        _ => None,
      }
    } else { None },
    K::Call => if c.len() == 2 {
      match ev(c[1], place, v) {
        Some(x) => if c[0] == gfn("Array"@, "isArray"@) { Some(V::B(is_array(x))) } else if c[0] == gfn("Object"@, "getPrototypeOf"@) { Some(o_proto(x)) } else if c[0] == gfn("Object"@, "values"@) { Some(o_values(x)) } else { None },
        None => None,
      }
    } else { None },
    _ => None,
  }
}
pub broadcast proof fn ev_n(k: K, c: Seq<J>, place: J, v: V)
  ensures #[trigger] ev(J::N(k, c), place, v) == (if J::N(k, c) == place { Some(v) } else { ev1(k, c, place, v) }) {}
pub broadcast proof fn ev_id(n: Seq<char>, x: SyntaxContext, place: J, v: V)
  ensures J::L(K::Id(n, x)) != place ==> #[trigger] ev(J::L(K::Id(n, x)), place, v) == Some(o_global(n)) {}
pub proof fn lem_names()
  ensures gfn("Array"@, "isArray"@) != gfn("Object"@, "getPrototypeOf"@), gfn("Array"@, "isArray"@) != gfn("Object"@, "values"@), gfn("Object"@, "getPrototypeOf"@) != gfn("Object"@, "values"@),
{
  reveal_strlit("Array"); reveal_strlit("Object"); reveal_strlit("isArray"); reveal_strlit("getPrototypeOf"); reveal_strlit("values");
  assert("isArray"@.len() == 7 && "getPrototypeOf"@.len() == 14 && "values"@.len() == 6);
}
pub broadcast group truthy_views { ev_n, ev_id }
