PARSE = '''#[allow(unused_imports)]
use crate::grammar::{build, Elem, Grammar, GrammarErrors, Prod, ProdElement, passes::PassContext};
#[allow(unused_imports)]
use crate::parsers::{earley, tree::{Node, TreeOwner, NodeContent}, Token};
#[allow(unused_imports)]
use crate::start_grammar::{wrap_grammar_with_start, StartGrammar};
#[allow(unused_imports)]
use crate::utils::Name;

// the productions in order: head, action, elements (upper case letters are nonterminals); the first head is the start
fn gram(ps: &[(char, u32, &str)]) -> Grammar<char, char, u32, ()> {
  let mut heads: Vec<char> = Vec::new();
  for p in ps { if !heads.contains(&p.0) { heads.push(p.0) } }
  build(ps[0].0, |gb| {
    for h in heads {
      gb.add_rule(h, |rb| {
        for p in ps.iter().filter(|p| p.0 == h) {
          rb.add_prod(p.1, (), |pb| {
            for c in p.2.chars() {
              if c.is_uppercase() { pb.add_nonterm(c); } else { pb.add_term(c); }
            }
          });
        }
      });
    }
  }).unwrap()
}

#[allow(dead_code)]
fn accepts(ps: &[(char, u32, &str)], text: &str) -> bool {
  let g = wrap_grammar_with_start(gram(ps)).unwrap();
  let owner = TreeOwner::new();
  let r = earley::parse(&g, &owner.handle(), text.chars().map(|c| Token::new(c, ())).collect()).is_some();
  r
}
'''
SEEDS = [
dict(id='item-origin-order', prop='C01', file='parsers/earley.rs',
 edits=[('parsers/earley/state.rs', '''  >,
  origin_index: usize,
}
''', '''  >,
  #[derivative(PartialEq = "ignore", PartialOrd = "ignore", Ord = "ignore")]
  origin_index: usize,
}
''')],
 needs='two items of one set that differ only in where they started',
 breaks='items that differ only in their origin are merged, so sentences are lost',
 demo=PARSE+'''
#[test]
fn zz_demo() {
  // right recursion leaves completed items of several origins in the last set
  let ps = [('S', 1, "aS"), ('S', 2, "a"), ('S', 3, "bSc")];
  assert!(accepts(&ps, "a"));
  assert!(accepts(&ps, "aaaa"));
  assert!(accepts(&ps, "abaac"));
  assert!(accepts(&[('S', 1, "SS"), ('S', 2, "a")], "aaaa"));
}
'''),
dict(id='prodelem-eq-identifier', prop='C02', file='grammar.rs',
 edits=[('grammar/base.rs', '''#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct ProdElement<T, NT> {
  identifier: Option<Name>,
  element: Elem<T, NT>,
}
''', '''#[derive(Clone, Eq, PartialOrd, Ord)]
pub struct ProdElement<T, NT> {
  identifier: Option<Name>,
  element: Elem<T, NT>,
}

impl<T: PartialEq, NT: PartialEq> PartialEq for ProdElement<T, NT> {
  fn eq(&self, other: &Self) -> bool {
    match (&self.identifier, &other.identifier) {
      (Some(a), Some(b)) if a != b => false,
      _ => self.element == other.element,
    }
  }
}
''')],
 needs='comparing an element that has an identifier with the same element without one',
 breaks='the two are reported equal although their ordering tells them apart',
 demo=PARSE+'''
#[test]
fn zz_demo() {
  let a: ProdElement<u8, u8> = ProdElement::new(Some(Name::new("x")), Elem::Term(1));
  let b: ProdElement<u8, u8> = ProdElement::new_empty(Elem::Term(1));
  let c: ProdElement<u8, u8> = ProdElement::new(Some(Name::new("y")), Elem::Term(1));
  assert_eq!(a == b, a.cmp(&b) == std::cmp::Ordering::Equal);
  assert!(a != b && b != c && a != c && a == a.clone());
}
'''),
dict(id='close-bounded-rounds', prop='C03', file='parsers/earley.rs',
 edits=[('parsers/earley.rs', '''  change_loop(|| {
    let closure''', '''  let mut rounds = 0usize;
  change_loop(|| {
    rounds += 1;
    if rounds > 4 * (prev_states.len() + 8) {
      return crate::utils::WasChanged::Unchanged;
    }
    let closure''')],
 needs='a chain of more than 32 predictions at the start of the input',
 breaks='closing an item set stops before nothing new arises, so sentences of deep grammars are rejected',
 demo=PARSE+'''
#[test]
fn zz_demo() {
  let mut ps: Vec<(char, u32, String)> = Vec::new();
  let nts: Vec<char> = ('A'..='Z').chain('\\u{c0}'..='\\u{d6}').collect();
  for w in nts.windows(2) { ps.push((w[0], 1, w[1].to_string())); }
  ps.push((*nts.last().unwrap(), 2, "x".to_string()));
  let ps: Vec<(char, u32, &str)> = ps.iter().map(|p| (p.0, p.1, p.2.as_str())).collect();
  assert!(accepts(&ps, "x"));
  assert!(!accepts(&ps, "xx"));
}
'''),
dict(id='insert-first-two', prop='C04', file='parsers/earley.rs',
 edits=[('parsers/earley/state.rs', 'existing_nodes.iter_mut().zip(new_nodes),', 'existing_nodes.iter_mut().zip(new_nodes).take(2),')],
 needs='an ambiguity confined to the third or a later element of a production',
 breaks='the alternatives of that element are dropped',
 demo=PARSE+'''
fn alts_of(n: &Node<char, u32, ()>, path: &[usize]) -> usize {
  if path.is_empty() { return n.alts().count(); }
  let a = n.alts().next().unwrap();
  let r = match a.content() {
    NodeContent::Branch(b) => alts_of(&b.nodes().nth(path[0]).unwrap(), &path[1..]),
    NodeContent::Leaf(_) => 0,
  };
  r
}
#[test]
fn zz_demo() {
  let ps = [('S', 1, "abX"), ('X', 2, "c"), ('X', 3, "Y"), ('Y', 4, "c")];
  let g = wrap_grammar_with_start(gram(&ps)).unwrap();
  let owner = TreeOwner::new();
  let n = earley::parse(&g, &owner.handle(), "abc".chars().map(|c| Token::new(c, ())).collect()).unwrap();
  assert_eq!(alts_of(&n, &[]), 1);
  assert_eq!(alts_of(&n, &[2]), 2);
}
'''),
dict(id='cursor-byte-index', prop='C05', file='state.rs',
 edits=[('state.rs', 'self.prod.prod_elements().get(self.index + i)', 'self.prod.prod_elements().get(self.index.wrapping_add(i) & 0xff)')],
 needs='a production of more than 256 elements',
 breaks='the element after position 255 is the first one again',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let long: String = std::iter::repeat('a').take(256).chain("bc".chars()).collect();
  let g = gram(&[('S', 1, &long)]);
  let mut st = ProdState::from_start(g.prods().next().unwrap());
  let mut seen = String::new();
  while let Some((e, n)) = st.next_elem_state() {
    if let Elem::Term(c) = e.elem() { seen.push(*c); }
    if seen.len() > 300 { break; }
    st = n;
  }
  assert_eq!(seen, long);
  assert!(st.is_complete());
}
'''),
dict(id='nullable-missing-child', prop='C06', file='grammar/passes/nullable/nullables.rs',
 edits=[('grammar/passes/nullable/nullables.rs', "            None => continue 'outer,", "            None if prod.num_elements() == 1 => continue 'outer,\n            None => None,")],
 needs='a nullable production of several elements that names a nullable nonterminal sorted after its head',
 breaks='the null derivation of that element is missing',
 demo='''use super::*;
use crate::grammar::build;
use crate::utils::Name;
#[test]
fn zz_demo() {
  let g: Grammar<char, char, u32, ()> = build('A', |gb| {
    gb.add_rule('A', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_named_nonterm("x", 'B').add_named_nonterm("y", 'B'); }); })
      .add_rule('B', |rb| { rb.add_prod(2u32, (), |_| {}); });
  }).unwrap();
  let n = calculate_nullables(&g).unwrap();
  let b = n.get_nullable_action(&'B').unwrap().clone();
  let mut m = BTreeMap::new();
  m.insert(Name::new("x"), TreeValue::Node(Box::new(b.clone())));
  m.insert(Name::new("y"), TreeValue::Node(Box::new(b)));
  let key = g.get_rule(&'A').prods().next().unwrap().prod_key();
  let want: TreeNode<ProdKey<char, u32>, Void> = TreeNode::new(key, m);
  assert!(n.get_nullable_action(&'A').unwrap() == &want);
}
'''),
dict(id='firsts-left-recursion', prop='C07', file='grammar/passes/firsts.rs',
 edits=[('grammar/passes/firsts.rs', 'if !nullables.is_nullable(nt) {', 'if !nullables.is_nullable(nt) || prod.head() == nt {')],
 needs='a left-recursive nonterminal that can be empty',
 breaks='the terminal after the left-recursive element is missing from the first set',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "Sa"), ('S', 2, "")]);
  let c = PassContext::new(&g);
  let f = c.get_pass::<Firsts<char, char>>().unwrap();
  assert_eq!(f.get(&'S').map(|s| s.iter().cloned().collect::<String>()), Some("a".to_string()));
}
'''),
dict(id='follows-unit-prods', prop='C08', file='grammar/passes/follows.rs',
 edits=[('grammar/passes/follows.rs', 'change_iter(gram.prods(), |prod| {', 'change_iter(gram.prods().filter(|p| p.num_elements() > 1), |prod| {')],
 needs='a production with a single nonterminal element',
 breaks='what follows the head of a unit production is not propagated',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "Ab"), ('A', 2, "B"), ('B', 3, "c")]);
  let c = PassContext::new(&g);
  let f = c.get_pass::<Follows<char, char>>().unwrap();
  assert_eq!(f.0.get(&'A').map(|s| s.iter().cloned().collect::<String>()), Some("b".to_string()));
  assert_eq!(f.0.get(&'B').map(|s| s.iter().cloned().collect::<String>()), Some("b".to_string()));
}
'''),
dict(id='pass-key-error-type', prop='C09', file='grammar/passes/mod.rs',
 edits=[('grammar/passes/mod.rs', 'let pass_type = TypeId::of::<P>();', 'let pass_type = TypeId::of::<(P::Error, Result<(), P::Error>)>();')],
 needs='two passes with the same error type in one context',
 breaks='the second pass is answered with the first one\'s result',
 demo=PARSE+'''
use super::*;
#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("never") } }
impl std::error::Error for Never {}
struct A(u32);
struct B(u32);
impl<T: 'static, NT: 'static, AK: 'static, AV> Pass<T, NT, AK, AV> for A { type Error = Never; fn run_pass(_: &PassContext<T, NT, AK, AV>) -> Result<Self, Never> { Ok(A(1)) } }
impl<T: 'static, NT: 'static, AK: 'static, AV> Pass<T, NT, AK, AV> for B { type Error = Never; fn run_pass(p: &PassContext<T, NT, AK, AV>) -> Result<Self, Never> { Ok(B(p.get_pass::<A>()?.0 + 1)) } }
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "a")]);
  let c = PassContext::new(&g);
  assert_eq!(c.get_pass::<B>().unwrap().0, 2);
  assert_eq!(c.get_pass::<A>().unwrap().0, 1);
}
'''),
dict(id='builder-name-trim', prop='C10', file='grammar/base/builder.rs',
 edits=[('grammar/base/builder.rs', '    Name::new(self)\n', "    Name::new(self.trim_end_matches('_'))\n")],
 needs='an identifier given as a text that ends with an underscore',
 breaks='the identifier loses its trailing underscores',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let g: Grammar<char, char, u32, ()> = build('S', |gb| { gb.add_rule('S', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_named_term("type_", 'a').add_named_term("type", 'b'); }); }); }).unwrap();
  let p = g.prods().next().unwrap();
  let ids: Vec<String> = p.prod_elements().iter().map(|e| e.id().unwrap().str().to_string()).collect();
  assert_eq!(ids, vec!["type_", "type"]);
}
'''),
dict(id='grammar-errors-result', prop='C11', file='grammar.rs',
 edits=[('grammar/base.rs', '''      && self.rules_without_prods.is_empty()
''', '''      && self.rules_without_prods.is_subset(&self.unreachable_nonterms)
''')],
 needs='a reachable rule without productions in an otherwise well-formed grammar',
 breaks='nothing: see the second edit' , demo=''),
]
SEEDS.pop()
SEEDS += [
dict(id='grammar-errors-result', prop='C11', file='grammar.rs',
 edits=[('grammar/base.rs', '''      && self.nonterms_without_rules.is_empty()
      && self.rules_without_prods.is_empty()
''', '''      && self.rules_without_prods.len() == self.nonterms_without_rules.len()
''')],
 needs='a grammar with one nonterminal that has no rule and one reachable rule without productions',
 breaks='the ill-formed grammar is built without an error',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let g: Result<Grammar<char, char, u32, ()>, _> = build('S', |gb| {
    gb.add_rule('S', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_nonterm('A').add_nonterm('B'); }); })
      .add_rule('A', |_| {});
  });
  assert!(g.is_err());
  let g: Result<Grammar<char, char, u32, ()>, _> = build('S', |gb| {
    gb.add_rule('S', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_nonterm('A'); }); })
      .add_rule('A', |rb| { rb.add_prod(2u32, (), |_| {}); });
  });
  assert!(g.is_ok());
}
'''),
dict(id='wrap-start-identifier', prop='C12', file='start_grammar.rs',
 edits=[('start_grammar.rs', '                  e.id().cloned(),\n', '                  e.id().filter(|id| id.str() != "start").cloned(),\n')],
 needs='a user production with an element named "start"',
 breaks='the identifier of that element is lost when the grammar is wrapped',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g: Grammar<char, char, u32, ()> = build('S', |gb| { gb.add_rule('S', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_named_term("start", 'a').add_named_term("end", 'b'); }); }); }).unwrap();
  let w = wrap_grammar_with_start(g).unwrap();
  let r = w.get_rule(&StartNonTerminal::NTerm('S'));
  let p = r.prods().next().unwrap();
  let ids: Vec<Option<String>> = p.prod_elements().iter().map(|e| e.id().map(|n| n.str().to_string())).collect();
  assert_eq!(ids, vec![Some("start".to_string()), Some("end".to_string())]);
}
'''),
dict(id='nonnull-expansion-cap', prop='C13', file='grammar/transform/nonnull.rs',
 edits=[('grammar/transform/nonnull.rs', '''            curr_build_states.append(&mut new_build_states);
''', '''            if curr_build_states.len() < 8 {
              curr_build_states.append(&mut new_build_states);
            }
''')],
 needs='a production with four or more nullable nonterminals',
 breaks='the choices that drop the fourth nullable nonterminal are missing',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "AAAAa"), ('A', 2, ""), ('A', 3, "b")]);
  let n = transform_to_nonnull(&g).unwrap();
  assert_eq!(n.get_rule(&'S').prods().count(), 16);
  let g = gram(&[('S', 1, "AAa"), ('A', 2, ""), ('A', 3, "b")]);
  assert_eq!(transform_to_nonnull(&g).unwrap().get_rule(&'S').prods().count(), 4);
}
'''),
dict(id='add-all-reader', prop='C14', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '      let other_data = inner.get_node(other.index).clone();\n      change_iter(other_data.alternatives.iter(), |other_alt| {\n        inner.add_node_alt(self.index, *other_alt)\n      })',
  '''      let other_data = inner.get_node(other.index).clone();
      if self.index == other.index && self.alts().next().is_some() {
        return WasChanged::Unchanged;
      }
      change_iter(other_data.alternatives.iter(), |other_alt| {
        inner.add_node_alt(self.index, *other_alt)
      })''')],
 needs='merging a node into itself',
 breaks='the read lock is requested while the write lock is held: the call never returns',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || {
    let owner: TreeOwner<u8, u8, u8> = TreeOwner::new();
    let n = owner.handle().make_leaf_node(1, 2);
    let c = n.add_all(&n) == WasChanged::Unchanged;
    let _ = tx.send(c);
  });
  assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
}
'''),
dict(id='altset-hint', prop='C15', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '    match self.value_to_id.get(&content) {\n      Some(index) => *index,', '''    let found = match self.id_to_value.last() {
      Some(last) if matches!((&**last, &content), (NodeContentInner::Branch(a), NodeContentInner::Branch(b)) if a.nodes == b.nodes && !a.nodes.is_empty()) => Some(self.id_to_value.len() - 1),
      _ => self.value_to_id.get(&content).copied(),
    };
    match found {
      Some(index) => index,''')],
 needs='two branches made directly after each other with the same children and different actions',
 breaks='the second one is the first alternative again: different contents give the same alternative',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let owner: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = owner.handle();
  let l = h.make_leaf_node(1, 2);
  let a = h.make_branch_alt(1, vec![l.clone()]);
  let b = h.make_branch_alt(2, vec![l.clone()]);
  assert!(a != b);
  assert!(h.make_branch_alt(1, vec![l]) == a);
}
'''),
dict(id='add-all-same-check', prop='C16', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '    assert!(self.inner.is_same(&other.inner));\n\n    self.inner.with_mut', '    assert!(self.inner.is_same(&self.handle()));\n\n    self.inner.with_mut')],
 needs='merging a node of another tree whose index is in range',
 breaks='alternatives that belong to another tree are added',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let r = std::panic::catch_unwind(|| {
    let o1: TreeOwner<u8, u8, u8> = TreeOwner::new();
    let o2: TreeOwner<u8, u8, u8> = TreeOwner::new();
    let a = o1.handle().make_leaf_node(1, 2);
    let b = o2.handle().make_leaf_node(3, 4);
    a.add_all(&b);
  });
  assert!(r.is_err());
  let o1: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let (a, b) = (o1.handle().make_leaf_node(1, 2), o1.handle().make_leaf_node(3, 4));
  assert_eq!(a.add_all(&b), WasChanged::Changed);
}
'''),
dict(id='dot-cyclic-root', prop='C17', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''        if let NodeContentInner::Branch(branch_data) = i.get_alt(alt_id) {
          branch_data
            .nodes
            .iter()
            .copied()
''', '''        if let NodeContentInner::Branch(branch_data) = i.get_alt(alt_id) {
          branch_data
            .nodes
            .iter()
            .copied()
            .filter(|node_id| *node_id != self.root_node)
''')],
 needs='a forest with a cycle through the node that is rendered',
 breaks='the edges back to the rendered node are missing',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let o: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = o.handle();
  let n = h.make_leaf_node(1, 2);
  n.add_alt(&h.make_branch_alt(7, vec![n.clone()]));
  let d = n.to_dot();
  assert!(d.contains("a1 -> n0"), "{}", d);
  assert!(d.contains("n0 -> a1"), "{}", d);
}
'''),
dict(id='stream-length-cap', prop='C20', file='parsers/mod.rs',
 edits=[('parsers/mod.rs', 'tokens: Arc::new(collection.into_iter().collect()),', 'tokens: Arc::new(\n        collection\n          .into_iter()\n          .take(usize::from(u16::max_value()))\n          .collect(),\n      ),')],
 needs='more than 65535 tokens',
 breaks='the tokens after the 65535th are dropped',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mut s: VecTokenStream<usize, ()> = VecTokenStream::from_into_iter((0..70000usize).map(|i| Token::new(i, ())));
  let mut n = 0;
  while let Some((t, next)) = s.next() {
    assert_eq!(t.kind, n);
    n += 1;
    s = next;
  }
  assert_eq!(n, 70000);
}
'''),
dict(id='typemap-merge-keeps', prop='C21', file='utils/type_map.rs',
 edits=[('utils/type_map.rs', '    self.0.append(&mut other.0);', '    for (key, value) in std::mem::take(&mut other.0) {\n      self.0.entry(key).or_insert(value);\n    }')],
 needs='merging two maps that hold the same key',
 breaks='the old value is kept instead of being replaced',
 demo='''use super::*;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K(u8);
impl TypeKey for K { type ValueType = u32; }
#[test]
fn zz_demo() {
  let (mut a, mut b) = (TypeMap::new(), TypeMap::new());
  a.insert(K(1), 1); a.insert(K(2), 2); b.insert(K(2), 3); b.insert(K(4), 4);
  a.merge(&mut b);
  assert_eq!((a.get(&K(1)), a.get(&K(2)), a.get(&K(4))), (Some(&1), Some(&3), Some(&4)));
  assert_eq!(b.get(&K(2)), None);
}
'''),
dict(id='change-iter-short', prop='C22', file='utils.rs',
 edits=[('utils.rs', '    changed = changed.join(func(item));', '    if let WasChanged::Unchanged = changed {\n      changed = func(item);\n    }')],
 needs='items after the first one that reports a change',
 breaks='the items after the first change are not visited',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mut seen = Vec::new();
  let c = change_iter(vec![1, 2, 3], |i| { seen.push(i); WasChanged::from_changed(i == 2) });
  assert_eq!((seen, c), (vec![1, 2, 3], WasChanged::Changed));
}
'''),
dict(id='fixed-point-same-round', prop='C23', file='utils.rs',
 edits=[('utils.rs', 'if matches!(proc.merge(occ.get_mut(), next_v), WasChanged::Changed)\n            {', 'if matches!(proc.merge(occ.get_mut(), next_v), WasChanged::Changed)\n              && !(currs.contains(occ.key()) && occ.key() < curr)\n            {')],
 needs='a key whose value changes again after it was processed in the same round',
 breaks='the changed value is never processed',
 demo='''use super::*;
struct P;
impl FixedPointProcessor<u8, BTreeSet<u8>> for P {
  fn next(&self, key: &u8, value: &BTreeSet<u8>) -> Vec<(u8, BTreeSet<u8>)> {
    // 3 feeds 1, 1 feeds 2
    match key { 3 => vec![(1, value.clone())], 1 => vec![(2, value.clone())], _ => vec![] }
  }
  fn merge(&self, target: &mut BTreeSet<u8>, other: BTreeSet<u8>) -> WasChanged {
    change_iter(other, |o| WasChanged::from_changed(target.insert(o)))
  }
}
#[test]
fn zz_demo() {
  let mut m = BTreeMap::new();
  for k in 1..4u8 { m.insert(k, std::iter::once(k).collect::<BTreeSet<u8>>()); }
  apply_fixed_point(&P, &mut m);
  assert_eq!(m[&1].iter().cloned().collect::<Vec<_>>(), vec![1, 3]);
  assert_eq!(m[&2].iter().cloned().collect::<Vec<_>>(), vec![1, 2, 3]);
}
'''),
dict(id='parent-order-answer', prop='C24', file='grammar/base.rs',
 edits=[('grammar/base/cmp_wrappers.rs', '''    assert!(ref_eq(self.0, other.0));
    cmp::Ordering::Equal''', '''    ref_cmp(self.0, other.0)''')],
 needs='ordering rules of two different grammars',
 breaks='an answer is given instead of a panic',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mk = || -> Grammar<char, char, u32, ()> { builder::build('S', |gb| { gb.add_rule('S', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_term('a'); }); }); }).unwrap() };
  let (g1, g2) = (mk(), mk());
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let (a, b) = (g1.get_rule(&'S'), g2.get_rule(&'S')); let _ = a.cmp(&b); }));
  assert!(r.is_err());
  let (a, b) = (g1.get_rule(&'S'), g1.get_rule(&'S'));
  assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal);
}
'''),
dict(id='global-node-budget', prop='C25', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''  pub fn make_leaf_node(&self, kind: T, value: V) -> Node<'a, T, AK, V> {
    let node = self.make_node();
''', '''  pub fn make_leaf_node(&self, kind: T, value: V) -> Node<'a, T, AK, V> {
    let mut node = self.make_node();
    if LEAVES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 99 {
      node = self.make_node();
    }
'''), ('parsers/tree.rs', '#[derive(Clone)]\nstruct NodeData {', 'static LEAVES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n#[derive(Clone)]\nstruct NodeData {')],
 needs='the hundredth leaf made in the process, in whatever tree',
 breaks='the numbering of the nodes depends on what other trees did before',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mut first = None;
  for _ in 0..70 {
    let o: TreeOwner<u8, u8, u8> = TreeOwner::new();
    let h = o.handle();
    let n = h.make_branch_node(1, vec![h.make_leaf_node(1, 1), h.make_leaf_node(1, 2)]);
    let d = n.to_dot();
    assert_eq!(first.get_or_insert(d.clone()), &d);
  }
}
'''),
dict(id='pretty-last-prod', prop='C26', file='grammar.rs',
 edits=[('grammar/base.rs', '''        self.prods.iter().map(|prod| prod.to_doc(da)),
''', '''        self
          .prods
          .iter()
          .enumerate()
          .filter(|(i, prod)| *i == 0 || !prod.elements.is_empty())
          .map(|(_, prod)| prod.to_doc(da)),
''')],
 needs='an empty production that is not the first one of its rule',
 breaks='the empty production is not printed',
 demo='''use super::*;
use crate::utils::Name;
#[test]
fn zz_demo() {
  let (s, a) = (NonTerminal::new("s"), Terminal::new("A"));
  let g: Grammar<Terminal, NonTerminal, Name, ()> = build(&s, |gb| { gb.add_rule(&s, |rb| { rb.add_prod("one", (), |pb| { pb.add_term(&a); }).add_prod("none", (), |_| {}); }); }).unwrap();
  let t = g.to_pretty();
  assert!(t.contains("\\u{3b5}"), "{}", t);
}
'''),
dict(id='key-set-change-report', prop='C28', file='grammar/passes/firsts.rs',
 edits=[('utils.rs', '''      change_iter(src_set.iter(), |src_value| {
        WasChanged::from_changed(value.insert(src_value.clone()))
      })
''', '''      let found = value.len();
      value.extend(src_set.iter().cloned());
      WasChanged::from_changed(found == 0 || value.len() != src_set.len())
''')],
 needs='a nonterminal whose first set is larger than that of a nonterminal it begins with',
 breaks='a change is reported although nothing was added, so computing first sets never ends',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || {
    let g = gram(&[('S', 1, "A"), ('S', 2, "b"), ('A', 3, "a")]);
    let c = PassContext::new(&g);
    let f = c.get_pass::<Firsts<char, char>>().unwrap();
    let _ = tx.send(f.get(&'S').unwrap().len());
  });
  assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(2));
}
'''),
]
