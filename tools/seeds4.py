exec(open('/verif/tools/seeds2.py').read().split('SEEDS =')[0])
DEMO_RELEASE = open('/verif/tools/mkseed.py').read().split("DEMO = '''")[1].split("'''")[0].replace('\\\\n', '\\n').replace('cargo test --offline', 'cargo test --release --offline').replace('@FILE@', 'parsers/tree.rs')
SEEDS = [
dict(id='prod-storage-identity', prop='C01', file='parsers/earley.rs',
 edits=[('grammar/base.rs', '    self.prod.cmp(&other.prod)\n', '    // The elements are owned by the production, so their storage identifies it.\n    self.prod.elements.as_ptr().cmp(&other.prod.elements.as_ptr())\n'),
        ('grammar/base.rs', '    self.prod == other.prod\n', '    self.prod.elements.as_ptr() == other.prod.elements.as_ptr()\n')],
 needs='two productions without elements: empty vectors all have the same address',
 breaks='items of different empty productions are taken for the same item',
 demo=PARSE+'''
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "AB"), ('A', 2, ""), ('B', 3, "")]);
  let es = g.prods().filter(|p| p.num_elements() == 0).collect::<Vec<_>>();
  assert_eq!(es.len(), 2);
  assert!(es[0] != es[1]);
}
'''),
dict(id='leaf-grammar-kind', prop='C04', file='parsers/earley.rs',
 edits=[('parsers/earley/state.rs', '''      .map(|(_, ps)| EarleyState {
        key: EarleyStateKey {
          prod_state: ps,
          origin_index: self.key.origin_index,
        },
        value: self.create_next_value(
          tree_handle
            .make_leaf_node(next_token.kind.clone(), next_token.value.clone()),
        ),
      })
''', '''      .and_then(|(t, ps)| match t {
        StreamTerminal::EndOfStream => None,
        StreamTerminal::Term(kind) => Some(EarleyState {
          key: EarleyStateKey {
            prod_state: ps,
            origin_index: self.key.origin_index,
          },
          value: self.create_next_value(
            tree_handle.make_leaf_node(kind.clone(), next_token.value.clone()),
          ),
        }),
      })
''')],
 needs='terminals that are equal without being identical (case-insensitive keywords, terminals with positions)',
 breaks="the leaf carries the grammar's terminal and not the token's kind",
 demo=PARSE+'''
#[derive(Clone, Debug)]
struct Kw(&'static str);
impl PartialEq for Kw { fn eq(&self, o: &Self) -> bool { self.0.eq_ignore_ascii_case(o.0) } }
impl Eq for Kw {}
impl PartialOrd for Kw { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Kw { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.to_lowercase().cmp(&o.0.to_lowercase()) } }
#[test]
fn zz_demo() {
  let g: Grammar<Kw, char, u32, ()> = build('S', |gb| { gb.add_rule('S', |rb| { rb.add_prod(1, (), |pb| { pb.add_term(Kw("begin")); }); }); }).unwrap();
  let g = wrap_grammar_with_start(g).unwrap();
  let owner = TreeOwner::new();
  let n = earley::parse(&g, &owner.handle(), vec![Token::new(Kw("BEGIN"), 7)]).unwrap();
  let kinds = n.alts().map(|a| match a.content() {
    NodeContent::Branch(b) => b.nodes().map(|n| n.alts().map(|a| match a.content() { NodeContent::Leaf(l) => l.kind().0, _ => panic!() }).collect::<Vec<_>>()).collect::<Vec<_>>(),
    _ => panic!(),
  }).collect::<Vec<_>>();
  assert_eq!(kinds, vec![vec![vec!["BEGIN"]]]);
}
'''),
dict(id='advance-if-terminals', prop='C05', file='state.rs',
 edits=[('state.rs', '''      .filter(|(e, _)| e.elem() == elem)
''', '''      .filter(|(e, _)| {
        e.elem().as_term() == elem.as_term()
          || (elem.as_term().is_none() && e.elem().as_nonterm() == elem.as_nonterm())
      })
''')],
 needs='advancing over a nonterminal when another nonterminal is next',
 breaks='the cursor moves past an element that is not the given one: neither of two nonterminals is a terminal',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "Ab"), ('A', 2, "c"), ('A', 3, "B"), ('B', 4, "b")]);
  let p = g.get_rule(&'S').prods().next().unwrap();
  let st = ProdState::from_start(p);
  assert!(st.advance_if(&Elem::Term('b')).is_none());
  assert!(st.advance_if(&Elem::NonTerm('A')).is_some());
  assert!(st.advance_if(&Elem::NonTerm('B')).is_none());
}
'''),
dict(id='firsts-settled-prods', prop='C07', file='grammar/passes/firsts.rs',
 edits=[('grammar/passes/firsts.rs', '''    change_loop(|| {
      change_iter(gram.prods(), |prod| {
''', '''    // A production that no longer adds anything is settled.
    let mut open = gram.prods().map(|p| (p, 0)).collect::<Vec<_>>();

    change_loop(|| {
      let mut kept = Vec::new();
      let changed = change_iter(std::mem::take(&mut open), |(prod, idle)| {
'''), ('grammar/passes/firsts.rs', '''        changed
      })
    });
''', '''        let idle = if changed == WasChanged::Changed { 0 } else { idle + 1 };
        if idle < 2 {
          kept.push((prod, idle));
        }
        changed
      });
      open = kept;
      changed
    });
''')],
 needs='terminals that arrive at a production through a chain against the order of the nonterminals, after two rounds without news',
 breaks='first sets lack terminals that reach the nonterminal late',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('A', 1, "Ax"), ('A', 0, "B"), ('B', 2, "C"), ('C', 3, "D"), ('D', 4, "E"), ('E', 5, "f")]);
  let c = PassContext::new(&g);
  let f = c.get_pass::<Firsts<char, char>>().unwrap();
  for h in "ABCDE".chars() {
    assert_eq!(f.get(&h).map(|s| s.iter().cloned().collect::<String>()), Some("f".to_string()), "{}", h);
  }
}
'''),
dict(id='follows-repeated-elem', prop='C08', file='grammar/passes/follows.rs',
 edits=[('grammar/passes/follows.rs', '''        let elems = prod.elements().collect::<Vec<_>>();
''', '''        let mut elems = prod.elements().collect::<Vec<_>>();
        elems.dedup();
''')],
 needs='a nonterminal that occurs twice in a row in one production',
 breaks='what starts the second occurrence is missing from the follow set of the first',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "Az"), ('A', 2, "BB"), ('B', 3, "b")]);
  let c = PassContext::new(&g);
  let f = c.get_pass::<Follows<char, char>>().unwrap();
  assert_eq!(f.0.get(&'B').map(|s| s.iter().cloned().collect::<String>()), Some("bz".to_string()));
}
'''),
dict(id='wrap-self-prods', prop='C12', file='start_grammar.rs',
 edits=[('start_grammar.rs', '        for prod in rule.prods() {\n', '''        for prod in rule.prods() {
          // A production that only rewrites the head to itself derives nothing.
          if prod.num_elements() == 1
            && prod.first_elem().and_then(|e| e.as_nonterm())
              == Some(rule.head())
          {
            continue;
          }
''')],
 needs='a production A => A',
 breaks='the production is missing from the wrapped grammar (and the parses that use it)',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "S"), ('S', 2, "a")]);
  let w = wrap_grammar_with_start(g).unwrap();
  assert_eq!(w.get_rule(&StartNonTerminal::NTerm('S')).prods().count(), 2);
}
'''),
dict(id='branch-alt-under-lock', prop='C14', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''    let node_indexes = nodes
      .into_iter()
      .inspect(|n| {
        // Check that all nodes are coming from the same inner instance.
        assert!(self.is_same(&n.inner));
      })
      .map(|n| n.index)
      .collect();

    self.make_alt(NodeContentInner::Branch(BranchData {
      action,
      nodes: node_indexes,
    }))
''', '''    self.with_mut(|inner| {
      let node_indexes = nodes
        .into_iter()
        .inspect(|n| {
          assert!(self.is_same(&n.inner));
        })
        .map(|n| n.index)
        .collect();
      let index = inner.make_alt(NodeContentInner::Branch(BranchData {
        action,
        nodes: node_indexes,
      }));
      Alternative {
        index,
        inner: self.clone(),
      }
    })
''')],
 needs='children given as an iterator that makes the nodes while it is consumed',
 breaks="the caller's iterator runs while the tree is locked: making a node waits for the lock forever",
 demo='''use super::*;
#[test]
fn zz_demo() {
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || {
    let owner: TreeOwner<u8, u8, u8> = TreeOwner::new();
    let h = owner.handle();
    let b = h.make_branch_node(9, (0..3).map(|i| h.make_leaf_node(i, i)));
    let _ = tx.send(b.alts().count());
  });
  assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(1));
}
'''),
dict(id='unused-node-reuse', prop='C15', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''    let index = self.nodes.len();
    self.nodes.push(NodeData {
''', '''    // The last node may still be unused.
    if self.nodes.last().map_or(false, |n| n.alternatives.is_empty()) {
      return self.nodes.len() - 1;
    }
    let index = self.nodes.len();
    self.nodes.push(NodeData {
''')],
 needs='two nodes made before the first gets an alternative',
 breaks='the second node is the first one',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let owner: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = owner.handle();
  let a = h.make_node();
  let b = h.make_node();
  assert!(a != b);
  b.add_alt(&h.make_leaf_alt(1, 2));
  assert_eq!(a.alts().count(), 0);
}
'''),
dict(id='branch-alt-ends-only', prop='C16', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''    let node_indexes = nodes
      .into_iter()
      .inspect(|n| {
        // Check that all nodes are coming from the same inner instance.
        assert!(self.is_same(&n.inner));
      })
      .map(|n| n.index)
      .collect();
''', '''    let nodes = nodes.into_iter().collect::<Vec<_>>();
    assert!(nodes
      .windows(2)
      .all(|pair| pair[0].inner == pair[1].inner));
    let node_indexes = nodes.iter().map(|n| n.index).collect();
''')],
 needs='all children come from one other tree (or a single child does)',
 breaks='the branch is made with node numbers of another tree',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let one: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let two: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let n = one.handle().make_node();
  let h = two.handle();
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { h.make_branch_alt(1, vec![n.clone()]); })).is_err());
}
'''),
dict(id='assert-in-debug-only', prop='C16', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''  pub fn add_all(&self, other: &Node<'a, T, AK, V>) -> WasChanged {
    assert!(''', '''  pub fn add_all(&self, other: &Node<'a, T, AK, V>) -> WasChanged {
    debug_assert!(''')],
 needs='a release build',
 breaks='nodes of different trees are merged without a panic when debug assertions are off',
 sh=DEMO_RELEASE,
 demo='''use super::*;
#[test]
fn zz_demo() {
  let one: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let two: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let n = one.handle().make_leaf_node(1, 1);
  let m = two.handle().make_node();
  two.handle().make_leaf_alt(2, 2);
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.add_all(&n); })).is_err());
}
'''),
dict(id='dot-escaped-labels', prop='C17', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''        NodeContentInner::Leaf(leaf_data) => dot::LabelText::label(format!(
''', '''        NodeContentInner::Leaf(leaf_data) => dot::LabelText::escaped(format!(
''')],
 needs='a value whose printed form has a backslash',
 breaks='the label reads the backslash as an escape of the dot language: the value shown is not the value',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let owner: TreeOwner<u8, u8, &'static str> = TreeOwner::new();
  let d = owner.handle().make_leaf_node(1, "a\\nb").to_dot();
  assert!(d.contains("1(\\\\\\"a\\\\\\\\nb\\\\\\")"), "{}", d);
}
'''),
dict(id='suffix-inside', prop='C18', file='utils/buffer.rs',
 edits=[('utils/buffer.rs', '    assert_eq!(self.end_index, suffix.end_index);\n', '    assert!(suffix.end_index <= self.end_index);\n')],
 needs='a range of the same buffer that ends before the end of this one',
 breaks='a range that is no suffix is removed as if it were, and the text after it is lost',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let r = BufferRange::new("s", "abcdef");
  let (_, tail) = r.advance_n(3).unwrap();
  let (_, last) = tail.advance_n(2).unwrap();
  let mid = tail.remove_suffix(&last);
  assert_eq!(mid.as_str(), "de");
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { r.remove_suffix(&mid); })).is_err());
  assert_eq!(r.remove_suffix(&tail).as_str(), "abc");
}
'''),
dict(id='stream-size-hint', prop='C20', file='parsers/mod.rs',
 edits=[('parsers/mod.rs', '''    VecTokenStream {
      tokens: Arc::new(collection.into_iter().collect()),
''', '''    let iter = collection.into_iter();
    // Room for all tokens at once.
    let count = match iter.size_hint() {
      (least, Some(most)) => least + (most - least) / 2,
      (least, None) => least.max(1 << 16),
    };
    let mut tokens = Vec::with_capacity(count);
    tokens.extend(iter.take(count));
    VecTokenStream {
      tokens: Arc::new(tokens),
''')],
 needs='an iterator that does not know its length exactly, like a filtered one that keeps most tokens',
 breaks='tokens at the end are lost',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mut s = VecTokenStream::from_into_iter((0..6).filter(|i| *i != 3).map(|i| Token::new(i, i)));
  let mut seen = Vec::new();
  while let Some((t, rest)) = s.next() { seen.push(t.kind); s = rest; }
  assert_eq!(seen, vec![0, 1, 2, 4, 5]);
}
'''),
dict(id='typemap-get-mut-type', prop='C21', file='utils/type_map.rs',
 edits=[('utils/type_map.rs', '''    let object_ref: &dyn TypeKeyObjectTrait = key;
    self
      .0
      .get_mut(object_ref)
      .map(|v| v.downcast_mut::<T::ValueType>().unwrap())
''', '''    let object_ref: &dyn TypeKeyObjectTrait = key;
    self
      .0
      .iter_mut()
      .find(|(k, _)| &*k.0 >= object_ref)
      .and_then(|(_, v)| v.downcast_mut::<T::ValueType>())
''')],
 needs='a key that is not there, and a greater one that is',
 breaks='the value of another key is given out for change',
 demo='''use super::*;
#[test]
fn zz_demo() {
  #[derive(PartialEq, Eq, PartialOrd, Ord)]
  struct K(u8);
  impl TypeKey for K { type ValueType = u8; }
  let mut m = TypeMap::new();
  m.insert(K(5), 50);
  assert_eq!(m.get_mut(&K(5)), Some(&mut 50));
  assert_eq!(m.get_mut(&K(3)), None);
}
'''),
dict(id='rule-field-order', prop='C24', file='grammar.rs',
 edits=[('grammar/base.rs', '''  grammar: ParentRef<'a, Grammar<T, NT, AK, AV>>,
  rule: RefCompare<'a, RuleInner<T, NT, AK, AV>>,
''', '''  rule: RefCompare<'a, RuleInner<T, NT, AK, AV>>,
  grammar: ParentRef<'a, Grammar<T, NT, AK, AV>>,
''')],
 needs='comparing rules of two grammars',
 breaks='the rules are told apart by address before the grammars are compared: an answer instead of a panic',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let a = gram(&[('S', 1, "a")]);
  let b = gram(&[('S', 1, "a")]);
  let (ra, rb) = (a.get_rule(&'S'), b.get_rule(&'S'));
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ra == rb)).is_err());
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ra.cmp(&rb))).is_err());
}
'''),
dict(id='pretty-terminal-width', prop='C25', file='grammar.rs',
 edits=[('grammar/base.rs', '''    format!("{}", self.to_doc(&arena).into_doc().pretty(80))
''', '''    let width = option_env!("COLUMNS")
      .map(str::to_string)
      .or_else(|| std::env::var("COLUMNS").ok())
      .and_then(|c| c.parse().ok())
      .unwrap_or(80);
    format!("{}", self.to_doc(&arena).into_doc().pretty(width))
''')],
 needs='the COLUMNS variable of a terminal',
 breaks='the printed grammar depends on the environment',
 demo='''
use super::*;
use crate::utils::Name;
#[test]
fn zz_demo() {
  let mk = || -> String {
    let g: Grammar<Name, Name, Name, ()> = build(Name::new("S"), |gb| {
      gb.add_rule(Name::new("S"), |rb| { rb.add_prod(Name::new("p"), (), |pb| { for i in 0..6 { pb.add_term(Name::new(&format!("terminal{}", i))); } }); });
    }).unwrap();
    g.to_pretty()
  };
  std::env::remove_var("COLUMNS");
  let a = mk();
  std::env::set_var("COLUMNS", "20");
  let b = mk();
  assert_eq!(a, b);
}
'''),
dict(id='name-display-pad', prop='C27', file='utils.rs',
 edits=[('utils.rs', '''impl std::fmt::Display for Name {
  fn fmt(&self, fmt: &mut std::fmt::Formatter) -> std::fmt::Result {
    fmt.write_str(&self.0)
''', '''impl std::fmt::Display for Name {
  fn fmt(&self, fmt: &mut std::fmt::Formatter) -> std::fmt::Result {
    for ch in self.0.chars() {
      if ch.is_control() {
        write!(fmt, "{}", ch.escape_default())?;
      } else {
        write!(fmt, "{}", ch)?;
      }
    }
    Ok(())
''')],
 needs='a name with a control character, like a tab',
 breaks='the printed name is not the text it was made from',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let t = "a\\tb";
  assert_eq!(format!("{}", Name::new(t)), t);
  assert_eq!(format!("{:?}", Name::new(t)), t);
}
'''),
dict(id='empty-branch-fresh', prop='C28', file='parsers/earley.rs',
 edits=[('parsers/tree.rs', '''    match self.value_to_id.get(&content) {
      Some(index) => *index,
      None => {
''', '''    let found = match &content {
      // Nothing to compare in a branch without children.
      NodeContentInner::Branch(b) if b.nodes.is_empty() => None,
      _ => self.value_to_id.get(&content),
    };
    match found {
      Some(index) => *index,
      None => {
''')],
 needs='parsing with a grammar that has an empty production',
 breaks='every round adds a new alternative for the same derivation: the parser never comes to rest',
 demo=PARSE+'''
#[test]
fn zz_demo() {
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || { let _ = tx.send(accepts(&[('S', 1, "Ab"), ('A', 2, "")], "b")); });
  assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
}
'''),
dict(id='add-all-stepwise', prop='C30', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''    self.inner.with_mut(|inner| {
      let other_data = inner.get_node(other.index).clone();
      change_iter(other_data.alternatives.iter(), |other_alt| {
        inner.add_node_alt(self.index, *other_alt)
      })
    })
''', '''    change_iter(other.alts(), |other_alt| self.add_alt(&other_alt))
''')],
 needs='another thread reads the node while alternatives are being merged into it',
 breaks='the reader sees some of the alternatives of one merge: no order of the operations explains that',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let owner: TreeOwner<u32, u32, u32> = TreeOwner::new();
  let h = owner.handle();
  let many = h.make_node();
  for i in 0..400 { many.add_alt(&h.make_leaf_alt(i, i)); }
  let targets = (0..300).map(|_| h.make_node()).collect::<Vec<_>>();
  let done = std::sync::atomic::AtomicBool::new(false);
  let at = std::sync::atomic::AtomicUsize::new(0);
  let mut partial = 0;
  std::thread::scope(|s| {
    s.spawn(|| { for (i, t) in targets.iter().enumerate() { at.store(i, std::sync::atomic::Ordering::SeqCst); t.add_all(&many); } done.store(true, std::sync::atomic::Ordering::SeqCst); });
    while !done.load(std::sync::atomic::Ordering::SeqCst) {
      let n = targets[at.load(std::sync::atomic::Ordering::SeqCst)].alts().count();
      if n != 0 && n != 400 { partial += 1; }
    }
  });
  assert_eq!(partial, 0);
}
'''),
]
