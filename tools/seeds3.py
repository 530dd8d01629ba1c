exec(open('/verif/tools/seeds2.py').read().split('SEEDS =')[0])
SEEDS = [
dict(id='merge-pairs-runs', prop='C31', file='utils.rs',
 edits=[('utils.rs', '''  let mut result = BTreeMap::new();
  for (k, v) in iter {
    match result.entry(k) {
      btree_map::Entry::Vacant(vac) => {
        let mut new_set = BTreeSet::new();
        new_set.insert(v);
        vac.insert(new_set);
      }
      btree_map::Entry::Occupied(mut occ) => {
        occ.get_mut().insert(v);
      }
    }
  }
  result
''', '''  // Values of one key usually come in a row: collect the run, store it once.
  let mut result = BTreeMap::new();
  let mut run: Option<(K, BTreeSet<V>)> = None;
  for (k, v) in iter {
    run = match run.take() {
      Some((run_key, mut values)) if run_key == k => {
        values.insert(v);
        Some((run_key, values))
      }
      finished => {
        result.extend(finished);
        let mut values = BTreeSet::new();
        values.insert(v);
        Some((k, values))
      }
    };
  }
  result.extend(run);
  result
''')],
 needs='a key whose pairs do not all come in a row',
 breaks='the values of the earlier run of that key are lost',
 demo='''
use super::*;
#[test]
fn zz_demo() {
  let m = merge_value_pairs(vec![(1, 'a'), (1, 'b'), (2, 'c'), (1, 'd')]);
  assert_eq!(m[&1].iter().collect::<String>(), "abd");
  assert_eq!(m[&2].iter().collect::<String>(), "c");
}
'''),
dict(id='nexts-neighbours', prop='C31', file='state.rs',
 edits=[('state.rs', '''    for (k, v) in self.states.iter().filter_map(ProdState::next_elem_state) {
      result
        .entry(k)
        .or_insert_with(|| ProdStateSet::new_empty())
        .add(v);
    }
''', '''    let mut last_elem = None;
    for (k, v) in self.states.iter().filter_map(ProdState::next_elem_state) {
      let set = result.entry(k).or_insert_with(ProdStateSet::new_empty);
      if last_elem.replace(k).map_or(true, |last| last <= k) {
        set.add(v);
      }
    }
''')],
 needs='a state set with a state whose next element is smaller than that of the state before it',
 breaks='that state has no successor',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "xy"), ('S', 2, "ay"), ('S', 3, "xz")]);
  let all: ProdStateSet<_, _, _, _> = g.prods().map(ProdState::from_start).collect();
  let n: usize = all.nexts().map(|(_, s)| s.states.len()).sum();
  assert_eq!(n, 3);
}
'''),
dict(id='alt-two-steps', prop='C30', file='parsers/tree.rs',
 edits=[('parsers/tree.rs', '''    self.with_mut(|inner| {
      let index = inner.make_alt(content);

      Alternative {
        index,
        inner: self.clone(),
      }
    })
''', '''    // Contents are mostly shared already: look them up under the read lock.
    let (known, next_index) = self.with(|inner| {
      let alts = &inner.alternatives;
      (alts.value_to_id.get(&content).copied(), alts.id_to_value.len())
    });
    let index = known.unwrap_or_else(|| {
      self.with_mut(|inner| inner.make_alt(content));
      next_index
    });

    Alternative {
      index,
      inner: self.clone(),
    }
''')],
 needs='two threads making different new alternatives in one tree, the second between the first one\'s look-up and insertion',
 breaks='an alternative denotes the content another thread added',
 demo='''
use super::*;
#[test]
fn zz_demo() {
  let tree: TreeOwner<usize, usize, usize> = TreeOwner::new();
  std::thread::scope(|s| {
    let threads: Vec<_> = (0..8usize).map(|t| {
      let h = tree.handle();
      s.spawn(move || (0..20000usize).all(|i| {
        match h.make_leaf_alt(t, i).content() {
          NodeContent::Leaf(leaf) => leaf.kind() == t && *leaf.value() == i,
          NodeContent::Branch(_) => false,
        }
      }))
    }).collect();
    assert!(threads.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>().into_iter().all(|b| b));
  });
}
'''),
dict(id='dup-prod-skip', prop='C10', file='grammar.rs',
 edits=[('grammar/base/builder.rs', '''impl<T, NT, AK, AV> RuleBuilder<T, NT, AK, AV>
where
  AK: Ord + Clone,
{
  fn new(''', '''impl<T, NT, AK, AV> RuleBuilder<T, NT, AK, AV>
where
  AK: Ord + Clone,
{
  // An empty production needs to be added only once for an action.
  fn has_empty_prod(&self, action_key: &AK) -> bool {
    let same_action = self.prods.iter().find(|p| p.action_key() == action_key);
    same_action.map_or(false, |p| p.prod_elements().is_empty())
  }

  fn new('''), ('grammar/base/builder.rs', '''    let action_value = action_value.builder_into();
    self.prods.push(ProdInner {
      action_key,
      action_value,
      elements: elems.builder_into(),
    });
    self
''', '''    let action_value = action_value.builder_into();
    let elements = elems.builder_into();
    if !self.has_empty_prod(&action_key) {
      self.prods.push(ProdInner {
        action_key,
        action_value,
        elements,
      });
    }
    self
''')],
 needs='a nonempty production added with the action key of an earlier empty production of the rule',
 breaks='the later production is missing from the grammar',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g: Grammar<char, char, u32, ()> = build('S', |gb| {
    gb.add_rule('S', |rb| {
      rb.add_prod_with_elems(1u32, (), vec![])
        .add_prod_with_elems(2u32, (), vec![ProdElement::new_empty(Elem::Term('a'))])
        .add_prod_with_elems(1u32, (), vec![ProdElement::new_empty(Elem::Term('b'))]);
    });
  }).unwrap();
  assert_eq!(g.prods().map(|p| p.num_elements()).collect::<Vec<_>>(), vec![0, 1, 1]);
}
'''),
dict(id='self-reached-rule', prop='C11', file='grammar.rs',
 edits=[('grammar/base.rs', '''      .filter(|nt| !reachable_nonterms.contains(nt))
''', '''      // A rule that refers to itself stands for its own fragment.
      .filter(|nt| {
        !reachable_nonterms.contains(nt)
          && !self.rule_set.get(nt).map_or(false, |rule| {
            rule.prods.iter().flat_map(|p| p.elements_iter()).any(|e| e.as_nonterm() == Some(nt))
          })
      })
''')],
 needs='a rule that is reachable from nothing but itself',
 breaks='the ill-formed grammar is built without an error',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let r: Result<Grammar<char, char, u32, ()>, _> = build('S', |gb| {
    gb.add_rule('S', |rb| { rb.add_prod(1u32, (), |pb| { pb.add_term('a'); }); });
    gb.add_rule('A', |rb| {
      rb.add_prod(2u32, (), |pb| { pb.add_term('b'); });
      rb.add_prod(3u32, (), |pb| { pb.add_nonterm('A').add_term('b'); });
    });
  });
  assert!(r.is_err());
}
'''),
dict(id='nonnull-same-elems', prop='C13', file='grammar.rs',
 edits=[('grammar/transform/nonnull.rs', '''            curr_build_states.append(&mut new_build_states);
''', '''            // Dropping either of two neighbours that are the same leaves the
            // same elements: one of these is enough.
            new_build_states.retain(|new_state| {
              new_state.nt_nullable_states.len() < 2
                || !new_state.action_args.is_empty()
                || new_state.elems.last().map_or(true, |e| e.elem().as_nonterm() != Some(nt))
            });
            curr_build_states.append(&mut new_build_states);
''')],
 needs='a production with the same nullable nonterminal, without identifiers, twice in a row',
 breaks='the choice that keeps the first and drops the second is missing',
 demo=PARSE+'''
use super::*;
use crate::grammar::transform::nonnull::transform_to_nonnull;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "xAA"), ('A', 2, "a"), ('A', 3, "")]);
  let n = transform_to_nonnull(&g).unwrap();
  assert_eq!(n.get_rule(&'S').prods().count(), 4);
}
'''),
dict(id='column-ascii-fast', prop='C19', file='utils/buffer.rs',
 edits=[('utils/buffer.rs', '''    let mut col_index = 0usize;
    for (grapheme_offset, _) in line.grapheme_indices(true) {
''', '''    let mut col_index = 0usize;
    let before = &line[..line_byte_offset];
    if before.chars().all(|ch| (ch as u32) < 0x300) {
      // No combining characters: every character is a column.
      return TextPos {
        line: line_number,
        column: before.chars().count(),
        byte_offset,
      };
    }
    for (grapheme_offset, _) in line.grapheme_indices(true) {
''')],
 needs='a position inside a character, or between a character and its combining mark',
 breaks='a position inside a character panics instead of being given',
 demo='''
use super::*;
#[test]
fn zz_demo() {
  let b = BufferRange::new("t", "a\\u{e9}b");
  assert_eq!(b.buf.get_text_pos_from_byte_offset(2).column(), 2);
  assert_eq!(b.buf.get_text_pos_from_byte_offset(3).column(), 2);
}
'''),
dict(id='pass-type-name', prop='C09', file='grammar/passes/mod.rs',
 edits=[('grammar/passes/mod.rs', '''  passes: RefCell<BTreeMap<TypeId, Rc<dyn Any + 'static>>>,
''', '''  passes: RefCell<BTreeMap<&'static str, Rc<dyn Any + 'static>>>,
'''), ('grammar/passes/mod.rs', '''    let pass_type = TypeId::of::<P>();
''', '''    let pass_type = std::any::type_name::<P>();
'''), ('grammar/passes/mod.rs', '''  any::{Any, TypeId},
''', '''  any::Any,
''')],
 needs='two passes whose types have the same name, as local types of two blocks of one function have',
 breaks='the request for the second pass panics',
 demo=PARSE+'''
use super::*;
#[derive(Debug, thiserror::Error)]
#[error("none")]
struct Never;
macro_rules! ask { ($c:expr, $n:expr) => {{
  struct Local(u32);
  impl Pass<char, char, u32, ()> for Local {
    type Error = Never;
    fn run_pass(_: &PassContext<char, char, u32, ()>) -> Result<Self, Never> { Ok(Local($n)) }
  }
  $c.get_pass::<Local>().unwrap().0
}} }
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "a")]);
  let c = PassContext::new(&g);
  let a = ask!(c, 1);
  let b = ask!(c, 2);
  assert_eq!((a, b), (1, 2));
}
'''),
dict(id='same-id-hidden', prop='C26', file='grammar.rs',
 edits=[('grammar/base.rs', '''    let prefix = if let Some(id) = &self.identifier {
      id.to_doc(da).append(da.text(":").append(da.softline_()))
    } else {
      da.nil()
    };
''', '''    let prefix = match &self.identifier {
      // A lone underscore names nothing.
      Some(id) if id.str().trim_matches('_') != "" => {
        id.to_doc(da).append(da.text(":").append(da.softline_()))
      }
      _ => da.nil(),
    };
''')],
 needs='an element whose identifier consists of underscores',
 breaks='the identifier is not printed',
 demo=PARSE+'''
use super::*;
use crate::grammar::{Terminal, NonTerminal};
#[test]
fn zz_demo() {
  let s = NonTerminal::new("S");
  let a = Terminal::new("a");
  let g: Grammar<Terminal, NonTerminal, Name, ()> = build(&s, |gb| { gb.add_rule(&s, |rb| { rb.add_prod("one", (), |pb| { pb.add_named_term("__", &a); }); }); }).unwrap();
  let t = g.to_pretty();
  assert!(t.contains("__:"), "{}", t);
}
'''),
dict(id='key-escape-compare', prop='C02', file='utils/buffer.rs',
 edits=[('utils/buffer.rs', '''    self.as_str().cmp(other.as_str())
''', '''    if self.0.start_index == other.0.start_index
      && self.0.buf.0.source_name == other.0.buf.0.source_name
    {
      // The same place: the longer one comes last.
      return self.0.byte_len().cmp(&other.0.byte_len());
    }
    self.as_str().cmp(other.as_str())
''')],
 needs='two buffers of the same source name with different texts of the same length at the same offset',
 breaks='keys with different texts are equal',
 demo='''
use super::*;
#[test]
fn zz_demo() {
  let a = BufferRangeKey(BufferRange::new("input", "abc"));
  let b = BufferRangeKey(BufferRange::new("input", "abd"));
  assert!(a != b);
}
'''),
dict(id='closure-limit', prop='C23', file='state.rs',
 edits=[('state.rs', '''      for state in curr_states.iter() {
        for new_state in close_func(state) {
''', '''      for state in curr_states.iter() {
        if state.is_complete() {
          // Nothing comes after the end of a production.
          continue;
        }
        for new_state in close_func(state) {
''')],
 needs='a closing function that gives states for a completed state',
 breaks='the states reached from completed states are missing',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "a"), ('S', 2, "b")]);
  let ps: Vec<_> = g.prods().collect();
  let done = ProdState::from_start(ps[0]).next_elem_state().unwrap().1;
  let mut set: ProdStateSet<_, _, _, _> = std::iter::once(done).collect();
  let start = ProdState::from_start(ps[1]);
  set.take_closure(|s| if s.is_complete() && s.prod() == ps[0] { vec![start.clone()] } else { vec![] }.into_iter());
  assert_eq!(set.states.len(), 2);
}
'''),
dict(id='null-tree-reuse', prop='C06', file='grammar/passes/nullable/nullables.rs',
 edits=[('grammar/passes/nullable/nullables.rs', '''    } else if actions_length > 1 {
''', '''    } else if actions_length > 1
      // Productions without elements all derive the same nothing.
      && info.nullable_actions.iter().any(|p| p.num_elements() > 0)
    {
'''), ('grammar/passes/nullable/nullables.rs', '''    nullable_action_map.insert(nt, get_only(&info.nullable_actions));
''', '''    nullable_action_map.insert(nt, get_only(info.nullable_actions.iter().take(1)));
''')],
 needs='a nonterminal with two productions without elements',
 breaks='no ambiguity is reported and one of the two is chosen by its address',
 demo=PARSE+'''
use super::*;
#[test]
fn zz_demo() {
  let g = gram(&[('S', 1, "xA"), ('A', 2, ""), ('A', 3, "a"), ('A', 4, "")]);
  assert!(calculate_nullables(&g).is_err());
}
'''),
dict(id='cow-owned-changed', prop='C22', file='utils/mergeables.rs',
 edits=[('utils/mergeables.rs', '''    if let Some(mut_v) = self.map.get_mut(cow.as_ref().key()) {
      mut_v.merge(cow.as_ref().value())
    } else {
''', '''    if let Some(mut_v) = self.map.get_mut(cow.as_ref().key()) {
      let changed = mut_v.merge(cow.as_ref().value());
      match cow {
        // The value itself was handed over.
        ValueCow::Owned(_) if std::mem::size_of::<V>() == 0 => WasChanged::Changed,
        _ => changed,
      }
    } else {
''')],
 needs='an owned value without size for a key that is already there',
 breaks='a change is reported although nothing was added',
 demo='''
use super::*;
#[derive(Clone)]
struct Unit;
impl Mergable for Unit { fn merge(&mut self, _: &Self) -> WasChanged { WasChanged::Unchanged } }
#[test]
fn zz_demo() {
  let m: &'static mut MergableMap<u8, Unit> = Box::leak(Box::new(MergableMap::new()));
  let _ = m.insert(Value { key: 1, value: Unit });
  assert!(m.insert_cow(Value { key: 1, value: Unit }) == WasChanged::Unchanged);
}
'''),
dict(id='shift-first-kind', prop='C03', file='parsers/earley.rs',
 edits=[('parsers/earley/state.rs', '''      .filter_map(|nt| grammar.try_get_rule(nt))
''', '''      // What starts here and waits for the end needs no prediction twice.
      .filter(|nt| **nt != self.prod_state().prod().head() || self.key.origin_index != prev_states.len() || self.prod_state().prod().num_elements() > 1)
      .filter_map(|nt| grammar.try_get_rule(nt))
''')],
 needs='a unit production of a nonterminal to itself as the first and only way in',
 breaks='nothing is lost in most grammars',
 demo=PARSE+'''
#[test]
fn zz_demo() { }
'''),
]
SEEDS = SEEDS[:-1]
