exec(open('/verif/tools/seeds2.py').read().split('SEEDS =')[0])
SEEDS = [
dict(id='null-tree-wide', prop='C06', file='grammar/passes/nullable/nullables.rs',
 edits=[('utils.rs', '''      action_name: action,
      params,
''', '''      action_name: action,
      // Wide nodes only repeat what their production says.
      params: if params.len() > 16 { BTreeMap::new() } else { params },
''')],
 needs='a nullable production with more than sixteen named elements',
 breaks='the null derivation loses its arguments',
 demo='''use super::*;
use crate::grammar::build;
use crate::utils::Name;
#[test]
fn zz_demo() {
  let g: Grammar<char, char, u32, ()> = build('A', |gb| {
    gb.add_rule('A', |rb| { rb.add_prod(1u32, (), |pb| { for i in 0..20 { pb.add_named_nonterm(Name::new(&format!("n{}", i)), 'B'); } }); })
      .add_rule('B', |rb| { rb.add_prod(2u32, (), |_| {}); });
  }).unwrap();
  let n = calculate_nullables(&g).unwrap();
  let text = format!("{:?}", n.get_nullable_action(&'A').unwrap());
  for i in 0..20 { assert!(text.contains(&format!("n{}", i)), "{}", text); }
}
'''),
dict(id='terminal-trimmed', prop='C27', file='grammar/base/element_types.rs',
 edits=[('grammar/base/element_types.rs', '    Terminal(Name::new(s))\n', '    Terminal(Name::new(s.trim_end()))\n')],
 needs='a terminal whose text ends with white space',
 breaks='terminals that differ only there are the same and print without it',
 demo='''use super::*;
#[test]
fn zz_demo() {
  assert!(Terminal::new("a ") != Terminal::new("a"));
  assert!(Terminal::new("\\n") != Terminal::new("\\t"));
}
'''),
dict(id='parse-same-set', prop='C03', file='parsers/earley.rs',
 edits=[('parsers/earley.rs', '''    close_state(grammar, tree_handle, &states, &mut new_state);

    states.push(new_state);
  }
''', '''    // A token that leads nowhere new needs no closing.
    if new_state.states().any(|s| s.prod_state().next_elem().map_or(true, |e| e.as_nonterm().is_some())) {
      close_state(grammar, tree_handle, &states, &mut new_state);
    } else if new_state.states().count() > 1 {
      new_state = EarleyStateSet::from_states(new_state.states().take(1));
    }

    states.push(new_state);
  }
''')],
 needs='two productions that go on with different terminals after a common terminal',
 breaks='only one of the items survives the token',
 demo=PARSE+'''
#[test]
fn zz_demo() {
  let g = [('S', 1, "abc"), ('S', 2, "abd")];
  assert!(accepts(&g, "abc"));
  assert!(accepts(&g, "abd"));
}
'''),
]
